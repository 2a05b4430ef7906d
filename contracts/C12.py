"""C12: Welch estimates of power and cross spectral densities."""
from dv.harness import contract

SP = "ml4gw.spectral"
SLOW, FAST, MED, VAL = (f"{SP}:{n}" for n in (
    "spectral_density", "fast_spectral_density", "median", "_validate_shapes"))
MOD = "ml4gw.transforms.spectral:SpectralDensity"
LEAD = {1: (), 2: ("C",), 3: ("B", "C")}


def segments(h, par):
    """segment length of given parity, stride, number of segments and unused tail"""
    P = 2 * h.int("half", 2, span=5) + par
    st = h.int("stride", 1, span=8)
    S = h.int("segments", 1, span=5)
    tail = h.int("tail", 0, span=7)
    h.assume(tail < st)
    return P, st, S, (S - 1) * st + P + tail


def spectra(h, x, nd, P, st, S, L, w, whole):
    """transforms of the windowed segments, with the mean of the segment (or of the whole
    series) removed"""
    lead = tuple(h.shapeof(x)[:-1])

    def mean(ix, s):
        if whole:
            return h.sum(L, lambda j: h.at(x, *ix, j)) / L
        return h.sum(P, lambda j: h.at(x, *ix, s * st + j)) / P

    seg = h.tab(lead + (S, P), lambda *q: (
        h.at(x, *q[:-2], q[-2] * st + q[-1]) - mean(q[:-2], q[-2])) * h.at(w, q[-1]))
    return h.torch.fft.rfft(seg)


def average(h, p, shape, S, how):
    """mean, or bias-corrected median, over axis -2 of the periodograms p(..., s, k)"""
    if how == "mean":
        return lambda *q: h.sum(S, lambda s: p(*q[:-1], s, q[-1])) / S
    t = h.tab(shape[:-1] + (S,) + shape[-1:], p)
    m = h.torch.quantile(t, q=0.5, axis=-2)
    bias = 1 + h.sum((S - 1) // 2, lambda i: 1 / h.num(2 * i + 3) - 1 / h.num(2 * i + 2))
    return lambda *q: h.div(h.at(m, *q), bias)


def doubled(h, k, P):
    """1 at the edges of the one-sided spectrum, 2 elsewhere"""
    edge = h.or_(k == 0, k == P // 2) if P_even(P) else k == 0
    return h.ite(edge, 1, 2)


def P_even(P):
    return bool(P % 2 == 0)


@contract("C12", [SLOW, MED, VAL, FAST],
          cases=[dict(nd=n, par=p, avg=a, fast=f) for n in (1, 2, 3) for p in (0, 1)
                 for a in ("mean", "median") for f in (0, 1)], tol=dict(rtol=1e-4, atol=1e-7))
def psd(h, nd, par, avg, fast):
    """one-sided averaged periodogram of the windowed, mean-free segments"""
    P, st, S, L = segments(h, par)
    lead = tuple(h.int(n, 1, span=3) for n in LEAD[nd])
    x = h.tensor("x", lead + (L,))
    w = h.tensor("window", (P,))
    sc = h.real("scale", any=(0.1, 3))
    fr = [h.freeze(x), h.freeze(w)]
    y = h.must("psd", h.call(h.fn(FAST if fast else SLOW), x, P, st, w, sc, avg))
    K = P // 2 + 1
    h.shape_eq("psd", y, lead + (K,))
    X = spectra(h, x, nd, P, st, S, L, w, fast)

    def p(*q):
        v = h.at(X, *q)
        return (v.real * v.real + v.imag * v.imag) * sc * doubled(h, q[-1], P)

    want = average(h, p, lead + (K,), S, avg)
    h.each("density", lead + (K,), lambda *q: h.same(h.at(y, *q), want(*q)))
    for f, n in zip(fr, ("series", "window")):
        h.frame(n, f)


@contract("C12", [FAST, MED, VAL],
          cases=[dict(nx=a, ny=b, par=p, avg=v) for a, b in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3))
                 for p in (0, 1) for v in ("mean", "median")], tol=dict(rtol=1e-4, atol=1e-7))
def csd(h, nx, ny, par, avg):
    """cross density: conj(X) Y per segment, y shared by the channels when it has one
    dimension less; real and imaginary medians separately"""
    P, st, S, L = segments(h, par)
    lead = tuple(h.int(n, 1, span=3) for n in LEAD[nx])
    ly = lead if nx == ny else lead[:-1]
    x, y = h.tensor("x", lead + (L,)), h.tensor("y", ly + (L,))
    w = h.tensor("window", (P,))
    sc = h.real("scale", any=(0.1, 3))
    fr = [h.freeze(t) for t in (x, y, w)]
    z = h.must("csd", h.call(h.fn(FAST), x, P, st, w, sc, avg, y))
    K = P // 2 + 1
    h.shape_eq("csd", z, lead + (K,))
    X = spectra(h, x, nx, P, st, S, L, w, 1)
    Y = spectra(h, y, ny, P, st, S, L, w, 1)

    def pq(part):
        def p(*q):
            a = h.at(X, *q)
            b = h.at(Y, *(q if nx == ny else q[:-3] + q[-2:]))
            v = a.real * b.real + a.imag * b.imag if part == "re" else \
                a.real * b.imag - a.imag * b.real
            return v * sc * doubled(h, q[-1], P)
        return p

    re, im = (average(h, pq(n), lead + (K,), S, avg) for n in ("re", "im"))
    h.each("real part", lead + (K,), lambda *q: h.same(h.at(z, *q).real, re(*q)))
    h.each("imaginary part", lead + (K,), lambda *q: h.same(h.at(z, *q).imag, im(*q)))
    for f, n in zip(fr, ("x", "y", "window")):
        h.frame(n, f)


@contract("C12", [VAL, SLOW, FAST], cases=[dict(nd=n, fast=f) for n in (1, 2, 3, 4) for f in (0, 1)])
def refuses_short(h, nd, fast):
    """too few samples for one segment, or more than three dimensions, are refused"""
    P, L = h.int("P", 2, span=12), h.int("L", 1, span=14)
    lead = tuple(h.int(f"d{i}", 1, span=3) for i in range(nd - 1))
    if nd < 4:
        h.assume(L < P)
    x, w = h.tensor("x", lead + (L,)), h.tensor("w", (P,))
    out = h.call(h.fn(FAST if fast else SLOW), x, P, h.int("stride", 1, span=5), w, 1.0, "mean")
    h.ok("refused", out.raised(ValueError))


@contract("C12", [VAL, FAST], cases=[dict(nx=a, ny=b, why=w) for a, b, w in (
    (1, 1, "time"), (2, 2, "time"), (3, 2, "time"), (1, 2, "rank"), (1, 3, "rank"), (2, 3, "rank"),
    (3, 1, "rank"), (2, 2, "shape"), (3, 3, "shape0"), (3, 3, "shape1"), (3, 2, "batch"))])
def refuses_pair(h, nx, ny, why):
    """series whose shapes do not go together are refused"""
    P = h.int("P", 2, span=8)
    L = P + h.int("more", 0, span=8)
    lead = tuple(h.int(n, 1, span=3) for n in LEAD[nx])
    ly = tuple(lead[i] if i < len(lead) and ny <= nx else h.int(f"y{i}", 1, span=3)
               for i in range(ny - 1))
    M = L
    if why == "time":
        M = P + h.int("my", 0, span=9)
        h.assume(M != L)
    elif why in ("shape", "shape0", "batch"):
        d = h.int("other", 1, span=4)
        h.assume(d != lead[0])
        ly = (d,) + ly[1:]
    elif why == "shape1":
        d = h.int("other", 1, span=4)
        h.assume(d != lead[1])
        ly = (ly[0], d)
    x, y = h.tensor("x", lead + (L,)), h.tensor("y", ly + (M,))
    out = h.call(h.fn(FAST), x, P, h.int("stride", 1, span=5), h.tensor("w", (P,)), 1.0, "mean", y)
    h.ok("refused", out.raised(ValueError))


@contract("C12", [MOD + ".__init__", MOD + ".forward", SLOW, FAST],
          cases=[dict(fast=f, avg=a, over=o, win=w, two=t) for f in (0, 1)
                 for a in ("mean", "median") for o in ("none", "float") for w in (0, 1)
                 for t in ((0, 1) if f else (0,)) if a == "mean" or (o == "none" and w)],
          tol=dict(rtol=1e-3, atol=1e-7))
def module(h, fast, avg, over, win, two):
    """the module applies the estimate with segments of fftlength seconds overlapping by
    half of that (or the given overlap), a Hann (or the given) window, and density scaling
    1 / (rate * sum of the squared window)"""
    sr = h.int("rate", 1, span=8)
    P = h.int("P", 3, span=9)
    fl = P / sr
    h.assume(h.same(h.trunc(fl * sr), P) if not h.sym else True)
    ov = h.real("overlap", 0, 8) if over == "float" else None
    o = fl / 2 if ov is None else ov
    h.assume(o < fl)
    no = h.trunc(o * sr)
    if not h.sym:  # keep away from float rounding of the truncation
        h.assume(abs(o * sr - no) > 1e-6 and abs(o * sr - no - 1) > 1e-6 or ov is None)
    w = h.tensor("window", (P,), any=(0.2, 1.5)) if win else None
    m = h.must("construct", h.call(h.fn(MOD), sr, fl, ov, avg, w, bool(fast)))
    W = h.torch.hann_window(P) if w is None else w
    h.assume(h.sum(P, lambda j: h.at(W, j) * h.at(W, j)) > 0)
    st = P - no
    h.assume(st > 0)
    C, L = h.int("C", 1, span=3), P + h.int("more", 0, span=20)
    x = h.tensor("x", (C, L))
    y = h.tensor("y", (C, L)) if two else None
    scale = 1 / (sr * h.sum(P, lambda j: h.at(W, j) * h.at(W, j)))
    out = h.must("forward", h.call(m.forward, x, y))
    if fast:
        want = h.must("ref", h.call(h.fn(FAST), x, P, st, W, scale, avg, y))
    else:
        want = h.must("ref", h.call(h.fn(SLOW), x, P, st, W, scale, avg))
    h.shape_eq("forward", out, h.shapeof(want))
    h.each("values", h.shapeof(want), lambda *q: h.same(h.at(out, *q), h.at(want, *q)))


@contract("C12", [MOD + ".__init__"], cases=[dict(why=w) for w in ("overlap", "window", "average")])
def module_refuses(h, why):
    sr, P = h.int("rate", 1, span=8), h.int("P", 3, span=9)
    fl = P / sr
    h.assume(h.same(h.trunc(fl * sr), P) if not h.sym else True)
    ov, avg, w = None, "mean", None
    if why == "overlap":
        ov = fl + h.real("extra", 0, 3)
    elif why == "average":
        avg = h.choice("avg", ["max", "Mean", ""])
    else:
        n = h.int("n", 1, span=16)
        h.assume(n != P)
        w = h.tensor("w", (n,))
    h.ok("refused", h.call(h.fn(MOD), sr, fl, ov, avg, w, False).raised(ValueError))


@contract("C12", [MOD + ".forward"], cases=[{}])
def slow_has_no_csd(h):
    m = h.must("construct", h.call(h.fn(MOD), 4, 2.0))
    x = h.tensor("x", (2, 8 + h.int("more", 0, span=9)))
    h.ok("refused", h.call(m.forward, x, x).raised(NotImplementedError))
