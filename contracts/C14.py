"""C14: transforms that are fit to data before use."""
from dv.harness import contract

T = "ml4gw.transforms"
FB, FS = f"{T}.transform:FittableTransform", f"{T}.transform:FittableSpectralTransform"
SC, SR, FW = (f"{T}.scaler:ChannelWiseScaler", f"{T}.snr_rescaler:SnrRescaler",
              f"{T}.whitening:FixedWhiten")
SLOW = "ml4gw.spectral:spectral_density"
TR = "ml4gw.spectral:truncate_inverse_power_spectrum"


@contract("C14", [SC + ".__init__", SC + ".fit", SC + ".forward"],
          cases=[dict(nd=n, reg=r, xd=x) for n in (1, 2) for r in (0, 1) for x in (0, 1)],
          tol=dict(rtol=1e-3, atol=1e-4))
def scaler(h, nd, reg, xd):
    """channel c is shifted by its mean and divided by its (population) deviation plus the
    regularisation, and reversing restores the data"""
    C, N = h.int("C", 1, span=3), h.int("N", 2, span=9)
    m = h.must("construct", h.call(h.fn(SC), *([C] if nd == 2 else [])))
    X = h.tensor("X", (C, N) if nd == 2 else (N,))
    fX = h.freeze(X)
    eps = h.real("reg", pos=(0.1, 2)) if reg else 0.0
    h.must("fit", h.call(m.fit, X, *([eps] if reg else [])))
    g = (lambda c, t: h.at(X, c, t)) if nd == 2 else (lambda c, t: h.at(X, t))
    mu = lambda c: h.sum(N, lambda t: g(c, t)) / N
    sd = lambda c: h.sqrt(h.sum(N, lambda t: (g(c, t) - mu(c)) * (g(c, t) - mu(c))) / N) + eps
    n = C if nd == 2 else 1
    at = (lambda b, c: h.at(b, c, 0)) if nd == 2 else (lambda b, c: h.at(b, c))
    h.shape_eq("mean", m.mean, (C, 1) if nd == 2 else (1,))
    h.shape_eq("std", m.std, (C, 1) if nd == 2 else (1,))
    h.each("mean", (n,), lambda c: h.same(at(m.mean, c), mu(c)))
    h.each("std", (n,), lambda c: h.same(at(m.std, c), sd(c)))
    L = h.int("L", 1, span=9)
    lead = (h.int("B", 1, span=3),) if xd else ()
    shape = lead + ((C, L) if nd == 2 else (L,))
    x = h.tensor("x", shape)
    fx = h.freeze(x)
    h.assume_all((n,), lambda c: at(m.std, c) > (0 if h.sym else 1e-3))
    y = h.must("forward", h.call(m, x))
    z = h.must("reverse", h.call(m, x, reverse=True))
    h.shape_eq("forward", y, shape)
    h.shape_eq("reverse", z, shape)
    ch = (lambda q: q[-2]) if nd == 2 else (lambda q: 0)
    h.each("scaled", shape, lambda *q: h.same(
        h.at(y, *q), h.div(h.at(x, *q) - at(m.mean, ch(q)), at(m.std, ch(q)))))
    h.each("unscaled", shape, lambda *q: h.same(
        h.at(z, *q), h.at(x, *q) * at(m.std, ch(q)) + at(m.mean, ch(q))))
    w = h.must("round trip", h.call(m, y, reverse=True))
    h.each("restored", shape, lambda *q: h.same(h.at(w, *q), h.at(x, *q)))
    h.frame("fitted data", fX)
    h.frame("data", fx)


@contract("C14", [SC + ".fit"], cases=[dict(nd=n, bad=b) for n in (1, 2) for b in (
    "rank3", "rank0", "rank", "channels") if (n, b) != (1, "channels")])
def scaler_refuses(h, nd, bad):
    """data of another rank or number of channels is refused, leaving the scaler unfit"""
    C, N = h.int("C", 1, span=3), h.int("N", 2, span=9)
    m = h.must("construct", h.call(h.fn(SC), *([C] if nd == 2 else [])))
    D = h.int("D", 1, span=4)
    if bad == "channels":
        h.assume(D != C)
    shape = {"rank3": (1, C, N), "rank0": (), "rank": (N,) if nd == 2 else (1, N),
             "channels": (D, N)}[bad]
    out = h.call(m.fit, h.tensor("X", shape))
    h.ok("refused", out.raised(ValueError, AssertionError))
    h.ok("not fit", not m.built)
    h.ok("not usable", h.call(m, h.tensor("x", (C, N))).raised(ValueError))


def make(h, kind, C, N, sr):
    """a fittable transform for kernels of N samples at rate sr"""
    if kind == "scaler":
        return h.must("construct", h.call(h.fn(SC), C))
    if kind == "rescaler":
        return h.must("construct", h.call(h.fn(SR), C, sr, N / sr))
    return h.must("construct", h.call(h.fn(FW), C, N / sr, sr))


def data(h, kind, C, N, nm):
    if kind == "scaler":
        return [h.tensor(nm, (C, N + 3))]
    return [h.tensor(f"{nm}{c}", (N // 2 + 1,), pos=(0.3, 4)) for c in range(C)]


def fit(h, kind, m, ps, sr, pad):
    return h.call(m.fit, *([2 * pad / sr] if kind == "whitener" else []), *ps)


KINDS = ("scaler", "rescaler", "whitener")


@contract("C14", [FB + ".__call__", FB + "._check_built", FB + ".build",
                  FB + "._load_from_state_dict", SC + ".__init__", SR + ".__init__", FW + ".__init__"],
          cases=[dict(kind=k, how=w) for k in KINDS for w in (
              "fit", "load", "missing", "shape", "refit")], tol=dict(rtol=1e-3, atol=1e-4))
def before_use(h, kind, how):
    """refused until fit to data or loaded from the complete state of a fitted one; loading
    the state reproduces the fitted transform"""
    C, N, sr, pad = 2, 8, 4, 1
    m = make(h, kind, C, N, sr)
    x = h.tensor("x", (h.int("B", 1, span=3), C, N))
    kw = dict(target_snrs=h.tensor("t", (h.shapeof(x)[0],), pos=(1, 3))) if kind == "rescaler" else {}
    h.ok("refused before fit", h.call(m, x, **kw).raised(ValueError))
    f = m
    if how not in ("fit", "refit"):
        f = make(h, kind, C, N, sr)
    ps = data(h, kind, C, N, "data")
    h.must("fit", fit(h, kind, f, ps, sr, pad))
    h.ok("fitted", bool(f.built))
    if how == "refit":
        # what is kept is the last fit
        o = make(h, kind, C, N, sr)
        h.must("other fit", fit(h, kind, o, data(h, kind, C, N, "more"), sr, pad + 1))
        h.must("first fit", fit(h, kind, o, data(h, kind, C, N, "other"), sr, pad + 1))
        h.must("last fit", fit(h, kind, o, ps, sr, pad))
        f = o
    sd = f.state_dict()
    if how == "missing":
        sd = {k: v for k, v in list(sd.items())[1:]}
    elif how == "shape":
        k0 = list(sd)[0]
        sd = {k: (h.torch.zeros((7, 7)) if k == k0 else v) for k, v in sd.items()}
    if how in ("load", "missing", "shape"):
        out = h.call(m.load_state_dict, sd)
        if how != "load":
            h.ok("bad state refused", out.raised(RuntimeError))
            h.ok("still refused", h.call(m, x, **kw).raised(ValueError))
            return
        h.must("load", out)
    if kind == "rescaler":
        s = h.must("snr", h.call(h.fn("ml4gw.gw:compute_network_snr"), x, m.background, sr))
        h.assume_all((h.shapeof(x)[0],), lambda i: h.at(s, i) > (0 if h.sym else 1e-3))
    elif kind == "scaler":
        h.assume_all((C,), lambda i: h.at(m.std, i, 0) > (0 if h.sym else 1e-3))
    a = h.must("use", h.call(m, x, **kw))
    b = h.must("use the fitted one", h.call(f, x, **kw))
    if kind == "rescaler":
        a, b = a[0], b[0]
    h.shape_eq("same shape", a, h.shapeof(b))
    h.each("same result", h.shapeof(b), lambda *q: h.same(h.at(a, *q), h.at(b, *q)))


@contract("C14", [FS + ".normalize_psd"], cases=[dict(fft=f, over=o, same=s) for f in (0, 1)
                                                for o in ("none", "zero", "some") for s in (0, 1)
                                                if f or o == "none"],
          tol=dict(rtol=1e-3, atol=1e-7))
def normalized(h, fft, over, same):
    """a given density, or the Welch estimate of a series (Hann window, density scale, the
    given overlap or half a segment), at the nearest of its bins"""
    sr = h.int("rate", 1, span=8)
    m = h.must("construct", h.call(h.fn(SR), 1, 4, 2.0))
    if fft:
        P = h.int("P", 3, span=9)
        fl = P / sr
        h.assume(h.same(h.trunc(fl * sr), P) if not h.sym else True)
        ov = {"none": None, "zero": h.choice("zero", [0, 0.0]), "some": None}[over]
        if over == "some":
            ov = h.real("overlap", 0, 8)
        o = fl / 2 if ov is None else ov
        h.assume(o < fl)
        no = h.trunc(o * sr)
        if not h.sym:
            h.assume(ov is None or over == "zero" or (
                abs(o * sr - no) > 1e-6 and abs(o * sr - no - 1) > 1e-6))
        L = P + h.int("more", 0, span=20)
        x = h.tensor("x", (L,))
        w = h.torch.hann_window(P, dtype=h.torch.float64)
        h.assume(h.sum(P, lambda j: h.at(w, j) * h.at(w, j)) > 0)
        scale = 1 / (sr * h.sum(P, lambda j: h.at(w, j) * h.at(w, j)))
        d = h.must("welch", h.call(h.fn(SLOW), x, P, P - no, w, scale))
        M = P // 2 + 1
        args = (fl,) + ((ov,) if over != "none" else ())
    else:
        M = h.int("M", 1, span=9)
        d = x = h.tensor("psd", (M,), pos=(0.3, 4))
        args = ()
    K = M if same else h.int("K", 1, span=12)
    fx = h.freeze(x)
    y = h.must("normalize", h.call(m.normalize_psd, x, sr, K, *args))
    h.shape_eq("density", y, (K,))
    h.each("bins", (K,), lambda k: h.same(h.at(y, k), h.at(d, k * M // K)))
    h.frame("input", fx)


@contract("C14", [SR + ".fit", FW + ".fit", FS + ".normalize_psd"],
          cases=[dict(kind=k, C=c, fft=f) for k in ("rescaler", "whitener") for c in (1, 2, 3)
                 for f in (0, 1, 2)], tol=dict(rtol=1e-3, atol=1e-6))
def fitting(h, kind, C, fft):
    """the density kept for channel c is that of background c (truncated, by the whitener)"""
    # (several truncated Welch estimates at once: at one size, to keep the case count down)
    fixed = kind == "whitener" and fft and C > 1
    sr = 4 if fixed else h.int("rate", 1, span=8)
    N = 8 if fixed else 2 * h.int("half", 2, span=8)
    K = N // 2 + 1
    h.assume(h.same(h.trunc((N / sr) * sr), N) if not h.sym else True)
    m = make(h, kind, C, N, sr)
    if fft:
        P = 6 if fixed else h.int("P", 3, span=9)
        fl = P / sr
        h.assume(h.same(h.trunc(fl * sr), P) if not h.sym else True)
        L = P + (7 if fixed else h.int("more", 2, span=20))
        kw = dict(fftlength=fl)
        if fft == 2:
            kw["overlap"] = h.choice("overlap", [0, 0.0])
    else:
        L = h.int("M", 1, span=12)
        kw = {}
    bg = [h.tensor(f"b{c}", (L,), pos=(0.3, 4)) for c in range(C)]
    frs = [h.freeze(b) for b in bg]
    pad = 1 if fixed else h.int("pad", 1, span=2)
    h.assume(2 * pad <= N)
    fd = 2 * pad / sr
    args = bg if kind == "rescaler" else [fd] + bg
    bad = h.choice("n", [0, C - 1, C + 1])
    few = ([bg[0]] * bad) if kind == "rescaler" else [fd] + [bg[0]] * bad
    h.ok("another number of backgrounds refused", h.call(m.fit, *few, **kw).raised(ValueError))
    h.must("fit", h.call(m.fit, *args, **kw))
    buf = m.background if kind == "rescaler" else m.psd
    h.shape_eq("background", buf, (C, K))
    for c in range(C):
        d = h.must("normalize", h.call(m.normalize_psd, bg[c], sr, K, *kw.values()))
        if kind == "whitener":
            d = h.must("truncate", h.call(h.fn(TR), d[None][None], fd, sr))[0, 0]
        h.each(f"density {c}", (K,), lambda k: h.same(
            *((h.at(buf, c, k), h.at(d, k)) if h.sym or kind == "rescaler" else
              (1 / h.at(buf, c, k), 1 / h.at(d, k)))))
    if kind == "whitener":
        h.ok("duration", h.same(h.at(m.fduration, 0), fd))
    for f in frs:
        h.frame("background", f)
