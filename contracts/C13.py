"""C13: whitening."""
from dv.harness import contract

SP = "ml4gw.spectral"
TR, NB, WH = (f"{SP}:{n}" for n in ("truncate_inverse_power_spectrum", "normalize_by_psd", "whiten"))
WM, FW = "ml4gw.transforms.whitening:Whiten", "ml4gw.transforms.whitening:FixedWhiten"
FT = "ml4gw.transforms.transform:FittableSpectralTransform.normalize_psd"


def bins(h, K, sr, hi, lo):
    """pass band arguments (None or a frequency), and the first kept and first dropped bin"""
    N = 2 * (K - 1)
    a = b = None
    i0, i1 = 0, K
    if hi:
        i0 = h.int("i0", 0, span=12)
        a = (i0 + h.real("f0", 0.05, 0.95)) * sr / N
    if lo:
        i1 = h.int("i1", 0, span=12)
        b = (i1 + h.real("f1", 0.05, 0.95)) * sr / N
    return a, b, i0, i1


def truncated(h, P, lead, K, w, W, pad, i0, i1):
    """inverse PSD of the filter with impulse response tapered to 2 pad samples"""
    N = 2 * (K - 1)

    def keep(k):
        c = h.and_(k >= i0, k < i1)
        return h.and_(c, k < K - 1) if bool(K % 2 == 1) else c

    inv = h.tab(lead + (K,), lambda *q: h.ite(
        keep(q[-1]), lambda: 1 / h.sqrt(P(*q)), lambda: 0), dtype=h.torch.float64)
    t = h.torch.fft.irfft(inv, n=N, norm="forward")
    u = h.tab(lead + (N,), lambda *q: h.at(t, *q) * h.ite(
        q[-1] < pad, lambda: h.at(w, W - pad + q[-1]), lambda: h.ite(
            q[-1] >= N - pad, lambda: h.at(w, q[-1] - (N - pad)), lambda: 0)))
    g = h.torch.fft.rfft(u, norm="forward")

    def gain2(*q):
        z = h.at(g, *q)
        return z.real * z.real + z.imag * z.imag
    return gain2


def window(h, kind, sr, N):
    """a given window, or a duration for a Hann window; with 0 < 2 pad <= N"""
    if kind == "window":
        W = h.int("W", 2, span=8)
        pad = W // 2
        w = h.tensor("window", (W,))
        arg = w
    else:
        pad = h.int("pad", 1, span=4)
        arg = (2 * pad + h.real("fr", 0.1, 0.9)) / sr
        W = 2 * pad
        w = h.torch.hann_window(W, dtype=h.torch.float64)
    h.assume(2 * pad <= N)
    return arg, w, W, pad


CASES = [dict(hi=a, lo=b, kind=k, par=p) for a in (0, 1) for b in (0, 1)
         for k in ("window", "duration") for p in (0, 1) if k == "window" or a == b]


@contract("C13", [TR], cases=CASES, tol=dict(rtol=1e-4, atol=1e-9))
def truncation(h, hi, lo, kind, par):
    """the inverse spectrum, cut to the pass band, gets an impulse response tapered by the
    window and zero beyond it; the returned density is half the inverse squared response"""
    B, C = h.int("B", 1, span=2), h.int("C", 1, span=2)
    K = 2 * h.int("halfK", 2, span=6) + par
    N = 2 * (K - 1)
    sr = h.real("rate", pos=(1, 64))
    arg, w, W, pad = window(h, kind, sr, N)
    a, b, i0, i1 = bins(h, K, sr, hi, lo)
    p = h.tensor("psd", (B, C, K), pos=(0.3, 4))
    fr = [h.freeze(p)] + ([h.freeze(w)] if kind == "window" else [])
    y = h.must("truncate", h.call(h.fn(TR), p, arg, sr, a, b))
    h.shape_eq("psd", y, (B, C, K))
    g = truncated(h, lambda *q: h.at(p, *q), (B, C), K, w, W, pad, i0, i1)
    if h.sym:
        h.each("density", (B, C, K), lambda *q: h.same(
            h.at(y, *q), h.div(1, g(*q)) / 2))
    else:
        # inverse: bins may be (nearly) blocked completely
        h.each("density", (B, C, K), lambda *q: h.same(
            1 / h.at(y, *q), 2 * g(*q)))
    for f, n in zip(fr, ("psd", "window")):
        h.frame(n, f)


@contract("C13", [NB], cases=[dict(nd=n, crop=c, par=p) for n in (2, 3) for c in (0, 1) for p in (0, 1)],
          tol=dict(rtol=1e-4, atol=1e-5))
def filtering(h, nd, crop, par):
    """the mean-free series filtered by psd^-1/2, over the root of the rate, with pad
    samples cut from both ends on demand"""
    B, C = h.int("B", 1, span=2), h.int("C", 1, span=2)
    N = 2 * h.int("half", 2, span=8) + par
    K = N // 2 + 1
    pad = h.int("pad", 1, span=6)
    h.assume(2 * pad < N)
    sr = h.real("rate", pos=(1, 64))
    x = h.tensor("x", (B, C, N))
    p = h.tensor("psd", (C, K) if nd == 2 else (B, C, K), pos=(0.3, 4))
    fr = [h.freeze(t) for t in (x, p)]
    y = h.must("filter", h.call(h.fn(NB), x, p, sr, pad, bool(crop)))
    M = N - 2 * pad if crop else N
    h.shape_eq("output", y, (B, C, M))
    m = h.tab((B, C, N), lambda b, c, t: h.at(x, b, c, t) - h.sum(
        N, lambda j: h.at(x, b, c, j)) / N)
    X = h.torch.fft.rfft(m)
    P = (lambda b, c, k: h.at(p, c, k)) if nd == 2 else (lambda b, c, k: h.at(p, b, c, k))
    Y = h.tab((B, C, K), lambda b, c, k: h.div(h.at(X, b, c, k), h.sqrt(P(b, c, k))),
              dtype=h.torch.complex128)
    z = h.torch.fft.irfft(Y, n=N)
    o = pad if crop else 0
    h.each("samples", (B, C, M), lambda b, c, t: h.same(
        h.at(y, b, c, t), h.at(z, b, c, t + o) / h.sqrt(sr)))
    for f, n in zip(fr, ("series", "psd")):
        h.frame(n, f)


@contract("C13", [WH, TR, NB], cases=[dict(nd=n, kind=k, hi=a, crop=c, same=s) for n in (1, 2, 3)
                                      for k in ("window", "duration") for a in (0, 1) for c in (0, 1)
                                      for s in (0, 1) if (a == c or n == 2)],
          tol=dict(rtol=1e-3, atol=1e-4))
def whitening(h, nd, kind, hi, crop, same):
    """whitening = resampling the density to the bins of the series, truncation, filtering,
    and cropping half the filter duration from both ends"""
    B, C = h.int("B", 1, span=2), h.int("C", 1, span=2)
    N = h.int("N", 4, span=20)
    K = N // 2 + 1
    sr = h.real("rate", pos=(1, 64))
    arg, w, W, pad = window(h, kind, sr, 2 * (K - 1))
    h.assume(2 * pad < N)
    a, b, i0, i1 = bins(h, K, sr, hi, hi)
    M = K if same else h.int("M", 1, span=20)
    if not same:
        h.assume(M != K)
    lead = {1: (), 2: (C,), 3: (B, C)}[nd]
    x = h.tensor("x", (B, C, N))
    p = h.tensor("psd", lead + (M,), pos=(0.3, 4))
    fr = [h.freeze(t) for t in (x, p)] + ([h.freeze(w)] if kind == "window" else [])
    y = h.must("whiten", h.call(h.fn(WH), x, p, arg, sr, a, b, bool(crop)))
    p3 = p
    for _ in range(3 - nd):
        p3 = p3[None]
    if not same:
        p3 = h.torch.nn.functional.interpolate(p3, size=(K,), mode="linear")
    q = h.must("truncate", h.call(h.fn(TR), p3, arg, sr, a, b))
    z = h.must("filter", h.call(h.fn(NB), x, q, sr, pad, bool(crop)))
    L = N - 2 * pad if crop else N
    h.shape_eq("output", y, (B, C, L))
    h.each("samples", (B, C, L), lambda *i: h.same(h.at(y, *i), h.at(z, *i)))
    for f, n in zip(fr, ("series", "psd", "window")):
        h.frame(n, f)


@contract("C13", [WH], cases=[dict(kind=k) for k in ("window", "duration")])
def refuses_short(h, kind):
    """a series not longer than the filter is refused"""
    pad, N = h.int("pad", 1, span=6), h.int("N", 2, span=12)
    h.assume(N <= 2 * pad)
    sr = h.int("rate", 1, span=9)
    arg = h.tensor("w", (2 * pad + h.int("odd", 0, 1),)) if kind == "window" else \
        (2 * pad + h.real("fr", 0.1, 0.9)) / sr
    x = h.tensor("x", (1, 2, N))
    out = h.call(h.fn(WH), x, h.tensor("p", (N // 2 + 1,), pos=(0.3, 4)), arg, sr)
    h.ok("refused", out.raised(ValueError))


@contract("C13", [WM + ".__init__", WM + ".forward", WH],
          cases=[dict(hi=a, lo=b, crop=c) for a in (0, 1) for b in (0, 1) for c in (0, 1)],
          tol=dict(rtol=1e-3, atol=1e-4))
def module(h, hi, lo, crop):
    """the module whitens with a Hann window of the filter duration and its pass band"""
    W = h.int("W", 2, span=8)
    sr = h.int("rate", 1, span=9)
    fd = (W + h.real("fr", 0.1, 0.9)) / sr
    N = W + 2 + h.int("more", 0, span=12)
    h.assume(W // 2 * 2 <= 2 * (N // 2))
    a, b, i0, i1 = bins(h, N // 2 + 1, sr, hi, lo)
    m = h.must("construct", h.call(h.fn(WM), fd, sr, a, b))
    B, C = h.int("B", 1, span=2), h.int("C", 1, span=2)
    x, p = h.tensor("x", (B, C, N)), h.tensor("psd", (C, N // 2 + 1), pos=(0.3, 4))
    y = h.must("forward", h.call(m.forward, x, p, bool(crop)))
    w = h.torch.hann_window(W, dtype=h.torch.float64)
    z = h.must("whiten", h.call(h.fn(WH), x, p, w, sr, a, b, bool(crop)))
    L = N - 2 * (W // 2) if crop else N
    h.shape_eq("output", y, (B, C, L))
    h.each("samples", (B, C, L), lambda *i: h.same(h.at(y, *i), h.at(z, *i)))


@contract("C13", [FW + ".__init__", FW + ".fit", FW + ".forward", FT, TR, NB],
          cases=[dict(C=c, hi=a, crop=k) for c in (1, 2) for a in (0, 1) for k in (0, 1)] +
          [dict(C=3, hi=0, crop=1)], budget=400, tol=dict(rtol=1e-3, atol=1e-4))
def fitted(h, C, hi, crop):
    """the fitted transform whitens channel c by its own background density, truncated for
    the fit duration, and cuts half that duration from both ends"""
    sr = h.int("rate", 1, draw=lambda r: r.choice([1, 2, 5, 8, 10, 100, 1000]))
    N = h.int("N", 4, span=20)
    K = N // 2 + 1
    kl = N / sr
    h.assume(h.same(h.trunc(kl * sr), N) if not h.sym else True)
    pad = h.int("pad", 1, span=8)
    h.assume(2 * pad < N)
    # (concretely: durations that are whole numbers of samples, so that a rounding of the
    # stored duration shows)
    fd = 2 * pad / sr
    h.assume(h.trunc(fd * sr / 2) == pad if not h.sym else True)
    a, b, i0, i1 = bins(h, K, sr, hi, hi)
    m = h.must("construct", h.call(h.fn(FW), C, kl, sr))
    M = K + h.int("more", 0, span=3)
    ps = [h.tensor(f"psd{c}", (M,), pos=(0.3, 4)) for c in range(C)]
    fr = [h.freeze(p) for p in ps]
    h.must("fit", h.call(m.fit, fd, *ps, highpass=a, lowpass=b))
    x = h.tensor("x", (h.int("B", 1, span=2), C, N))
    y = h.must("forward", h.call(m, x, bool(crop)))
    B = h.shapeof(x)[0]
    L = N - 2 * pad if crop else N
    h.shape_eq("output", y, (B, C, L))
    for c in range(C):
        n = h.must("normalize", h.call(m.normalize_psd, ps[c], sr, K, None, None))
        q = h.must("truncate", h.call(h.fn(TR), n[None][None], fd, sr, a, b))
        z = h.must("filter", h.call(h.fn(NB), x[:, c:c + 1], q, sr, pad, bool(crop)))
        h.each(f"channel {c}", (B, L), lambda i, t: h.same(h.at(y, i, c, t), h.at(z, i, 0, t)))
    for f in fr:
        h.frame("background", f)


@contract("C13", [FW + ".forward", FW + ".fit"], cases=[dict(why=w) for w in ("length", "channels")])
def fitted_refuses(h, why):
    """another kernel length, or another number of backgrounds, is refused"""
    sr, N = 4, 8
    m = h.must("construct", h.call(h.fn(FW), 2, N / sr, sr))
    p = h.tensor("p", (5,), pos=(0.3, 4))
    if why == "channels":
        n = h.choice("n", [0, 1, 3])
        h.ok("refused", h.call(m.fit, 1.0, *[p] * n).raised(ValueError))
        return
    h.must("fit", h.call(m.fit, 1.0, p, p))
    L = h.int("L", 1, span=14)
    h.assume(L != N)
    h.ok("refused", h.call(m, h.tensor("x", (1, 2, L))).raised(ValueError))


@contract("C13", [WH, WM + ".forward"], cases=[dict(kind=k) for k in ("float", "module")],
          bounded="random flat densities and series of up to 200 samples, Hann durations of an "
                  "even number of samples",
          tol=dict(rtol=1e-3, atol=1e-4))
def flat(h, kind):
    """normalisation: for the density 2 s^2 / rate of white noise of variance s^2, whitening
    divides the mean-free series (without its Nyquist component) by s"""
    sr = h.int("rate", 1, span=60)
    s = h.real("s", 0.2, 5)
    half = h.int("half", 8, span=80)
    N, pad = 2 * half, h.int("pad", 1, span=6)
    x = h.tensor("x", (2, 2, N))
    p = h.torch.full((2, half + 1), 2 * s * s / sr, dtype=h.torch.float64)
    fd = (2 * pad + 0.01) / sr
    f = h.fn(WH) if kind == "float" else h.fn(WM)(fd, sr)
    args = (x, p, fd, sr) if kind == "float" else (x, p)
    y = h.must("whiten", h.call(f, *args))
    X = h.torch.fft.rfft(x - x.mean(-1, keepdim=True))
    # the notch at the Nyquist bin (odd number of bins) spreads with the taper: allow for it
    z = h.torch.fft.irfft(X, n=N)[..., pad:-pad] / s
    h.shape_eq("output", y, (2, 2, N - 2 * pad))
    if (half + 1) % 2:
        return
    h.teq("flat", y, z)
