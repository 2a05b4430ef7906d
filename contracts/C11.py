"""C11: signal-to-noise ratios and rescaling to a target SNR."""
from dv.harness import contract

GW = "ml4gw.gw"
IS, NS, RW = f"{GW}:compute_ifo_snr", f"{GW}:compute_network_snr", f"{GW}:reweight_snrs"
SR = "ml4gw.transforms.snr_rescaler:SnrRescaler"
HIGH = ("none", "float", "mask")


def inputs(h, pnd, same=True, pow2=False):
    B, C = h.int("B", 1, span=3), h.int("C", 1, span=3)
    # (concrete runs at bin edges: sizes for which the bin frequencies are exact floats)
    n = h.int("n", 2, draw=lambda r: r.choice([2, 4, 8, 16, 32])) if pow2 else h.int(
        "n", 2, span=30)
    F = n // 2 + 1
    M = F
    if not same:
        M = h.int("M", 1, span=20)
        h.assume(M != F)
    x = h.tensor("x", (B, C, n))
    psd = h.tensor("psd", {1: (M,), 2: (C, M), 3: (B, C, M)}[pnd], pos=(0.1, 4))
    if pow2:
        sr = h.int("sample_rate", 1, draw=lambda r: r.choice([1, 2, 4, 16, 64]))
    else:
        sr = h.real("sample_rate", pos=(1, 64))
    if not same:
        p3 = psd
        while p3.ndim < 3:
            p3 = p3[None]
        p3 = h.torch.nn.functional.interpolate(p3, size=(F,), mode="linear")
        P = (lambda b, c, k: h.at(p3, b if pnd == 3 else 0, c if pnd > 1 else 0, k))
    else:
        P = {1: lambda b, c, k: h.at(psd, k), 2: lambda b, c, k: h.at(psd, c, k),
             3: lambda b, c, k: h.at(psd, b, c, k)}[pnd]
    return B, C, n, F, x, psd, sr, P


def limits(h, hi, lo, n, F, sr):
    """arguments for the pass band and the weight (0 or 1) of frequency bin k"""
    fs, args = [], []
    for kind, nm in ((hi, "highpass"), (lo, "lowpass")):
        if kind == "none":
            args.append(None)
        elif kind in ("float", "edge"):
            # a frequency strictly between two bins, or at a bin
            fr = h.real(nm + "_fr", 0.05, 0.95) if kind == "float" else 0
            v = (h.int(nm, 0, span=14) + fr) * sr / n
            args.append(v)
            fs.append((lambda k, v=v: k * sr / n >= v) if nm == "highpass" else
                      (lambda k, v=v: k * sr / n < v))
        else:
            m = h.tensor(nm, (F,), dtype=h.torch.bool)
            args.append(m)
            fs.append(lambda k, m=m: h.at(m, k))
    return args, lambda k: h.and_(True, *[f(k) for f in fs])


def snr2(h, x, P, n, F, sr, keep):
    """b, c -> squared SNR"""
    X = h.torch.fft.rfft(x)
    pw = X.real ** 2 + X.imag ** 2

    def one(b, c):
        return 4 * (sr / n) * h.sum(F, lambda k: h.ite(
            keep(k), lambda: h.div(h.at(pw, b, c, k), sr * sr * P(b, c, k)), lambda: 0))

    return one


@contract("C11", [IS], cases=[dict(pnd=p, hi=a, lo=b) for p in (1, 2, 3) for a in HIGH
                              for b in HIGH if p == 2 or (a == b)] + [
                                  dict(pnd=2, hi=a, lo=b) for a, b in (
                                      ("edge", "none"), ("none", "edge"), ("edge", "edge"))],
          tol=dict(rtol=1e-4, atol=1e-6))
def ifo_snr(h, pnd, hi, lo):
    """squared SNR = 4 df sum over the pass band of |rfft(x)/rate|^2 / psd"""
    B, C, n, F, x, psd, sr, P = inputs(h, pnd, pow2="edge" in (hi, lo))
    (a, b), keep = limits(h, hi, lo, n, F, sr)
    fr = [h.freeze(t) for t in (x, psd)] + [h.freeze(t) for t, k in ((a, hi), (b, lo)) if k == "mask"]
    y = h.must("snr", h.call(h.fn(IS), x, psd, sr, a, b))
    h.shape_eq("snr", y, (B, C))
    S = snr2(h, x, P, n, F, sr, keep)
    h.each("snr value", (B, C), lambda i, c: h.same(h.at(y, i, c), h.sqrt(S(i, c))))
    for f in fr:
        h.frame("argument", f)


@contract("C11", [IS], cases=[dict(pnd=p) for p in (1, 2, 3)])
def ifo_snr_resampled(h, pnd):
    """a PSD of another length is interpolated linearly along frequency first"""
    B, C, n, F, x, psd, sr, P = inputs(h, pnd, same=False)
    fr = [h.freeze(t) for t in (x, psd)]
    y = h.must("snr", h.call(h.fn(IS), x, psd, sr))
    S = snr2(h, x, P, n, F, sr, lambda k: True)
    h.each("snr value", (B, C), lambda i, c: h.same(h.at(y, i, c), h.sqrt(S(i, c))))
    for f in fr:
        h.frame("argument", f)


@contract("C11", [IS], cases=[dict(which=w) for w in ("highpass", "lowpass")])
def wrong_mask(h, which):
    """a mask that does not fit the spectrum is refused"""
    B, C, n, F, x, psd, sr, P = inputs(h, 2)
    L = h.int("L", 1, span=20)
    h.assume(L != F)
    m = h.tensor("mask", (L,), dtype=h.torch.bool)
    h.ok("refused", h.call(h.fn(IS), x, psd, sr, **{which: m}).raised(ValueError))


@contract("C11", [NS, IS], cases=[dict(pnd=p, hi=a, lo=b) for p in (1, 2, 3) for a, b in (
    ("none", "none"), ("float", "mask"), ("mask", "float"))], tol=dict(rtol=1e-4, atol=1e-6))
def network_snr(h, pnd, hi, lo):
    """root of the sum of squared interferometer SNRs"""
    B, C, n, F, x, psd, sr, P = inputs(h, pnd)
    (a, b), keep = limits(h, hi, lo, n, F, sr)
    s = h.must("ifo", h.call(h.fn(IS), x, psd, sr, a, b))
    y = h.must("network", h.call(h.fn(NS), x, psd, sr, a, b))
    h.shape_eq("network", y, (B,))
    h.each("network snr", (B,), lambda i: h.same(h.at(y, i), h.sqrt(h.sum(
        C, lambda c: h.at(s, i, c) * h.at(s, i, c)))))


@contract("C11", [RW, NS, IS], cases=[dict(pnd=p, hi=a, target=t) for p in (1, 2, 3)
                                      for a in ("none", "mask") for t in ("float", "tensor")],
          tol=dict(rtol=1e-3, atol=1e-6))
def reweight(h, pnd, hi, target):
    """every waveform is scaled by target / its network SNR (one factor for all
    interferometers), so that its network SNR becomes the target"""
    B, C, n, F, x, psd, sr, P = inputs(h, pnd)
    (a, b), keep = limits(h, hi, "none", n, F, sr)
    t = h.real("target", pos=(0.1, 50)) if target == "float" else h.tensor("targets", (B,), pos=(0.1, 50))
    T = (lambda i: t) if target == "float" else (lambda i: h.at(t, i))
    s = h.must("snr", h.call(h.fn(NS), x, psd, sr, a, b))
    h.assume_all((B,), lambda i: h.at(s, i) > (0 if h.sym else 1e-3))
    fx = h.freeze(x)
    y = h.must("reweight", h.call(h.fn(RW), x, t, psd, sr, a, b))
    h.shape_eq("responses", y, (B, C, n))
    h.each("scaled response", (B, C, n), lambda i, c, k: h.same(
        h.at(y, i, c, k), h.div(h.at(x, i, c, k) * T(i), h.at(s, i))))
    s2 = h.must("snr after", h.call(h.fn(NS), y, psd, sr, a, b))
    h.each("snr of the result is the target", (B,), lambda i: h.same(h.at(s2, i), T(i)))
    h.frame("responses", fx)


@contract("C11", [SR + ".__init__", SR + ".forward", NS, IS],
          cases=[dict(hi=a, lo=b, given=g) for a in ("none", "float") for b in ("none", "float")
                 for g in (1, 0)] + [dict(hi="edge", lo="edge", given=1)], tol=dict(rtol=1e-3, atol=1e-6))
def rescaler(h, hi, lo, given):
    """the fitted module rescales to the given targets, or to a random permutation of the
    batch's own SNRs, returning the targets it used"""
    B, C = h.int("B", 1, span=3), h.int("C", 1, span=3)
    if hi == "edge":
        n = h.int("n", 2, draw=lambda r: r.choice([4, 8, 16]))
        sr = h.int("rate", 1, draw=lambda r: r.choice([1, 2, 8]))
    else:
        n, sr = h.int("n", 2, span=24), h.int("rate", 1, span=16)
    F = n // 2 + 1
    lim = []
    for k, nm in ((hi, "highpass"), (lo, "lowpass")):
        lim.append(None if k == "none" else (h.int(nm, 0, span=12) + (
            0 if k == "edge" else h.real(nm + "_f", 0.05, 0.95))) * sr / n)
    dur = n / sr
    h.assume(h.same(h.trunc(dur * sr), n))
    m = h.must("construct", h.call(h.fn(SR), C, sr, dur, lim[0], lim[1]))
    h.shape_eq("background", m.background, (C, F))
    psd = h.tensor("psd", (C, F), pos=(0.1, 4), dtype=h.torch.float32)
    m.background.copy_(psd)
    m.built = True
    x = h.tensor("x", (B, C, n))
    s = h.must("snr", h.call(h.fn(NS), x, psd, sr, lim[0], lim[1]))
    h.assume_all((B,), lambda i: h.at(s, i) > (0 if h.sym else 1e-3))
    t = h.tensor("targets", (B,), pos=(0.1, 50)) if given else None
    fx = h.freeze(x)
    y, used = h.must("forward", h.call(m, x, t))
    h.shape_eq("responses", y, (B, C, n))
    h.shape_eq("targets", used, (B,))
    if given:
        h.each("targets returned", (B,), lambda i: h.same(h.at(used, i), h.at(t, i)))
    elif h.sym:
        p = h.perm("targets", B)
        h.each("targets are the permuted SNRs", (B,), lambda i: h.same(
            h.at(used, i), h.at(s, h.at(p, i))))
    else:
        h.ok("targets are the SNRs in another order", bool(
            (h.torch.sort(used)[0] - h.torch.sort(s)[0]).abs().max() < 1e-4 * s.max()))
    h.each("scaled response", (B, C, n), lambda i, c, k: h.same(
        h.at(y, i, c, k), h.div(h.at(x, i, c, k) * h.at(used, i), h.at(s, i))))
    h.frame("responses", fx)
