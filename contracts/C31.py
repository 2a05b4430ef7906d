"""C31: heterodyning by the leading-order inspiral phase."""
from dv.harness import contract

HT = "ml4gw.transforms.heterodyne:Heterodyne"
MTSUN = "ml4gw.constants:MTSUN_SI"


def setup(h, kind, odd=None):
    B, C, M = h.int("B", 1, span=2), h.int("C", 1, span=2), h.int("M", 1, span=3)
    T = h.int("T", 2, span=40)
    sr = h.int("rate", 1, span=64)
    dur = T / sr
    h.assume(h.same(h.trunc(dur * sr), T) if not h.sym else True)
    mc = h.tensor("mass", (M,), pos=(0.5, 60))
    m = h.must("construct", h.call(h.fn(HT), sr, dur, mc, kind))
    x = h.tensor("x", (B, C, T))
    return B, C, M, T, sr, mc, m, x


def spectrum(h, x, sr, mc, T, f):
    """the bins of x / rate, turned by 3/128 (pi Mc f)^(-5/3); nothing at zero frequency"""
    d = h.torch.fft.rfft(x)
    mt, p = h.fn(MTSUN), h.const("-5/3")
    h.ok("solar mass in seconds", abs(float(mt) - 4.92549095e-6) < 1e-13)

    def val(b, c, m, k):
        ph = h.const("3/128") * (h.torch.pi * (h.at(mc, m) * mt) * h.at(f, k)) ** p
        re, im = h.at(d.real, b, c, k) / sr, h.at(d.imag, b, c, k) / sr
        return (re * h.cos(ph) - im * h.sin(ph), re * h.sin(ph) + im * h.cos(ph))

    return val


@contract("C31", [HT + ".__init__", HT + "._heterodyning_phase", HT + ".forward"],
          cases=[dict(kind=k) for k in ("freq", "both", "time")], tol=dict(rtol=2e-3, atol=1e-4))
def heterodyne(h, kind):
    B, C, M, T, sr, mc, m, x = setup(h, kind)
    F = T // 2 + 1
    fx, fm = h.freeze(x), h.freeze(mc)
    y = h.must("forward", h.call(m, x))
    if kind == "both":
        h.ok("both", isinstance(y, tuple) and len(y) == 2)
        t, s = y
    else:
        t, s = (y, None) if kind == "time" else (None, y)
    f = h.torch.fft.rfftfreq(T, d=1 / sr)
    val = spectrum(h, x, sr, mc, T, f)
    if s is not None:
        h.shape_eq("spectrum", s, (B, C, M, F))
        h.each("no mean", (B, C, M), lambda b, c, j: h.and_(
            h.same(h.at(s.real, b, c, j, 0), 0), h.same(h.at(s.imag, b, c, j, 0), 0)))
        # the phase is computed in single precision: where it is large, only its size is
        # comparable in floating point
        if not h.sym:
            h.assume(float(f[1] * mc.min()) > 30)
        h.each("turned bins", (B, C, M, F - 1), lambda b, c, j, k: h.and_(
            h.same(h.at(s.real, b, c, j, k + 1), val(b, c, j, k + 1)[0]),
            h.same(h.at(s.imag, b, c, j, k + 1), val(b, c, j, k + 1)[1])))
    if t is not None:
        h.shape_eq("series", t, (B, C, M, T))
        if s is None:
            m.return_type = "freq"
            s = h.must("spectrum", h.call(m, x))
        w = h.torch.fft.irfft(s, n=T)
        h.each("series", (B, C, M, T), lambda *q: h.same(h.at(t, *q), h.at(w, *q) * sr))
    h.frame("input", fx)
    h.frame("chirp masses", fm)


@contract("C31", [HT + ".__init__"], cases=[{}])
def refuses(h):
    """any other kind of output"""
    k = h.choice("kind", ["", "Time", "frequency", None])
    h.ok("refused", h.call(h.fn(HT), 16, 1.0, h.tensor("mass", (2,), lo=1, hi=30), k).raised(
        ValueError))
