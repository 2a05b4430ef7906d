"""C21: sine-Gaussian and ringdown waveforms."""
import math

import torch

from dv.harness import contract

SG = "ml4gw.waveforms.adhoc.sine_gaussian:SineGaussian"
RD = "ml4gw.waveforms.adhoc.ringdown:Ringdown"
K = "ml4gw.constants:"


def size(h):
    """duration and rate of a whole number of samples"""
    T, sr = h.int("T", 1, span=40), h.int("rate", 1, span=64)
    dur = T / sr
    h.assume(h.same(h.trunc(dur * sr), T) if not h.sym else True)
    return T, sr, dur


@contract("C21", [SG + ".__init__", SG + ".forward",
                  "ml4gw.waveforms.adhoc.sine_gaussian:semi_major_minor_from_e"],
          cases=[dict(wide=w) for w in (False, True)], tol=dict(rtol=1e-3, atol=1e-6))
def sine_gaussian(h, wide):
    """h+ = h0+ exp(-(w t)^2/2Q^2) cos(w t - phase), hx likewise with sin, w = 2 pi f, t counted
    from the middle of the window; amplitudes shared by the eccentricity with a^2 + b^2 = 1"""
    T, sr, dur = size(h)
    B = h.int("B", 1, span=3)
    dt = h.torch.float64 if wide else h.torch.float32
    t = lambda n, a, b, **k: h.tensor(n, (B,), dtype=dt, **k)
    Q, f, hrss = (h.tensor(n, (B,), dtype=dt, pos=r) for n, r in (
        ("quality", (1, 20)), ("frequency", (5, 60)), ("hrss", (0.1, 3))))
    ph = h.tensor("phase", (B,), dtype=dt, any=(0, 6.28))
    e = h.tensor("ecc", (B,), dtype=dt, lo=0, hi=0.999)
    fr = [h.freeze(v) for v in (Q, f, hrss, ph, e)]
    m = h.must("construct", h.call(h.fn(SG), sr, dur))
    out = h.must("forward", h.call(m, Q, f, hrss, ph, e))
    h.ok("two polarizations", isinstance(out, tuple) and len(out) == 2)
    cross, plus = out
    pi = h.torch.pi
    for n, y in (("cross", cross), ("plus", plus)):
        h.shape_eq(n, y, (B, T))
        h.ok(n + " type", y.dtype == dt)
    if not h.sym:
        h.assume(float((f * dur / 2).max()) < 40)

    def val(b, k, first, second, a, trig):
        q = h.at(Q, b)
        n = h.div(q, 4 * h.at(f, b) * h.sqrt(pi))
        g = h.exp(-q * q)
        c, s = h.cos(h.at(ph, b)) ** 2, h.sin(h.at(ph, b)) ** 2
        lo, hi = n * (1 - g), n * (1 + g)
        amp = h.div(h.at(hrss, b) * a, h.sqrt(
            (hi if first else lo) * c + (lo if first else hi) * s))
        w = 2 * pi * h.at(f, b) * (k / sr - dur / 2)
        return amp * h.exp(h.div(w ** 2, -2 * q ** 2)) * trig(w - h.at(ph, b))

    def major(b):
        return h.div(1, h.sqrt(2 - h.at(e, b) ** 2))

    def minor(b):
        return major(b) * h.sqrt(1 - h.at(e, b) ** 2)

    h.each("plus", (B, T), lambda b, k: h.same(
        h.at(plus, b, k), val(b, k, True, None, major(b), h.cos)))
    h.each("cross", (B, T), lambda b, k: h.same(
        h.at(cross, b, k), val(b, k, False, None, minor(b), h.sin)))
    for v in fr:
        h.frame("parameters", v)


@contract("C21", [RD + ".__init__", RD + ".forward"], tol=dict(rtol=1e-3, atol=1e-24))
def ringdown(h):
    """h+ = A/r (1+cos^2 i) exp(-pi f t/Q) cos(2 pi f t + phase), hx = A/r 2 cos i ... sin, for
    the mass and spin of the black hole ringing at f with Q and the amplitude radiating the
    fraction epsilon of the mass"""
    T, sr, dur = size(h)
    B = h.int("B", 1, span=3)
    D = h.torch.float64
    pos = lambda n, *r: h.tensor(n, (B,), dtype=D, pos=r)
    f, Q, eps, dist = pos("frequency", 50, 400), pos("quality", 2.1, 20), pos(
        "epsilon", 0.001, 0.05), pos("distance", 100, 200)
    ph = h.tensor("phase", (B,), dtype=D, any=(0, 6.28))
    inc = h.tensor("inclination", (B,), dtype=D, any=(0.3, 1.2))
    h.assume_all((B,), lambda b: h.at(Q, b) > 2)
    fr = [h.freeze(v) for v in (f, Q, eps, ph, inc, dist)]
    m = h.must("construct", h.call(h.fn(RD), sr, dur))
    out = h.must("forward", h.call(m, f, Q, eps, ph, inc, dist))
    h.ok("two polarizations", isinstance(out, tuple) and len(out) == 2)
    cross, plus = out
    pi, c, G, mpc = (h.fn(K + n) for n in ("PI", "C", "G", "m_per_Mpc"))
    for n, y in (("cross", cross), ("plus", plus)):
        h.shape_eq(n, y, (B, T))
        h.ok(n + " type", y.dtype == D)

    def amp(b):
        q = h.at(Q, b)
        spin = 1 - (2 / q) ** h.const("20/9")
        g = 1 - h.const("63/100") * (1 - spin) ** h.const("3/10")
        mass = c ** 3 / (G * 2 * pi * h.at(f, b)) * (
            1 - h.const("63/100") * (2 / q) ** h.const("2/3"))
        F = 1 + h.const("7/24") / q ** 2
        return h.sqrt(h.const("5/2") * h.at(eps, b)) * G * mass / c ** 2 * q ** h.const(
            "-1/2") * F ** h.const("-1/2") * g ** h.const("-1/2") / (h.at(dist, b) * mpc)

    def val(b, k, ang, trig):
        t = k / sr
        return amp(b) * ang * h.exp(-pi * h.at(f, b) * t / h.at(Q, b)) * trig(
            2 * pi * h.at(f, b) * t + h.at(ph, b))

    h.each("plus", (B, T), lambda b, k: h.same(
        h.at(plus, b, k), val(b, k, 1 + h.cos(h.at(inc, b)) ** 2, h.cos)))
    h.each("cross", (B, T), lambda b, k: h.same(
        h.at(cross, b, k), val(b, k, 2 * h.cos(h.at(inc, b)), h.sin)))
    for v in fr:
        h.frame("parameters", v)


@contract("C21", [SG + ".forward"], samples=20,
          bounded="windows of many cycles; sums over samples against the integral")
def root_sum_square(h):
    """the samples' sum of squares times the sample spacing is hrss squared"""
    f, Q = 40 + 200 * float(h.real("f", lo=0, hi=1)), 2 + 10 * float(h.real("q", lo=0, hi=1))
    hrss = 0.5 + float(h.real("hrss", lo=0, hi=1))
    e, ph = float(h.real("e", lo=0, hi=1)), 6.28 * float(h.real("ph", lo=0, hi=1))
    m = h.fn(SG)(8192, 2)
    d = lambda v: torch.tensor([v], dtype=torch.float64)
    c, p = h.must("forward", h.call(m, d(Q), d(f), d(hrss), d(ph), d(e)))
    s = math.sqrt(float((c ** 2 + p ** 2).sum()) / 8192)
    h.ok("root sum square", abs(s / hrss - 1) < 1e-4, f"{s} for {hrss}")


@contract("C21", [RD + ".forward"], samples=20,
          bounded="seven inclinations by Gauss-Legendre quadrature, decays within the window")
def energy(h):
    """the flux through the sphere, summed over time, is epsilon times the rest energy of the
    black hole"""
    import numpy as np

    f, Q = 80 + 100 * float(h.real("f", lo=0, hi=1)), 2.5 + 6 * float(h.real("q", lo=0, hi=1))
    eps, r = 0.01 + 0.1 * float(h.real("eps", lo=0, hi=1)), 1 + 99 * float(h.real("r", lo=0, hi=1))
    rate = 65536
    x, w = np.polynomial.legendre.leggauss(7)
    d = lambda v: torch.full((7,), v, dtype=torch.float64)
    c, p = h.must("forward", h.call(h.fn(RD)(rate, 1), d(f), d(Q), d(eps), d(0.0),
                                    torch.arccos(torch.tensor(x)), d(r)))
    C, G = 299792458.0, 6.6743e-11
    flux = (((c.diff(dim=-1) ** 2 + p.diff(dim=-1) ** 2).sum(-1)) * rate).numpy()
    E = C ** 3 / (16 * math.pi * G) * (r * 3.0856775814913673e22) ** 2 * 2 * math.pi * (w * flux).sum()
    M = C ** 3 / (2 * math.pi * G * f) * (1 - 0.63 * (2 / Q) ** (2 / 3))
    h.ok("radiated energy", abs(E / (eps * M * C ** 2) - 1) < 5e-3, f"{E} for {eps * M * C**2}")
