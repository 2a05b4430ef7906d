"""C15: probability distributions: the law of the samples and their density."""
import math

import torch

from dv.harness import contract

D = "ml4gw.distributions:"
UV = D + "UniformComovingVolume"
N = 4000


def draw(h, m, k, kind="rand"):
    """samples and, in the proof, the draws behind them: one per sample"""
    n = h.int("n", 1, span=4)
    x = h.must("sample", h.call(m.rsample, (n, k)))
    h.shape_eq("samples", x, (n, k))
    return n, x


def ks(h, m, cdf, lo=None, hi=None):
    """concrete runs: distance of the empirical distribution from the stated one"""
    x = h.must("sample", h.call(m.sample, (N,))).double()
    if lo is not None:
        h.ok("within the bounds", bool((x >= lo - 1e-4 * (1 + abs(lo))).all()))
        h.ok("below the upper bound", bool((x <= hi + 1e-4 * (1 + abs(hi))).all()))
    x = x.sort().values
    q = torch.tensor([float(cdf(float(v))) for v in x])
    e = (torch.arange(N) + 0.5) / N
    h.ok("law of the samples", bool((q - e).abs().max() < 0.06))


def law(h, m, inv, cdf, lo=None, hi=None):
    """each sample x solves inv(x) = u-th fraction of the way through the law, u its draw"""
    if h.sym:
        n, x = draw(h, m, 3)
        h.each("one uniform draw per sample", (n, 3), lambda i, j: inv(
            h.at(x, i, j), h.draw_funs(1, i, j)[0]))
    else:
        ks(h, m, cdf, lo, hi)


def dens(h, m, p, inside, v, name="density"):
    """exp(log_prob) is the density inside the support and minus infinity is outside"""
    lp = h.must("log_prob", h.call(m.log_prob, v))
    k = h.shapeof(v)[0]
    h.shape_eq("log_prob", lp, (k,))
    if h.sym:
        return lp, k
    for i in range(k):
        q = float(v[i])
        if inside(q) is None:
            continue
        h.ok(name, h.same(float(lp[i].exp()), p(q) if inside(q) else 0.0))
    return lp, k


def off(q, *edges):
    return all(abs(q - e) > 1e-3 for e in edges)


@contract("C15", [D + "Cosine.__init__", D + "Cosine.rsample", D + "Cosine.log_prob"],
          tol=dict(rtol=1e-3, atol=1e-4))
def cosine(h):
    """density cos(x) / (sin high - sin low) between the bounds"""
    lo = h.real("low", any=(-1.5, 0.2))
    hi = h.real("high", any=(0.4, 1.55))
    if h.sym:
        h.assume(h.and_(-h.pi / 2 <= lo, lo < hi, hi <= h.pi / 2))
        h.assume(h.sin(lo) < h.sin(hi))  # the sine increases there
    m = h.must("construct", h.call(h.fn(D + "Cosine"), lo, hi))
    w = h.sin(hi) - h.sin(lo)
    law(h, m, lambda x, u: h.and_(h.same(h.sin(x), h.sin(lo) + u * w),
                                  x >= -h.pi / 2, x <= h.pi / 2),
        lambda x: (math.sin(x) - math.sin(lo)) / w, *(() if h.sym else (lo, hi)))
    v = h.tensor("v", (5,), any=(-1.57, 1.57))
    lp, k = dens(h, m, lambda q: math.cos(q) / w,
                 lambda q: lo < q < hi if off(q, lo, hi) else None, v)
    if h.sym:
        h.each("density", (k,), lambda i: h.same(h.at(lp, i), h.log(h.ite(
            h.and_(h.at(v, i) >= lo, h.at(v, i) <= hi),
            lambda: h.cos(h.at(v, i)) / w, lambda: 0))))


@contract("C15", [D + "Cosine.__init__", D + "Sine.__init__"], cases=[
    dict(kind=k) for k in ("Cosine", "Sine")])
def defaults(h, kind):
    """half a period by default: the isotropic declination and inclination"""
    m = h.must("construct", h.call(h.fn(D + kind)))
    if h.sym:
        n, x = draw(h, m, 2)
        h.assume(h.same(h.sin(h.pi / 2), 1))
        h.assume(h.same(h.sin(-h.pi / 2), -1))
        off_ = 0 if kind == "Cosine" else h.pi / 2
        h.each("isotropic", (n, 2), lambda i, j: h.same(
            h.sin(h.at(x, i, j) - off_), 2 * h.draw_funs(1, i, j)[0] - 1))
    elif kind == "Cosine":
        ks(h, m, lambda x: (math.sin(x) + 1) / 2, -math.pi / 2, math.pi / 2)
    else:
        ks(h, m, lambda x: (1 - math.cos(x)) / 2, 0, math.pi)


@contract("C15", [D + "Sine.__init__", D + "Cosine.rsample"], tol=dict(rtol=1e-3, atol=1e-4))
def sine(h):
    """density sin(x) / (cos low - cos high) between the bounds"""
    lo = h.real("low", any=(0.05, 1.2))
    hi = h.real("high", any=(1.5, 3.1))
    s = lambda q: h.sin(q - h.pi / 2)  # minus the cosine
    if h.sym:
        h.assume(h.and_(0 <= lo, lo < hi, hi <= h.pi))
        h.assume(s(lo) < s(hi))
    m = h.must("construct", h.call(h.fn(D + "Sine"), lo, hi))
    w = s(hi) - s(lo)
    law(h, m, lambda x, u: h.same(s(x), s(lo) + u * w),
        lambda x: (math.cos(lo) - math.cos(x)) / (math.cos(lo) - math.cos(hi)),
        *(() if h.sym else (lo, hi)))
    v = h.tensor("v", (5,), any=(0.01, 3.13))
    lp, k = dens(h, m, lambda q: math.sin(q) / (math.cos(lo) - math.cos(hi)),
                 lambda q: lo < q < hi if off(q, lo, hi) else None, v)
    if h.sym:
        h.each("density", (k,), lambda i: h.same(h.at(lp, i), h.log(h.ite(
            h.and_(h.at(v, i) >= lo, h.at(v, i) <= hi),
            lambda: h.cos(h.at(v, i) - h.pi / 2) / w, lambda: 0))))


@contract("C15", [D + "LogUniform.__init__"], tol=dict(rtol=1e-3, atol=1e-4))
def log_uniform(h):
    """the logarithm is uniform between the logarithms of the bounds"""
    lo, r = h.real("low", pos=(0.1, 5)), h.real("ratio", pos=(1.5, 30))
    if h.sym:
        h.assume(r > 1)
    hi = lo * r
    m = h.must("construct", h.call(h.fn(D + "LogUniform"), lo, hi))
    w = h.log(hi) - h.log(lo)
    law(h, m, lambda x, u: h.same(x, h.exp(h.log(lo) + u * w)),
        lambda x: math.log(x / lo) / w, *(() if h.sym else (lo, hi)))
    v = h.tensor("v", (5,), pos=(0.05, 100))
    if not h.sym:  # values out of the support are refused under argument validation
        v = lo * 1.02 + (hi / 1.02 - lo * 1.02) * v / 100
    lp, k = dens(h, m, lambda q: 1 / (q * w),
                 lambda q: lo < q < hi if off(q, lo, hi) else None, v)
    if h.sym:
        h.each("density", (k,), lambda i: h.same(h.at(lp, i), h.log(h.ite(h.and_(
            h.log(lo) <= h.log(h.at(v, i)), h.log(h.at(v, i)) < h.log(hi)), 1, 0))
            - h.log(w) - h.log(h.at(v, i))))


@contract("C15", [D + "PowerLaw.__init__"],
          cases=[dict(index=k) for k in (2, 1, -2, -3, -4, -1, 3)],
          tol=dict(rtol=2e-3, atol=1e-4))
def power_law(h, index):
    """density proportional to x^index between the bounds"""
    lo, r = h.real("minimum", pos=(0.5, 4)), h.real("ratio", pos=(1.5, 6))
    if h.sym:
        h.assume(r > 1)
    hi = lo * r
    m = h.must("construct", h.call(h.fn(D + "PowerLaw"), lo, hi, index))
    a = index + 1
    if index == -1:
        w = h.log(hi) - h.log(lo)
        inv = lambda x, u: h.same(x, h.exp(h.log(lo) + u * w))
        F, nrm = lambda x: math.log(x / lo) / w, None if h.sym else 1 / w
    else:
        w = hi ** a - lo ** a
        inv = lambda x, u: h.same(x, h.num(a * (lo ** a / a + u * (hi ** a / a - lo ** a / a)))
                                  ** h.const(f"{'-' if a < 0 else ''}1/{abs(a)}"))
        F, nrm = lambda x: (x ** a - lo ** a) / w, a / w
    law(h, m, inv, F, *(() if h.sym else (lo, hi)))
    if not h.sym:
        v = h.tensor("v", (5,), pos=(0.1, 30))
        dens(h, m, lambda q: nrm * q ** index,
             lambda q: lo < q < hi if off(q, lo, hi) else None, v)


@contract("C15", [D + "PowerLaw.__init__"], cases=[{}])
def power_law_uniform(h):
    """index 0 is refused, whatever the bounds"""
    h.ok("refused", h.call(h.fn(D + "PowerLaw"), h.real("a", pos=(1, 2)), h.real("b", pos=(3, 4)),
                           h.choice("index", [0, 0.0, -0.0])).raised(ValueError))


@contract("C15", [D + "DeltaFunction.__init__", D + "DeltaFunction.rsample"])
def delta(h):
    p = h.real("peak")
    m = h.must("construct", h.call(h.fn(D + "DeltaFunction"), p))
    n, x = draw(h, m, 3)
    h.each("the peak", (n, 3), lambda i, j: h.same(h.at(x, i, j), p))
    if not h.sym:
        h.ok("dtype", x.dtype == torch.float32)
    z = h.must("default", h.call(h.fn(D + "DeltaFunction")))
    h.each("zero by default", (n,), lambda i: h.same(h.at(z.sample((n,)), i), 0))


@contract("C15", [D + "LogNormal.__init__"])
def log_normal(h):
    """the logarithm is normal with the stated mean and deviation"""
    mu, sd = h.real("mean", any=(-1, 2)), h.real("std", pos=(0.2, 1.5))
    m = h.must("construct", h.call(h.fn(D + "LogNormal"), mu, sd))
    if h.sym:
        n, x = draw(h, m, 3)
        h.each("law", (n, 3), lambda i, j: h.same(
            h.at(x, i, j), h.exp(mu + sd * h.draw_funs(1, i, j)[0])))
    else:
        ks(h, m, lambda x: 0.5 * math.erfc(-(math.log(x) - mu) / sd / 2 ** 0.5))


# ----------------------------------------------------------------- cosmological volumes
def blank(h, **k):
    U = h.fn(UV)
    m = U.__new__(U)
    for a, v in k.items():
        setattr(m, a, v)
    return m


def hubble(h, h0, om, z):
    return h0 * h.sqrt(om * (1 + z) ** 3 + (1 - om))


KINDS = ("redshift", "comoving_distance", "luminosity_distance")


@contract("C15", [UV + "._linear_interp_1d"])
def interpolation(h):
    """on an increasing grid: the straight line through the two nodes around the query, and
    through the two outermost nodes beyond the ends"""
    n, q = h.int("n", 2, span=6), h.int("q", 1, span=5)
    if h.sym:
        x = h.tensor("x", (n,))
        h.assume_all((n, n), lambda i, j: h.implies(i < j, h.at(x, i) < h.at(x, j)))
    else:
        x = h.tensor("x", (n,), pos=(0.1, 1)).cumsum(0)
    y, v = h.tensor("y", (n,)), h.tensor("v", (q,), any=(-0.5, 5))
    out = h.must("interpolate", h.call(blank(h)._linear_interp_1d, x, y, v))
    h.shape_eq("values", out, (q,))

    def line(i, k):
        x0, x1, y0, y1 = h.at(x, k), h.at(x, k + 1), h.at(y, k), h.at(y, k + 1)
        return h.same(h.at(out, i), y0 + h.div(h.at(v, i) - x0, x1 - x0) * (y1 - y0))

    h.each("between neighbours", (q, n - 1), lambda i, k: h.implies(
        h.and_(h.at(x, k) <= h.at(v, i), h.at(v, i) < h.at(x, k + 1)), line(i, k)))
    h.each("below the grid", (q,), lambda i: h.implies(h.at(v, i) < h.at(x, 0), line(i, 0)))
    h.each("above the grid", (q,), lambda i: h.implies(
        h.at(v, i) >= h.at(x, n - 1), line(i, n - 2)))


@contract("C15", [UV + "._generate_distance_grids", UV + "._hubble_function"],
          cases=[dict(kind=k) for k in KINDS], tol=dict(rtol=1e-3, atol=1e-3))
def distances(h, kind):
    """equally spaced redshifts from 0; comoving distance: the integral of c/H by the
    trapezoid rule, H(z) = h0 sqrt(om (1+z)^3 + 1 - om); luminosity distance (1+z) times it"""
    n = h.int("n", 2, span=8)
    zm = h.real("z_max", pos=(0.5, 6))
    h0, om = h.real("h0", pos=(50, 80)), h.real("om", pos=(0.2, 0.4))
    m = blank(h, minimum=h.torch.as_tensor(0.0), distance_type=kind, z_grid_max=zm,
              grid_size=n, h0=h0, omega_m=om)
    h.must("grids", h.call(m._generate_distance_grids))
    z = lambda k: k * zm / (n - 1)
    c = h.const("299792458")
    dc = lambda i: h.sum(i, lambda k: (
        (c / hubble(h, h0, om, z(k)) + c / hubble(h, h0, om, z(k + 1))) / 2
        * (z(k + 1) - z(k)))) / 1000
    h.each("redshift", (n,), lambda i: h.same(h.at(m.z_grid, i), z(i)))
    z = lambda k: h.at(m.z_grid, k)
    h.eq("comoving at zero", h.at(m.comoving_dist_grid, 0), 0)
    h.each("comoving", (n - 1,), lambda i: h.same(h.at(m.comoving_dist_grid, i + 1), dc(i + 1)))
    dc = lambda i: h.at(m.comoving_dist_grid, i)
    h.each("luminosity", (n,), lambda i: h.same(
        h.at(m.luminosity_dist_grid, i), dc(i) * (1 + z(i))))
    want = {"redshift": z, "comoving_distance": dc,
            "luminosity_distance": lambda i: dc(i) * (1 + z(i))}[kind]
    h.each("chosen distance", (n,), lambda i: h.same(h.at(m.distance_grid, i), want(i)))


@contract("C15", [UV + "._p_of_distance", UV + "._generate_probability_grids",
                  D + "RateEvolution._p_of_distance", D + "RateEvolution.__init__"],
          cases=[dict(cls=c) for c in ("UniformComovingVolume", "RateEvolution")],
          tol=dict(rtol=1e-3, atol=1e-4))
def density(h, cls):
    """proportional to dc^2 / H times dz/ddistance (times the rate), of unit integral; the
    cumulative distribution is its running integral"""
    n = h.int("n", 3, span=6)
    h0, om = h.real("h0", pos=(50, 80)), h.real("om", pos=(0.2, 0.4))
    dz = h.real("dz", pos=(0.05, 0.2))
    z = h.tensor("z", (n,), pos=(0.1, 2))
    dc = h.tensor("dc", (n,), pos=(0.1, 5))
    d = h.tensor("d", (n,), pos=(0.1, 1))
    if not h.sym:
        d = d.cumsum(0)
    U = h.fn(D + cls)
    m = U.__new__(U)
    for a, v in dict(minimum=h.torch.as_tensor(0.0), h0=h0, omega_m=om, z_grid=z, dz=dz,
                     comoving_dist_grid=dc, distance_grid=d).items():
        setattr(m, a, v)
    rate = lambda q: 1
    if cls == "RateEvolution":
        rate = lambda q: 1 / (1 + q * q)
        m.rate_function = rate
    h.must("probability", h.call(m._generate_probability_grids))

    def slope(i):
        at = lambda k: h.at(d, k)
        if not h.sym:
            a, b = max(i - 1, 0), min(i + 1, n - 1)
            return (at(b) - at(a)) / ((b - a) * dz)
        return h.div(at(h.ite(i == n - 1, i, i + 1)) - at(h.ite(i == 0, i, i - 1)),
                     h.ite(h.or_(i == 0, i == n - 1), 1, 2) * dz)

    vol = lambda i: h.at(dc, i) ** 2 / hubble(h, h0, om, h.at(z, i))
    p = lambda i: h.div(vol(i), slope(i)) * rate(h.at(z, i))
    trap = lambda f, k: h.sum(k, lambda j: (f(j) + f(j + 1)) / 2 * (h.at(d, j + 1) - h.at(d, j)))
    if h.sym:
        P = h.must("unnormalised", h.call(m._p_of_distance))
        h.each("volume element", (n,), lambda i: h.same(h.at(P, i), p(i)))
        p = lambda i: h.at(P, i)
    tot = trap(p, n - 1)
    h.each("density", (n,), lambda i: h.same(h.at(m.pdf, i), h.div(p(i), tot)))
    h.eq("cumulative at the lower end", h.at(m.cdf, 0), 0)
    h.each("cumulative", (n - 1,), lambda i: h.same(
        h.at(m.cdf, i + 1), trap(lambda k: h.at(m.pdf, k), i + 1)))


@contract("C15", [UV + ".rsample", UV + ".log_prob"])
def volume_sampling(h):
    """a sample is the distance at which the cumulative distribution reaches a uniform draw;
    log_prob is the logarithm of the interpolated density, minus infinity out of bounds"""
    n, q = h.int("n", 2, span=6), h.int("q", 1, span=5)
    g = {}
    for k in ("distance_grid", "pdf", "cdf"):
        g[k] = h.tensor(k, (n,), pos=(0.1, 1))
    if not h.sym:
        for k in ("distance_grid", "cdf"):
            g[k] = g[k].cumsum(0)
        g["cdf"] = (g["cdf"] - g["cdf"][0]) / (g["cdf"][-1] - g["cdf"][0])
        g["log_pdf"] = g["pdf"].log()
    lo, hi = h.real("minimum", any=(0.2, 0.8)), h.real("maximum", any=(1.0, 3.0))
    m = blank(h, minimum=h.torch.as_tensor(lo), maximum=h.torch.as_tensor(hi), **g)
    line = lambda x, y, v: m._linear_interp_1d(x, y, v)
    if h.sym:
        x = h.must("sample", h.call(m.rsample, (q,)))
        h.shape_eq("samples", x, (q,))
        u = h.torch.stack([h.torch.as_tensor(h.draw_funs(1, 0)[0])])
        h.each("first sample", (1,), lambda i: h.same(h.at(x, 0), h.at(
            line(g["cdf"], g["distance_grid"], u), 0)))
    v = h.tensor("v", (q,), any=(0.1, 3.5))
    w = h.freeze(v)
    lp = h.must("log_prob", h.call(m.log_prob, v))
    h.shape_eq("log_prob", lp, (q,))
    ref = line(g["distance_grid"], g["pdf"], v)
    out = lambda i: h.or_(h.at(v, i) < lo, h.at(v, i) > hi)
    floor = g["pdf"].min()
    h.each("inside", (q,), lambda i: h.ite(h.and_(h.not_(out(i)), h.at(ref, i) >= floor),
           lambda: h.same(h.at(lp, i), h.log(h.at(ref, i))), True))
    h.each("outside", (q,), lambda i: h.ite(out(i), lambda: (
        h.same(h.at(lp, i), h.log(0)) if h.sym else float(lp[i]) == -math.inf), True))
    h.frame("values", w)


@contract("C15", [UV + ".__init__"])
def volume_type(h):
    """an unknown kind of distance is refused"""
    k = h.choice("type", ["", "distance", "Redshift", None])
    h.ok("refused", h.call(h.fn(UV), 0.1, 1.0, k).raised(ValueError))


@contract("C15", [UV + ".__init__", UV + "._get_z_bounds"], cases=[dict(kind=k) for k in KINDS],
          bounded="sampled redshift grids of 500 nodes", samples=4)
def volume_range(h, kind):
    """a maximum beyond the end of the redshift grid is refused, and one before it is not"""
    zm = h.real("z_max", pos=(0.5, 4))
    end = oracle_distance(kind, zm, 67.66, 0.30966)
    k = dict(distance_type=kind, z_grid_max=zm, grid_size=500)
    h.ok("refused", h.call(h.fn(UV), 0.0, end * h.real("beyond", lo=1.01, hi=2), **k).raised(
        ValueError))
    h.must("accepted", h.call(h.fn(UV), 0.0, end * h.real("within", lo=0.3, hi=0.99), **k))


def oracle_distance(kind, z, h0, om):
    from scipy.integrate import quad

    if kind == "redshift":
        return z
    dc = quad(lambda t: 299792.458 / (h0 * math.sqrt(om * (1 + t) ** 3 + 1 - om)), 0, z)[0]
    return dc if kind == "comoving_distance" else dc * (1 + z)


@contract("C15", [UV, D + "RateEvolution"],
          cases=[dict(kind=k, rate=r) for k in KINDS for r in (None, "inverse")],
          bounded="sampled cosmologies and bounds, 2000 redshift nodes, against adaptive "
          "quadrature and inversion by bisection; tolerance 1%", samples=3)
def volumes(h, kind, rate):
    """samples follow, and log_prob is, the density dVc/ddistance (times the rate) between the
    bounds"""
    from scipy.integrate import quad
    from scipy.optimize import brentq

    h0, om = h.real("h0", pos=(50, 80)), h.real("om", pos=(0.2, 0.4))
    zlo, zhi = h.real("z_low", lo=0, hi=0.4), h.real("z_high", lo=0.6, hi=2.5)
    if h.choice("from zero", [True, False]):
        zlo = 0.0
    dist = lambda z: oracle_distance(kind, z, h0, om)
    lo, hi = dist(zlo), dist(zhi)
    f = lambda z: 1 / (1 + z)
    k = dict(distance_type=kind, h0=h0, omega_m=om, z_grid_max=3.0, grid_size=2000)
    m = h.must("construct", h.call(h.fn(D + "RateEvolution"), f, lo, hi, **k) if rate else
               h.call(h.fn(UV), lo, hi, **k))
    H = lambda z: h0 * math.sqrt(om * (1 + z) ** 3 + 1 - om)
    pz = lambda z: oracle_distance("comoving_distance", z, h0, om) ** 2 / H(z) * (
        f(z) if rate else 1)
    tot = quad(pz, zlo, zhi, limit=100)[0]

    def zof(d):
        return d if kind == "redshift" else brentq(lambda z: dist(z) - d, 0, 4)

    vs = [lo + (hi - lo) * t for t in (0.004, 0.1, 0.35, 0.6, 0.9, 0.99)]
    lp = m.log_prob(torch.tensor(vs, dtype=torch.float64))
    for v, q in zip(vs, lp):
        z, e = zof(v), 1e-4
        slope = (dist(z + e) - dist(z - e)) / (2 * e)
        want = pz(z) / tot / slope
        h.ok("density", abs(float(q.exp()) / want - 1) < 0.015 + (0.15 if v == vs[0] else 0))
    lp = m.log_prob(torch.tensor([lo - 0.01 * hi, hi * 1.01]))
    h.ok("none outside", bool((lp == -math.inf).all()))
    x = m.sample((N,))
    h.shape_eq("samples", x, (N,))
    x = x.double().sort().values
    h.ok("bounds", float(x[0]) >= lo - 2e-3 * hi and float(x[-1]) <= hi * 1.001)
    for t in (0.25, 0.5, 0.75):
        v = float(x[int(t * N)])
        h.ok("law of the samples", abs(quad(pz, zlo, zof(v))[0] / tot - t) < 0.05)
