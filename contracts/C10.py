"""C10: projection onto interferometers: antenna responses, delays, geometry."""
import math as _m

from dv.harness import contract

GW = "ml4gw.gw"
AR, SH, OS, GG = (f"{GW}:{n}" for n in (
    "compute_antenna_responses", "shift_responses", "compute_observed_strain",
    "get_ifo_geometry"))
LOW = [f"{GW}:{n}" for n in ("outer", "plus", "cross", "breathing")]
C = 299792458.0


def basis(h, th, ps, ph):
    """polarization basis (m, n) of a source at polar angle th, azimuth ph, with
    polarization angle ps, and the direction to the source"""
    st, ct, sp, cp, ss, cs = (h.sin(th), h.cos(th), h.sin(ph), h.cos(ph), h.sin(ps), h.cos(ps))
    u = (cp * ct, sp * ct, -st)
    v = (-sp, cp, 0)
    m = [-u[j] * ss - v[j] * cs for j in range(3)]
    n = [-u[j] * cs + v[j] * ss for j in range(3)]
    return m, n, (st * cp, st * sp, ct)


def resp(mode, m, n, D):
    e = {"plus": lambda j, k: m[j] * m[k] - n[j] * n[k],
         "cross": lambda j, k: m[j] * n[k] + n[j] * m[k],
         "breathing": lambda j, k: m[j] * m[k] + n[j] * n[k]}[mode]
    return sum(e(j, k) * D(j, k) for j in range(3) for k in range(3))


def sky(h, B):
    return [h.tensor(n, (B,)) for n in ("a", "psi", "phi")]


MODES = [("plus", "cross"), ("cross", "plus"), ("plus",), ("cross",), ("breathing",),
         ("breathing", "cross", "plus")]


@contract("C10", [AR] + LOW, cases=[dict(modes=m) for m in MODES], tol=dict(rtol=1e-4, atol=1e-5))
def antenna(h, modes):
    """responses are the double contraction of each polarization tensor with each
    detector tensor"""
    B, I = h.int("B", 1, span=4), h.int("I", 1, span=3)
    th, ps, ph = sky(h, B)
    D = h.tensor("D", (I, 3, 3))
    fr = [h.freeze(t) for t in (th, ps, ph, D)]
    y = h.must("responses", h.call(h.fn(AR), th, ps, ph, D, list(modes)))
    h.shape_eq("responses", y, (B, len(modes), I))
    for p, mode in enumerate(modes):
        def want(b, i):
            m, n, _ = basis(h, h.at(th, b), h.at(ps, b), h.at(ph, b))
            return resp(mode, m, n, lambda j, k: h.at(D, i, j, k))

        h.each(f"{mode} response", (B, I), lambda b, i: h.same(h.at(y, b, p, i), want(b, i)))
    for f, nm in zip(fr, ("theta", "psi", "phi", "detector tensors")):
        h.frame(nm, f)


@contract("C10", [AR] + LOW, cases=[{}])
def antenna_laws(h):
    """what the responses are for: the polarization basis is orthonormal and transverse, so
    plus and cross are traceless transverse patterns; rotating the polarization angle mixes
    them as a spin-2 quantity, and breathing does not depend on it"""
    th, ps, ph, al = (h.tensor(n, (1,)) for n in ("a", "psi", "phi", "al"))
    # any symmetric detector tensor
    d = [h.real(f"d{i}") for i in range(6)]
    D = h.torch.tensor([[[d[0], d[1], d[2]], [d[1], d[3], d[4]], [d[2], d[4], d[5]]]],
                       dtype=h.torch.float64)
    modes = ["plus", "cross", "breathing"]
    y = h.must("responses", h.call(h.fn(AR), th, ps, ph, D, modes))
    z = h.must("rotated", h.call(h.fn(AR), th, ps + al, ph, D, modes))
    P, X, b = (h.at(y, 0, k, 0) for k in range(3))
    P2, X2, b2 = (h.at(z, 0, k, 0) for k in range(3))
    c, s = h.cos(h.at(al, 0)), h.sin(h.at(al, 0))
    c2, s2 = c * c - s * s, 2 * s * c
    h.ok("plus mixes with angle 2 psi", h.same(P2, P * c2 + X * s2))
    h.ok("cross mixes with angle 2 psi", h.same(X2, X * c2 - P * s2))
    h.ok("breathing is invariant", h.same(b, b2))
    # identity detector: traces of the polarization tensors
    E = h.torch.tensor([[[1, 0, 0], [0, 1, 0], [0, 0, 1]]], dtype=h.torch.float64)
    t = h.must("trace", h.call(h.fn(AR), th, ps, ph, E, modes))
    h.ok("plus traceless", h.same(h.at(t, 0, 0, 0), 0))
    h.ok("cross traceless", h.same(h.at(t, 0, 1, 0), 0))
    h.ok("breathing has trace 2", h.same(h.at(t, 0, 2, 0), 2))
    # D = k v^T: no response along the propagation direction
    st, ct, sp, cp = (f(h.at(x, 0)) for x, f in ((th, h.sin), (th, h.cos), (ph, h.sin),
                                                 (ph, h.cos)))
    k = (st * cp, st * sp, ct)
    v = [h.real(f"v{i}") for i in range(3)]
    K = h.torch.stack([h.torch.tensor([[k[i] * v[j] for j in range(3)] for i in range(3)],
                                      dtype=h.torch.float64)])
    w = h.must("longitudinal", h.call(h.fn(AR), th, ps, ph, K, modes))
    for q, nm in enumerate(modes):
        h.ok(f"{nm} is transverse", h.same(h.at(w, 0, q, 0), 0))


@contract("C10", [AR], cases=[dict(mode=m) for m in ("Plus", "scalar", "")])
def unknown_mode(h, mode):
    th, ps, ph = sky(h, 2)
    out = h.call(h.fn(AR), th, ps, ph, h.tensor("D", (2, 3, 3)), ["plus", mode])
    h.ok("refused", out.raised(ValueError))


def delay(h, w, vert, sr):
    """samples by which the signal at a vertex lags the geocentre, truncated toward zero"""
    return h.trunc(-(w[0] * vert(0) + w[1] * vert(1) + w[2] * vert(2)) * sr / C)


@contract("C10", [SH], cases=[{}])
def shift(h):
    """the response of interferometer i is its own series delayed by the light travel time
    from the geocentre, in whole samples, wrapping around"""
    B, I, n = h.int("B", 1, span=3), h.int("I", 1, span=3), h.int("n", 1, span=30)
    th, _, ph = sky(h, B)
    V = h.tensor("V", (I, 3), scale=4e6)
    x = h.tensor("x", (B, I, n))
    sr = h.real("sample_rate", pos=(1, 1e9), draw=lambda r: 10 ** r.uniform(0, 5))
    fr = [h.freeze(t) for t in (x, th, ph, V)]
    y = h.must("shift", h.call(h.fn(SH), x, th, ph, V, sr))
    h.shape_eq("responses", y, (B, I, n))

    def want(b, i, t):
        _, _, w = basis(h, h.at(th, b), 0, h.at(ph, b))
        return h.at(x, b, i, (t - delay(h, w, lambda j: h.at(V, i, j), sr)) % n)

    h.each("delayed", (B, I, n), lambda b, i, t: h.same(h.at(y, b, i, t), want(b, i, t)))
    for f, nm in zip(fr, ("responses", "theta", "phi", "vertices")):
        h.frame(nm, f)


@contract("C10", [OS, AR, SH] + LOW, cases=[dict(modes=m) for m in MODES], tol=dict(rtol=1e-4, atol=1e-5))
def observed_strain(h, modes):
    """strain = sum over polarizations of antenna response times polarization, delayed;
    declination measured from the equator, polarizations matched by name"""
    B, I, n = h.int("B", 1, span=3), h.int("I", 1, span=3), h.int("n", 1, span=20)
    dec, ps, ph = sky(h, B)
    D, V = h.tensor("D", (I, 3, 3)), h.tensor("V", (I, 3), scale=4e6)
    sr = h.real("sample_rate", pos=(1, 1e9), draw=lambda r: 10 ** r.uniform(0, 5))
    pol = {m: h.tensor(m, (B, n)) for m in modes}
    fr = [h.freeze(t) for t in (dec, ps, ph, D, V, *pol.values())]
    y = h.must("strain", h.call(h.fn(OS), dec, ps, ph, D, V, sr, **pol))
    h.shape_eq("strain", y, (B, I, n))

    def want(b, i, t):
        th = h.math.pi / 2 - h.at(dec, b)
        m, n_, w = basis(h, th, h.at(ps, b), h.at(ph, b))
        k = (t - delay(h, w, lambda j: h.at(V, i, j), sr)) % n
        return sum(resp(q, m, n_, lambda j, l: h.at(D, i, j, l)) * h.at(pol[q], b, k)
                   for q in modes)

    h.each("strain", (B, I, n), lambda b, i, t: h.same(h.at(y, b, i, t), want(b, i, t)))
    for f in fr:
        h.frame("argument", f)


# site coordinates (LALDetectors.h): latitude, longitude, elevation, and for both arms the
# altitude above the horizontal and the azimuth from north
SITES = {
    "H1": (0.81079526383, -2.08405676917, 142.554, -0.0006195, 5.65487724844, 0.0000125, 4.08408092164),
    "L1": (0.53342313506, -1.58430937078, -6.574, -0.0003121, 4.40317772346, -0.0006107, 2.83238139666),
    "V1": (0.76151183984, 0.18333805213, 51.884, 0.0, 0.33916285222, 0.0, 5.05155183261),
    "K1": (0.6355068497, 2.396441015, 414.181, 0.0031414, 1.054113, -0.0036270, -0.5166798),
}


def site(name):
    """vertex and arms from the site coordinates on the WGS-84 ellipsoid"""
    lat, lon, h, xa, xz, ya, yz = SITES[name]
    a, b = 6378137.0, 6356752.314
    R = a * a / _m.sqrt(a * a * _m.cos(lat) ** 2 + b * b * _m.sin(lat) ** 2)
    v = [(R + h) * _m.cos(lat) * _m.cos(lon), (R + h) * _m.cos(lat) * _m.sin(lon),
         (b * b / a / a * R + h) * _m.sin(lat)]
    E = [-_m.sin(lon), _m.cos(lon), 0]
    N = [-_m.sin(lat) * _m.cos(lon), -_m.sin(lat) * _m.sin(lon), _m.cos(lat)]
    U = [_m.cos(lat) * _m.cos(lon), _m.cos(lat) * _m.sin(lon), _m.sin(lat)]

    def arm(alt, az):
        return [_m.cos(alt) * (_m.sin(az) * e + _m.cos(az) * n) + _m.sin(alt) * u
                for e, n, u in zip(E, N, U)]

    return v, arm(xa, xz), arm(ya, yz)


NETS = [("H1",), ("L1",), ("V1",), ("K1",), ("H1", "L1"), ("L1", "H1"), ("V1", "K1", "L1", "H1"),
        ("H1", "H1")]


@contract("C10", [GG, "ml4gw.utils.interferometer:InterferometerGeometry.__init__"] + LOW[:2],
          cases=[dict(net=n) for n in NETS], samples=1)
def geometry(h, net):
    """for each named interferometer, in order: half the difference of the outer products of
    its arms, and its vertex, as its site's coordinates give them"""
    T, V = h.must("geometry", h.call(h.fn(GG), *net))
    h.shape_eq("tensors", T, (len(net), 3, 3))
    h.shape_eq("vertices", V, (len(net), 3))
    for i, name in enumerate(net):
        v, x, y = site(name)
        for j in range(3):
            h.ok(f"{name} vertex", h.le(abs(h.at(V, i, j) - v[j]), 1.0))
            for k in range(3):
                h.ok(f"{name} tensor", h.le(abs(
                    h.at(T, i, j, k) - (x[j] * x[k] - y[j] * y[k]) / 2), 1e-5))


@contract("C10", [GG, "ml4gw.utils.interferometer:InterferometerGeometry.__init__"],
          cases=[dict(name=n) for n in ("h1", "G1", "", "H2")], samples=1)
def unknown_ifo(h, name):
    h.ok("refused", h.call(h.fn(GG), "H1", name).raised(ValueError))
