"""C16: mass and spin parameter conversions."""
from dv.harness import contract

CV = "ml4gw.waveforms.conversion"
MC, SP = CV + ":chirp_mass_and_mass_ratio_to_components", CV + ":bilby_spins_to_lalsim"
RZ, RY, LN, L2 = (f"{CV}:{n}" for n in ("rotate_z", "rotate_y", "XLALSimInspiralLN",
                                        "XLALSimInspiralL_2PN"))
PI, MT = "ml4gw.constants:PI", "ml4gw.constants:MTSUN_SI"


@contract("C16", [MC], cases=[{}])
def masses(h):
    """components of the given ratio m2 / m1 and chirp mass (m1 m2)^(3/5) / (m1 + m2)^(1/5)"""
    B = h.int("B", 1, span=4)
    c, q = h.tensor("chirp", (B,), pos=(0.5, 100)), h.tensor("ratio", (B,), pos=(0.02, 1))
    frs = [h.freeze(c), h.freeze(q)]
    m1, m2 = h.must("convert", h.call(h.fn(MC), c, q))
    h.shape_eq("mass 1", m1, (B,))
    h.shape_eq("mass 2", m2, (B,))
    p = h.const("3/5"), h.const("1/5")
    h.each("ratio", (B,), lambda b: h.same(h.at(m2, b), h.at(m1, b) * h.at(q, b)))
    h.each("chirp mass", (B,), lambda b: h.same(
        (h.at(m1, b) * h.at(m2, b)) ** p[0] / (h.at(m1, b) + h.at(m2, b)) ** p[1], h.at(c, b)))
    for f in frs:
        h.frame("arguments", f)


@contract("C16", [RZ, RY], cases=[dict(axis=a) for a in "zy"])
def rotations(h, axis):
    """right-handed rotations about the axis"""
    B = h.int("B", 1, span=3)
    a, *v = [h.tensor(n, (B,)) for n in "axyz"]
    r = h.must("rotate", h.call(h.fn(RZ if axis == "z" else RY), a, *v))
    # cyclic components after the axis
    i, j, k = (0, 1, 2) if axis == "z" else (2, 0, 1)
    h.each("along the axis", (B,), lambda b: h.same(h.at(r[k], b), h.at(v[k], b)))
    h.each("first", (B,), lambda b: h.same(h.at(r[i], b), h.at(v[i], b) * h.cos(h.at(a, b)) -
                                           h.at(v[j], b) * h.sin(h.at(a, b))))
    h.each("second", (B,), lambda b: h.same(h.at(r[j], b), h.at(v[i], b) * h.sin(h.at(a, b)) +
                                            h.at(v[j], b) * h.cos(h.at(a, b))))


ANG = ("theta_jn", "phi_jl", "tilt_1", "tilt_2", "phi_12")


def spins(h, B=None, phi0=True):
    B = B or h.int("B", 1, span=4)
    hi = dict(theta_jn=3, tilt_1=3, tilt_2=3, phi_jl=6.2, phi_12=6.2)
    d = {n: h.tensor(n, (B,), any=(0.1, hi[n])) for n in ANG}
    d["a_1"], d["a_2"] = (h.tensor(n, (B,), pos=(0.05, 0.99)) for n in ("a_1", "a_2"))
    d["mass_1"], d["mass_2"] = (h.tensor(n, (B,), pos=(1, 80)) for n in ("mass_1", "mass_2"))
    d["f_ref"] = h.real("f_ref", pos=(5, 60))
    d["phi_ref"] = h.tensor("phi_ref", (B,), any=(0, 3)) if phi0 else h.torch.zeros((B,))
    return B, d


@contract("C16", [SP, RZ, RY, LN, L2], cases=[{}], tol=dict(rtol=1e-3, atol=1e-5))
def spin_geometry(h):
    """the returned spins are the given ones, seen in the frame of the orbital angular momentum:
    their projections on it, sizes, and mutual azimuth are kept"""
    B, d = spins(h)
    frs = [h.freeze(t) for k, t in d.items() if k != "f_ref"]
    incl, *s = h.must("convert", h.call(h.fn(SP), **d))
    h.ok("six components", len(s) == 6)
    for t in (incl, *s):
        h.shape_eq("component", t, (B,))
    A = {k: (lambda b, t=t: h.at(t, b)) for k, t in d.items() if k != "f_ref"}
    S = [(lambda b, t=t: h.at(t, b)) for t in s]
    for i in (0, 1):
        a, t = A[f"a_{i + 1}"], A[f"tilt_{i + 1}"]
        h.each(f"projection of spin {i + 1}", (B,), lambda b: h.same(
            S[3 * i + 2](b), a(b) * h.cos(t(b))))
        h.each(f"size of spin {i + 1}", (B,), lambda b: h.same(
            S[3 * i](b) ** 2 + S[3 * i + 1](b) ** 2, (a(b) * h.sin(t(b))) ** 2))

    def w(b):
        return A["a_1"](b) * A["a_2"](b) * h.sin(A["tilt_1"](b)) * h.sin(A["tilt_2"](b))

    h.each("angle between the spins", (B,), lambda b: h.same(
        S[0](b) * S[3](b) + S[1](b) * S[4](b), w(b) * h.cos(A["phi_12"](b))))
    h.each("sense of that angle", (B,), lambda b: h.same(
        S[0](b) * S[4](b) - S[1](b) * S[3](b), w(b) * h.sin(A["phi_12"](b))))
    for f in frs:
        h.frame("arguments", f)


@contract("C16", [LN, L2], cases=[{}])
def angular_momentum(h):
    """sizes of the Newtonian orbital angular momentum and of its second order correction"""
    B = h.int("B", 1, span=3)
    M, eta, v = (h.tensor(n, (B,), pos=(0.05, k)) for n, k in (("M", 99), ("eta", 0.25), ("v", 1)))
    l, l2 = h.must("LN", h.call(h.fn(LN), M, eta, v)), h.must("L2", h.call(h.fn(L2), eta))
    h.each("Newtonian", (B,), lambda b: h.same(
        h.at(l, b), h.div(h.at(M, b) ** 2 * h.at(eta, b), h.at(v, b))))
    h.each("second order", (B,), lambda b: h.same(h.at(l2, b), h.const("3/2") + h.at(eta, b) / 6))


@contract("C16", [SP, RZ, RY, LN, L2], cases=[{}], tol=dict(rtol=1e-3, atol=1e-4))
def line_of_sight(h):
    """the line of sight N makes theta_jn with the total and the returned inclination with the
    orbital angular momentum, which is at azimuth phi_jl about the total one"""
    B, d = spins(h)
    A = {k: (lambda b, t=t: h.at(t, b)) for k, t in d.items() if k != "f_ref"}
    mt, pi = h.fn(MT), h.fn(PI)

    def mass(b):
        return A["mass_1"](b) + A["mass_2"](b)

    def eta(b):
        return h.div(h.div(A["mass_1"](b) * A["mass_2"](b), mass(b)), mass(b))

    def vel(b):
        return (mass(b) * mt * pi * d["f_ref"]) ** h.const("1/3")

    def l_mag(b):
        return h.at(ln, b) * (1 + vel(b) * vel(b) * h.at(l2, b))

    if h.sym:
        ln, l2 = h.tensor("LN", (B,), pos=(0.01, 1)), h.tensor("L2", (B,), pos=(1, 2))
    else:
        ln = h.tab((B,), lambda b: mass(b) ** 2 * eta(b) / vel(b))
        l2 = h.tab((B,), lambda b: 1.5 + eta(b) / 6)

    def ln_spec(total_mass, eta_, v):
        h.each("Newtonian momentum of the total mass", (B,), lambda b: h.same(
            h.at(total_mass, b), mass(b)))
        h.each("symmetric mass ratio", (B,), lambda b: h.same(h.at(eta_, b), eta(b)))
        h.each("velocity at the reference frequency", (B,), lambda b: h.same(
            h.at(v, b), vel(b)))
        return ln

    def l2_spec(eta_):
        h.each("correction of the symmetric mass ratio", (B,), lambda b: h.same(
            h.at(eta_, b), eta(b)))
        return l2

    h.stub(LN, ln_spec)
    h.stub(L2, l2_spec)
    incl, *s = h.must("convert", h.call(h.fn(SP), **d))
    h.used()
    S = [(lambda b, t=t: h.at(t, b)) for t in s]

    def Jz(b):
        m1, m2 = A["mass_1"](b), A["mass_2"](b)
        return l_mag(b) + m1 * m1 * A["a_1"](b) * h.cos(A["tilt_1"](b)) + \
            m2 * m2 * A["a_2"](b) * h.cos(A["tilt_2"](b))

    def j0(b):
        """total spin across L, from the azimuth of spin 1"""
        u = A["mass_1"](b) ** 2 * A["a_1"](b) * h.sin(A["tilt_1"](b))
        w = A["mass_2"](b) ** 2 * A["a_2"](b) * h.sin(A["tilt_2"](b))
        return u + w * h.cos(A["phi_12"](b)), w * h.sin(A["phi_12"](b))

    def across(b):
        c, e = j0(b)
        return h.sqrt(c * c + e * e)

    def norm(b):
        c, e = j0(b)
        return h.sqrt(c * c + e * e + Jz(b) ** 2)

    def N(b):
        i, p = h.at(incl, b), A["phi_ref"](b)
        return h.sin(i) * h.cos(pi / 2 - p), h.sin(i) * h.sin(pi / 2 - p)

    def J(b):
        """total angular momentum across L (times the size of spin 1 across L)"""
        (c, e), x, y = j0(b), S[0](b), S[1](b)
        return c * x - e * y, c * y + e * x

    def s1(b):
        return A["a_1"](b) * h.sin(A["tilt_1"](b))

    h.ok("pi", abs(float(pi) - 3.141592653589793) < 1e-15)
    h.each("inclination", (B,), lambda b: h.same(
        h.cos(h.at(incl, b)) * norm(b), Jz(b) * h.cos(A["theta_jn"](b)) -
        across(b) * h.sin(A["theta_jn"](b)) * h.sin(A["phi_jl"](b) - pi)))
    h.each("inclination below pi", (B,), lambda b: h.and_(
        h.at(incl, b) >= 0, h.at(incl, b) <= h.const("31415927/10000000")))
    h.each("angle with the total", (B,), lambda b: h.same(
        J(b)[0] * N(b)[0] + J(b)[1] * N(b)[1], s1(b) * (
            norm(b) * h.cos(A["theta_jn"](b)) - Jz(b) * h.cos(h.at(incl, b)))))
    h.each("azimuth", (B,), lambda b: h.same(
        J(b)[1] * N(b)[0] - J(b)[0] * N(b)[1],
        -s1(b) * across(b) * h.cos(A["phi_jl"](b) - pi) * h.sin(A["theta_jn"](b))))


@contract("C16", [SP], cases=[{}])
def bad_frequency(h):
    """a reference frequency that is not positive is refused"""
    B, d = spins(h)
    d["f_ref"] = h.choice("f", [0, 0.0, -1.0, -20])
    h.ok("refused", h.call(h.fn(SP), **d).raised(ValueError))
