"""C24: spline interpolation."""
import numpy as np
import torch

from dv.harness import contract

S = "ml4gw.transforms.spline_interpolation:"
BASE, S1, S2 = S + "SplineInterpolateBase", S + "SplineInterpolate1D", S + "SplineInterpolate2D"


def grid(h, name, n):
    """increasing coordinates (the proofs do not need the order)"""
    if h.sym:
        return h.tensor(name, (n,), dtype=h.torch.float32)
    return h.tensor(name, (n,), pos=(0.3, 1)).cumsum(0).float()


@contract("C24", [BASE + ".generate_fitpack_knots"], cases=[dict(k=k) for k in (1, 2, 3, 4, 5)])
def knots(h, k):
    """the ends k+1 times, between them the averages of k consecutive inner points"""
    n = h.int("n", k + 2, span=8)
    x = grid(h, "x", n)
    f = h.freeze(x)
    t = h.must("knots", h.call(h.fn(BASE)().generate_fitpack_knots, x, k))
    h.shape_eq("knots", t, (n + k + 1,))
    h.each("first", (k + 1,), lambda i: h.same(h.at(t, i), h.at(x, 0)))
    h.each("last", (k + 1,), lambda i: h.same(h.at(t, n + i), h.at(x, n - 1)))
    h.each("inner", (n - k - 1,), lambda i: h.same(
        h.at(t, k + 1 + i), sum(h.at(x, 1 + i + j) for j in range(k)) / k))
    h.frame("coordinates", f)


@contract("C24", [BASE + ".bspline_basis_natural", BASE + ".zeroth_order", BASE + ".compute_L_R"],
          cases=[dict(k=k) for k in (1, 2, 3)])
def basis(h, k):
    """the B-splines of degree k on clamped knots, by the recursion of Cox and de Boor; the
    last one reaches one at the right end"""
    m, n = h.int("m", k + 2, span=6), h.int("n", 1, span=6)
    if h.sym and k == 3:
        t, x = h.tensor("t", (m + k + 1,)), h.tensor("x", (n,))
    elif h.sym:
        t = h.tensor("t", (m + k + 1,))
        h.assume_all((m + k + 1, m + k + 1), lambda i, j: h.implies(
            i <= j, h.at(t, i) <= h.at(t, j)))
        h.assume_all((m + k + 1,), lambda i: h.and_(
            h.implies(i <= k, h.at(t, i) == h.at(t, k)),
            h.implies(i >= m, h.at(t, i) == h.at(t, m))))
        h.assume(h.at(t, m - 1) < h.at(t, m))
        x = h.tensor("x", (n,))
        h.assume_all((n,), lambda i: h.and_(h.at(t, k) <= h.at(x, i), h.at(x, i) <= h.at(t, m)))
    else:
        inner = h.tensor("t", (m - k + 1,), pos=(0.2, 1)).cumsum(0)
        t = torch.cat([inner[:1].repeat(k), inner, inner[-1:].repeat(k)])
        x = inner[0] + h.tensor("x", (n,), lo=0, hi=1) * (inner[-1] - inner[0])
        x[0] = inner[h.int("node", 0, span=m - k)]
    fr = h.freeze(x), h.freeze(t)
    b = h.must("basis", h.call(h.fn(BASE)().bspline_basis_natural, x, k, t))
    h.shape_eq("basis", b, (n, m))

    # the degree 0 functions are the code's own for degree 3, proved with the lower degrees
    z0 = h.fn(BASE)().zeroth_order(x, k, t, n, m) if h.sym and k == 3 else None

    def N(d, i, v, a=None):
        """the basis function i of degree d at v, the a-th point (zero beyond the last)"""
        if d == 0 and z0 is not None:
            return h.at(z0, a, i, 0)
        if d == 0:
            return h.ite(h.or_(h.and_(h.at(t, i) <= v, v < h.at(t, i + 1)),
                               h.and_(i == m - 1, v >= h.at(t, m))), 1, 0)
        if not h.sym:
            if i >= m:
                return 0.0
            w = lambda a, b: float(a / b) if float(b) != 0 else 0.0
            return w(v - t[i], t[i + d] - t[i]) * N(d - 1, i, v) + \
                w(t[i + d + 1] - v, t[i + d + 1] - t[i + 1]) * N(d - 1, i + 1, v)
        q = lambda a, c: h.ite(c == 0, 0, lambda: h.div(a, c))
        nxt = h.ite(i + 1 < m, lambda: N(d - 1, i + 1, v, a), lambda: 0)
        return q(v - h.at(t, i), h.at(t, i + d) - h.at(t, i)) * N(d - 1, i, v, a) + \
            q(h.at(t, i + d + 1) - v, h.at(t, i + d + 1) - h.at(t, i + 1)) * nxt

    h.each("recursion", (n, m), lambda a, i: h.same(h.at(b, a, i), N(k, i, h.at(x, a), a)))
    for f, w in zip(fr, ("x", "t")):
        h.frame(w, f)


def stubs(h):
    """modular: knots and bases by their contracts above"""
    def kn(self, x, k):
        n = h.shapeof(x)[0]
        o = h.opaque("knots", [x], (k,), (n + k + 1,))
        return h.tab((n + k + 1,), lambda i: h.ite(i <= k, lambda: h.at(x, 0), lambda: h.ite(
            i >= n, lambda: h.at(x, n - 1), lambda: h.at(o, i))))

    def ba(self, x, k, t):
        return h.opaque("basis", [x, t], (k,), (h.shapeof(x)[0], h.shapeof(t)[0] - k - 1))

    h.stub(BASE + ".generate_fitpack_knots", kn)
    h.stub(BASE + ".bspline_basis_natural", ba)


@contract("C24", [S1 + ".__init__", S1 + ".forward", S1 + ".spline_fit_natural",
                  S1 + ".evaluate_spline", S1 + "._validate_inputs"],
          cases=[dict(nd=d, when=w, again=a) for d in (1, 2, 3, 4) for w in ("init", "call")
                 for a in (False, True)], tol=dict(rtol=5e-3, atol=5e-3))
def spline_1d(h, nd, when, again):
    """every series of the batch on its own: the basis at the output coordinates (held within
    the range of the input) times the least-squares coefficients of the series; coordinates
    given in a call hold for that call"""
    k = 2
    stubs(h)
    n, q = h.int("n", k + 2, span=5), h.int("q", 1, span=4)
    x, xo = grid(h, "x", n), h.tensor("x_out", (q,), dtype=h.torch.float32, any=(-1, 8))
    lead = tuple(h.int(a, 1, span=2) for a in "bch")[4 - nd:] if nd > 1 else ()
    z = h.tensor("z", (*lead, n), dtype=h.torch.float32)
    s = h.real("s", lo=0, hi=0.5)
    f = h.freeze(z)
    other = h.tensor("other", (q,), dtype=h.torch.float32, any=(-1, 8))
    m = h.must("construct", h.call(h.fn(S1), x, k, s, *([xo] if when == "init" else [other])))
    if again and when == "init":
        h.must("with other coordinates", h.call(m, z, other))
    y = h.must("forward", h.call(m, z) if when == "init" else h.call(m, z, xo))
    L = (1,) * (4 - nd) + lead if nd > 1 else (1, 1, 1)
    h.shape_eq("series", y, (*L, q))
    t = m.generate_fitpack_knots(x, k)
    B = m.bspline_basis_natural(x, k, t)
    Bo = m.bspline_basis_natural(xo.clamp(x[0], x[n - 1]), k, t)
    A = B.T @ B + s * h.torch.eye(n)
    full = z.reshape(*L, n)
    C = h.torch.linalg.solve(A, h.torch.einsum("ji,bchj->bchi", B, full).unsqueeze(-1)).squeeze(-1)
    h.each("value", (*L, q), lambda b, c, r, o: h.same(
        h.at(y, b, c, r, o), h.sum(n, lambda i: h.at(Bo, o, i) * h.at(C, b, c, r, i))))
    h.frame("data", f)


@contract("C24", [S2 + ".__init__", S2 + ".forward", S2 + ".bivariate_spline_fit_natural",
                  S2 + ".evaluate_bivariate_spline", S2 + "._validate_inputs"],
          cases=[dict(nd=d, wx=a, wy=b, again=g) for d in (2, 3, 4) for a in (0, 1) for b in (0, 1)
                 for g in (False, True)], tol=dict(rtol=1e-2, atol=1e-2))
def spline_2d(h, nd, wx, wy, again):
    """every image on its own, separably: the bases at the output coordinates around the
    coefficients, fitted along both axes; coordinates given in a call (w = 1) hold for it"""
    kx, ky = 2, 1
    stubs(h)
    nx, ny = h.int("nx", kx + 2, span=4), h.int("ny", ky + 2, span=4)
    qx, qy = h.int("qx", 1, span=3), h.int("qy", 1, span=3)
    x, y = grid(h, "x", nx), grid(h, "y", ny)
    out = lambda a, q: h.tensor(a, (q,), dtype=h.torch.float32, any=(-1, 8))
    xo, yo, x2, y2 = out("x_out", qx), out("y_out", qy), out("x2", qx), out("y2", qy)
    lead = tuple(h.int(a, 1, span=2) for a in "bc")[4 - nd:]
    z = h.tensor("z", (*lead, ny, nx), dtype=h.torch.float32)
    sx, sy = h.real("sx", lo=0, hi=0.5), h.real("sy", lo=0, hi=0.5)
    f = h.freeze(z)
    m = h.must("construct", h.call(h.fn(S2), x, y, kx, ky, sx, sy, x2 if wx else xo,
                                   y2 if wy else yo))
    if again:
        h.must("with other coordinates", h.call(m, z, x2, y2))
    k = {}
    if wx:
        k["x_out"] = xo
    if wy:
        k["y_out"] = yo
    r = h.must("forward", h.call(m, z, **k))
    L = (1,) * (4 - nd) + lead
    h.shape_eq("image", r, (*L, qy, qx))

    def fit(x, n, k, s, xo):
        t = m.generate_fitpack_knots(x, k)
        B = m.bspline_basis_natural(x, k, t)
        return B, B.T @ B + s * h.torch.eye(n), m.bspline_basis_natural(
            xo.clamp(x[0], x[n - 1]), k, t)

    Bx, Ax, Ox = fit(x, nx, kx, sx, xo)
    By, Ay, Oy = fit(y, ny, ky, sy, yo)
    full = z.reshape(*L, ny, nx)
    E = h.torch.linalg.solve(Ay, h.torch.einsum("ij,bcik,kl->bcjl", By, full, Bx))
    C = h.torch.linalg.solve(Ax, E.mT)  # ... x, y
    h.each("value", (*L, qy, qx), lambda b, c, i, j: h.same(h.at(r, b, c, i, j), h.sum(
        ny, lambda q: h.sum(nx, lambda p: h.at(Oy, i, q) * h.at(C, b, c, p, q) * h.at(Ox, j, p)))))
    h.frame("data", f)


@contract("C24", [S1 + ".forward", S2 + ".forward", S1 + "._validate_inputs",
                  S2 + "._validate_inputs"],
          cases=[dict(dim=d, why=w) for d in (1, 2) for w in ("few", "no x", "rank", "size")] +
          [dict(dim=2, why=w) for w in ("few y", "no y", "low rank", "size y")])
def refuses(h, dim, why):
    """too few points for the degree, output coordinates neither given before nor now, more
    than four dimensions, data that does not fit the coordinates"""
    k = h.choice("k", [1, 2, 3])
    stubs(h)
    nx, ny = (h.int(n, k + 2, span=4) for n in ("nx", "ny"))
    if why == "few":
        nx = h.int("few", 2, k + 1)
    if why == "few y":
        ny = h.int("few", 2, k + 1)
    x, y, o = grid(h, "x", nx), grid(h, "y", ny), grid(h, "o", 3)
    kx = {} if why == "no x" else dict(x_out=o)
    if dim == 2 and why != "no y":
        kx["y_out"] = o
    late = h.choice("late", [False, True])
    out = h.call(h.fn(S1), x, k, **({} if late else kx)) if dim == 1 else h.call(
        h.fn(S2), x, y, k, k, **({} if late else kx))
    if why.startswith("few"):
        h.ok("refused", out.raised(ValueError))
        return
    m = h.must("construct", out)
    lead = h.choice("lead", {"rank": [(1, 2, 3), (2, 1, 1)], "low rank": [()]}.get(
        why, [(2,), (2, 2), ()]))
    d = h.int("d", -2, 3)
    if why in ("size", "size y"):
        h.assume(d != 0)
        h.assume((nx if why == "size" else ny) + d > 0)
    sh = (*lead, *((ny + (d if why == "size y" else 0),) if dim == 2 or why == "rank" else ()),
          nx + (d if why == "size" else 0))
    if why == "low rank":
        sh = (nx,)
    z = h.tensor("z", sh, dtype=h.torch.float32)
    h.ok("refused", h.call(m, z, **(kx if late else {})).raised(ValueError))


@contract("C24", [S1, S2], cases=[dict(kx=a, ky=b) for a in (1, 2, 3) for b in (1, 2, 3)],
          bounded="sampled grids of up to 14 points, degrees 1 to 3, no regularization, against "
          "scipy's interpolating B-spline of the same knots; tolerance 1%", samples=12)
def interpolates(h, kx, ky):
    """the spline of the stated degree and knots through the data, constant beyond the ends"""
    from scipy.interpolate import make_interp_spline

    nx, ny = h.int("nx", kx + 2, span=10), h.int("ny", ky + 2, span=10)
    x, y = grid(h, "x", nx), grid(h, "y", ny)
    z = h.tensor("z", (2, ny, nx), dtype=torch.float32)
    lo, hi = float(x[0]), float(x[-1])
    xo = torch.cat([torch.tensor([lo - 1, lo, hi, hi + 2]),
                    lo + (hi - lo) * h.tensor("fx", (5,), lo=0, hi=1)]).float()
    yo = (y[0] + (y[-1] - y[0]) * h.tensor("fy", (4,), lo=0, hi=1)).float()

    def ref(x, k, v, o):
        x = x.double().numpy()
        inner = [x[1 + i:1 + i + k].mean() for i in range(len(x) - k - 1)]
        t = np.concatenate([[x[0]] * (k + 1), inner, [x[-1]] * (k + 1)])
        B = make_interp_spline(x, np.moveaxis(v, -1, 0), k=k, t=t)
        return np.moveaxis(B(np.clip(o.double().numpy(), x[0], x[-1])), 0, -1)

    zd = z.double().numpy()
    one = ref(x, kx, zd, xo)
    two = np.swapaxes(ref(y, ky, np.swapaxes(one, -1, -2), yo), -1, -2)
    tol = lambda a: 0.02 * (1 + abs(a).max())
    m = h.fn(S1)(x, kx, 0.0, xo)
    h.ok("along one axis", bool(np.abs(m(z)[0].numpy() - one).max() < tol(one)))
    m = h.fn(S1)(x, kx)
    h.ok("through the data", bool(np.abs(m(z, x)[0].numpy() - zd).max() < tol(zd)))
    m = h.fn(S2)(x, y, kx, ky, 0.0, 0.0, xo, yo)
    h.ok("along both axes", bool(np.abs(m(z)[0].numpy() - two).max() < tol(two)))
