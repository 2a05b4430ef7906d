"""C25: Pearson correlation over time shifts."""
from dv.harness import contract

PC = "ml4gw.transforms.pearson:ShiftedPearsonCorrelation"
UW = "ml4gw.utils.slicing:unfold_windows"


@contract("C25", [PC + ".__init__", PC + ".forward", PC + "._shape_checks", UW],
          cases=[dict(nx=n, ny=m) for n in (1, 2, 3) for m in range(1, n + 1)],
          tol=dict(rtol=1e-4, atol=1e-5))
def correlation(h, nx, ny):
    """entry w is the correlation coefficient of y with x advanced by w - max_shift samples
    (zeros where x ends); y is shared along its missing leading dimensions"""
    S, T = h.int("max_shift", 0, span=5), h.int("T", 2, span=10)
    lead = tuple(h.int(n, 1, span=3) for n in ("B", "C"))[3 - nx:]
    x = h.tensor("x", lead + (T,))
    y = h.tensor("y", lead[nx - ny:] + (T,))
    frs = h.freeze(x), h.freeze(y)
    m = h.must("construct", h.call(h.fn(PC), S))
    out = h.must("forward", h.call(m.forward, x, y))
    W = 2 * S + 1
    h.shape_eq("correlation", out, (W,) + lead)

    def spec(w, *q):
        def xs(t):
            s = t + w - S
            return h.ite(h.and_(s >= 0, s < T), lambda: h.at(x, *q, s), lambda: 0)

        ys = lambda t: h.at(y, *q[nx - ny:], t)
        mx, my = h.sum(T, xs) / T, h.sum(T, ys) / T
        cov = h.sum(T, lambda t: (xs(t) - mx) * (ys(t) - my))
        vx = h.sum(T, lambda t: (xs(t) - mx) * (xs(t) - mx))
        vy = h.sum(T, lambda t: (ys(t) - my) * (ys(t) - my))
        if not h.sym and vx * vy < 1e-6:
            return None
        return h.div(cov, h.sqrt(vx * vy))

    def cmp(w, *q):
        s = spec(w, *q)
        return True if s is None else h.same(h.at(out, w, *q), s)

    h.each("coefficient", (W,) + lead, cmp)
    for f, n in zip(frs, "xy"):
        h.frame(n, f)


@contract("C25", [PC + ".forward", PC + "._shape_checks"],
          cases=[dict(why=w, nx=n, ny=m) for n in (1, 2, 3) for m in range(1, n + 1)
                 for w in ("time", "channel", "batch") if
                 w == "time" or m > 1 and w == "channel" or m > 2] +
          [dict(why="rank", nx=n, ny=n + 1) for n in (1, 2)] + [dict(why="four", nx=4, ny=1)])
def refuses(h, why, nx, ny):
    """more dimensions than three, a second series of higher rank, or one of another size"""
    full = [h.int(n, 1, span=3) for n in ("A", "B", "C")] + [h.int("T", 2, span=6)]
    sx, sy = full[4 - nx:], full[4 - ny:]
    if why in ("time", "channel", "batch"):
        k = {"time": -1, "channel": -2, "batch": -3}[why]
        d = h.int("other", 1, span=6)
        h.assume(d != sx[k])
        sy = list(sy)
        sy[k] = d
    m = h.must("construct", h.call(h.fn(PC), h.int("S", 0, span=3)))
    out = h.call(m.forward, h.tensor("x", tuple(sx)), h.tensor("y", tuple(sy)))
    h.ok("refused", out.raised(ValueError))
