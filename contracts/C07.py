"""C07: online averaging returns the mean of the predictions covering each time step."""
from dv.harness import contract

OA = "ml4gw.nn.streaming.online_average:OnlineAverager"
TG = [OA + ".__init__", OA + ".get_initial_state", OA + ".forward",
      "ml4gw.utils.slicing:unfold_windows"]


def setup(h, off, B, n):
    U = h.int("U", 1, span=4)
    C = h.int("C", 1, span=3)
    B = B or h.int("B", 1, span=4)
    n = n or h.int("n", 1, span=4)
    o = {"none": None, "zero": 0}.get(off) if off != "pos" else h.int("offset", 1, span=6)
    o_ = 0 if o is None else o
    L = n * U + o_ + h.int("slack", 0, span=5)
    m = h.must("construct", h.call(h.fn(OA), U, B, n, C, o))
    return m, U, C, B, n, o_, L


@contract("C07", TG, cases=[dict(off=o, B=b, n=n) for o in ("none", "zero", "pos")
                            for b, n in ((1, 1), (1, 3), (2, 2), (3, 1), (3, 2), (2, 4), (4, 3), (1, 8),
                                         (8, 1), (6, 6), (5, 7), (7, 5))])
def step(h, off, B, n):
    """from any state: output step s is the incoming partial sum for that step plus 1/n of
    each prediction of this batch covering it; the new state is the partial sums of the
    steps after the batch (batch size and number of updates enumerated, all sizes symbolic)"""
    m, U, C, B, n, off, L = setup(h, off, B, n)
    x = h.tensor("x", (B, C, L), dtype=h.torch.float32)
    st = h.tensor("state", (C, (n - 1) * U), dtype=h.torch.float32)
    fx, fs = h.freeze(x), h.freeze(st)
    out, new = h.must("forward", h.call(m.forward, x, st))

    def total(c, s, u):
        v = h.at(st, c, s * U + u) if s < n - 1 else 0
        for i in range(B):
            if 0 <= s - i < n:
                v = v + h.at(x, i, c, L - off - n * U + (s - i) * U + u) / n
        return v

    h.shape_eq("output", out, (C, B * U))
    h.shape_eq("state", new, (C, (n - 1) * U))
    for s in range(B):
        h.each(f"output step {s}", (C, U), lambda c, u: h.same(h.at(out, c, s * U + u),
                                                             total(c, s, u)))
    for s in range(n - 1):
        h.each(f"state step {s}", (C, U), lambda c, u: h.same(h.at(new, c, s * U + u),
                                                            total(c, B + s, u)))
    h.frame("update", fx)
    h.frame("state", fs)


@contract("C07", TG, cases=[dict(off=o, default=d) for o in ("none", "pos") for d in (0, 1)])
def history(h, off, default):
    """three calls threading the state from the start: every returned step is the sum of
    the predictions covering it divided by the number of updates"""
    m, U, C, B, n, off, L = setup(h, off, 2, 3)
    s0 = h.must("initial", h.call(m.get_initial_state))
    h.shape_eq("initial state", s0, (C, (n - 1) * U))
    h.each("initial state is zero", (C, (n - 1) * U), lambda c, k: h.same(h.at(s0, c, k), 0))
    xs = [h.tensor(f"x{i}", (B, C, L), dtype=h.torch.float32) for i in range(3)]
    st = None if default else s0
    for q in range(3):
        out, st = h.must("forward", h.call(m.forward, xs[q], st))
        for s in range(B):
            def want(c, u):
                g = q * B + s
                v = 0
                for i in range(max(0, g - n + 1), g + 1):
                    v = v + h.at(xs[i // B], i % B, c, L - off - n * U + (g - i) * U + u)
                return v / n

            h.each(f"call {q} step {s}", (C, U), lambda c, u: h.same(
                h.at(out, c, s * U + u), want(c, u)))


@contract("C07", TG, cases=[dict(off=o) for o in ("none", "zero", "pos")], timeout_ms=15000)
def sizes(h, off):
    """shapes for every batch size and number of updates"""
    m, U, C, B, n, off, L = setup(h, off, None, None)
    x = h.tensor("x", (B, C, L), dtype=h.torch.float32)
    out, new = h.must("forward", h.call(m.forward, x, h.tensor("state", (C, (n - 1) * U), dtype=h.torch.float32)))
    h.shape_eq("output", out, (C, B * U))
    h.shape_eq("state", new, (C, (n - 1) * U))


@contract("C07", TG, cases=[dict(off=o) for o in ("none", "pos")])
def weights(h, off):
    """the in-batch weight of a step is the number of predictions of the batch covering it,
    for every batch size and number of updates"""
    m, U, C, B, n, off, L = setup(h, off, None, h.int("n", 2, span=4))
    h.each("weights", (B, C, n * U), lambda b, c, k: h.same(h.at(m.weights, b, c, k), h.sum(
        B, lambda i: h.ite(h.and_(b + k // U - i >= 0, b + k // U - i < n), 1, 0))))
