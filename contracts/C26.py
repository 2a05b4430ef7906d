"""C26: group normalization of timeseries."""
from dv.harness import contract

N = "ml4gw.nn.norm"
GN, G1, G2 = N + ":GroupNorm1D", N + ":GroupNorm1DGetter", N + ":GroupNorm2DGetter"


def check(h, m, C, G, eps, x, B, T):
    """y = weight * (x - mean) / sqrt(variance + eps) + bias, statistics over the channels of
    the group and all samples"""
    P = C // G
    w, b = h.tensor("weight", (C, 1)), h.tensor("bias", (C, 1))
    m.weight.data.copy_(w)
    m.bias.data.copy_(b)
    fx = h.freeze(x)
    y = h.must("forward", h.call(m.forward, x))
    h.shape_eq("output", y, (B, C, T))

    def stat(i, g, f):
        return h.sum(P, lambda p: h.sum(T, lambda t: f(h.at(x, i, g * P + p, t))) / T) / P

    def spec(i, c, t):
        g = c // P
        mean = stat(i, g, lambda v: v)
        var = stat(i, g, lambda v: v * v) - mean * mean
        return h.div((h.at(x, i, c, t) - mean), h.sqrt(var + eps)) * h.at(w, c, 0) + h.at(b, c, 0)

    h.each("normalized", (B, C, T), lambda *q: h.same(h.at(y, *q), spec(*q)))
    h.frame("input", fx)


@contract("C26", [GN + ".__init__", GN + ".forward"],
          cases=[dict(kind=k) for k in ("instance", "none", "layer", 2, 3, "wide 2", "wide 3", "any")],
          tol=dict(rtol=1e-3, atol=1e-4))
def normalized(h, kind):
    B, T = h.int("B", 1, span=3), h.int("T", 1, span=8)
    eps = h.real("eps", pos=(0.01, 1))
    if kind in ("instance", "none"):
        C = h.int("C", 1, span=5)
        args, G = ((C,) if kind == "none" else (C, C)), C
    elif kind == "layer":
        C = h.int("C", 2, span=4)
        args, G = (C, 1), 1
    elif kind == "any":
        G, P = h.int("G", 2, span=4), h.int("P", 2, span=30)
        C = G * P
        args = (C, G)
    elif isinstance(kind, str):
        G = int(kind[-1])
        C = G * h.int("P", 2, span=20)
        args = (C, G)
    else:
        G = h.int("G", 2, span=2)
        C = G * kind
        args = (C, G)
    m = h.must("construct", h.call(h.fn(GN), *args, eps=eps))
    h.shape_eq("weight", m.weight, (C, 1))
    h.each("weight starts at one", (C,), lambda c: h.same(h.at(m.weight, c, 0), 1))
    h.each("bias starts at zero", (C,), lambda c: h.same(h.at(m.bias, c, 0), 0))
    check(h, m, C, G, eps, h.tensor("x", (B, C, T)), B, T)


@contract("C26", [GN + ".__init__", GN + ".forward"], cases=[dict(why=w) for w in ("groups", "rank")])
def refuses(h, why):
    """a number of groups that does not divide the channels; input that is not 3-dimensional"""
    C = h.int("C", 1, span=8)
    if why == "groups":
        G = h.int("G", 1, span=10)
        h.assume(C % G != 0)
        h.ok("refused", h.call(h.fn(GN), C, G).raised(ValueError))
        return
    m = h.must("construct", h.call(h.fn(GN), C))
    for s in ((C,), (C, 3), (1, C, 3, 2)):
        h.ok("refused", h.call(m.forward, h.tensor(f"x{len(s)}", s)).raised(ValueError))


@contract("C26", [G1 + ".__init__", G1 + ".__call__", GN], cases=[dict(given=g) for g in (0, 1)])
def getter(h, given):
    """groups are capped at the number of channels; one per channel by default"""
    C = h.int("C", 1, span=8)
    G = h.int("groups", 1, span=8) if given else None
    g = h.fn(G1)(G) if given else h.fn(G1)()
    want = C if not given or bool(G >= C) else G
    h.assume(True if want is C else C % G == 0)
    m = h.must("make", h.call(g, C))
    h.ok("type", type(m).__name__ == "GroupNorm1D")
    h.ok("channels", h.same(m.num_channels, C))
    h.ok("groups", h.same(m.num_groups, want))
    g2 = h.fn(G2)(G) if given else h.fn(G2)()
    m2 = h.must("make 2d", h.call(g2, C))
    h.ok("2d type", type(m2).__name__ == "GroupNorm")
    h.ok("2d channels", h.same(m2.num_channels, C))
    h.ok("2d groups", h.same(m2.num_groups, want))
