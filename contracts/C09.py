"""C09: integrators: moving average and bounded leaky accumulation."""
from dv.harness import contract

IN = "ml4gw.transforms.integrator"
TO, LE = IN + ":TophatIntegrator", IN + ":LeakyIntegrator"
LEAD = {1: (), 2: ("B",), 3: ("B", "C")}


def data(h, nd, T, **k):
    lead = tuple(h.int(n, 1, span=3) for n in LEAD[nd])
    x = h.tensor("x", (*lead, T), **k)
    return lead, x, h.freeze(x)


@contract("C09", [TO + ".__init__", TO + ".forward"], cases=[dict(nd=n) for n in (1, 2, 3)])
def tophat(h, nd):
    """output t is the mean over the window of the samples t-W+1..t, samples before the
    start counting as zero, W = sample_rate * length + 1"""
    sr, ln = h.int("sample_rate", 1, span=6), h.int("length", 0, span=3)
    T = h.int("T", 1, span=30)
    W = sr * ln + 1
    m = h.must("construct", h.call(h.fn(TO), sr, ln))
    lead, x, fx = data(h, nd, T, dtype=h.torch.float32)
    y = h.must("forward", h.call(m.forward, x))
    h.shape_eq("output", y, (*lead, T))
    h.each("moving average", (*lead, T), lambda *i: h.same(h.at(y, *i), h.sum(
        W, lambda k: h.ite(i[-1] - (W - 1) + k >= 0, lambda: h.at(x, *i[:-1], i[-1] - (W - 1) + k),
                           lambda: 0)) / W))
    h.frame("input", fx)


@contract("C09", [LE + ".__init__", LE + ".forward"],
          cases=[dict(nd=n, mode=m) for n in (1, 2, 3) for m in ("count", "score")])
def leaky(h, nd, mode):
    """y(0) = max(d(0), bound), y(t) = max(y(t-1) + d(t), bound): d the increment where the
    threshold is reached and minus the decay elsewhere"""
    thr, dec, lb = (h.real(n, grid=0.5) for n in ("threshold", "decay", "bound"))
    T = h.int("T", 1, span=25)
    m = h.must("construct", h.call(h.fn(LE), thr, dec, lb, mode))
    lead, x, fx = data(h, nd, T, grid=0.5)
    y = h.must("forward", h.call(m.forward, x))
    h.shape_eq("output", y, (*lead, T))

    def d(*i):
        v = h.at(x, *i)
        return h.ite(v >= thr, 1 if mode == "count" else v, -dec)

    def mx(a, b):
        return h.ite(a >= b, a, b)

    h.each("starts from zero", lead, lambda *i: h.same(h.at(y, *i, 0), mx(d(*i, 0), lb)))
    h.each("recurrence", (*lead, T - 1), lambda *i: h.same(
        h.at(y, *i[:-1], i[-1] + 1), mx(h.at(y, *i) + d(*i[:-1], i[-1] + 1), lb)))
    h.frame("input", fx)


@contract("C09", [LE + ".__init__"], cases=[dict(mode=m) for m in ("sum", "Count", "", None)])
def refuses_unknown_mode(h, mode):
    out = h.call(h.fn(LE), h.real("thr"), h.real("decay"), h.real("bound"), mode)
    h.ok("refused", out.raised(ValueError))
