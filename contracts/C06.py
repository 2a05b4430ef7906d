"""C06: streaming snapshots equal windows of the concatenated stream."""
from dv.harness import contract

SN = "ml4gw.nn.streaming.snapshotter:Snapshotter"
TG = [SN + ".__init__", SN + ".get_initial_state", SN + ".forward",
      "ml4gw.utils.slicing:unfold_windows"]


def sizes(h, groups, batch):
    size = h.int("size", 1, span=14)
    stride = h.int("stride", 1, span=7)
    h.assume(stride < size)
    B = 1 if batch == 1 else h.int("B", 2, span=4)
    if groups is None:
        C = h.int("C", 1, span=4)
        return size, stride, B, C, None
    g = [h.int(f"g{i}", 1, span=3) for i in range(groups)]
    return size, stride, B, sum(g), g


def check_out(h, outs, groups, g, C, B, size, win):
    """outs: snapshots (by channel group); win(i, c, k) = expected sample"""
    if groups is None:
        h.eq("one tensor of snapshots and the state", len(outs), 2)
        h.shape_eq("snapshots", outs[0], (B, C, size))
        h.each("snapshot samples", (B, C, size), lambda i, c, k: h.same(
            h.at(outs[0], i, c, k), win(i, c, k)))
    else:
        h.eq("one tensor per channel group and the state", len(outs), groups + 1)
        off = 0
        for q in range(groups):
            o = off
            h.shape_eq(f"group {q}", outs[q], (B, g[q], size))
            h.each(f"group {q} samples", (B, g[q], size), lambda i, c, k: h.same(
                h.at(outs[q], i, c, k), win(i, c + o, k)))
            off = off + g[q]


@contract("C06", TG, cases=[dict(groups=g, batch=b) for g in (None, 1, 2, 3) for b in (1, 2)])
def step(h, groups, batch):
    """induction step: if the state holds the last (size - stride) samples of the stream,
    the snapshots are the windows ending at each further stride, and the new state holds
    the last samples again. off = any position in the stream"""
    size, stride, B, C, g = sizes(h, groups, batch)
    S = size - stride
    off = h.int("off", 0, span=10)
    N = off + S + B * stride
    x = h.tensor("stream", (C, N))
    state, upd = x[:, off:off + S], x[:, off + S:]
    m = h.must("construct", h.call(h.fn(SN), C, size, stride, B, g))
    fx = h.freeze(x)
    outs = h.must("forward", h.call(m.forward, upd, state))
    check_out(h, outs, groups, g, C, B, size, lambda i, c, k: h.at(x, c, off + i * stride + k))
    h.shape_eq("state", outs[-1], (C, S))
    h.each("new state is the end of the stream", (C, S), lambda c, k: h.same(
        h.at(outs[-1], c, k), h.at(x, c, N - S + k)))
    h.frame("stream", fx)


@contract("C06", TG, cases=[dict(batch=b, default=d) for b in (1, 2) for d in (0, 1)])
def start(h, batch, default):
    """base: streaming starts from a state of zeros, whether given or defaulted"""
    size, stride, B, C, g = sizes(h, None, batch)
    S = size - stride
    m = h.must("construct", h.call(h.fn(SN), C, size, stride, B))
    s0 = h.must("initial state", h.call(m.get_initial_state))
    h.shape_eq("initial state", s0, (C, S))
    h.each("initial state is zero", (C, S), lambda c, k: h.same(h.at(s0, c, k), 0))
    x = h.tensor("x", (C, B * stride))
    outs = h.must("forward", h.call(m.forward, x) if default else h.call(m.forward, x, s0))
    check_out(h, outs, None, g, C, B, size, lambda i, c, k: h.ite(
        i * stride + k < S, 0, lambda: h.at(x, c, i * stride + k - S)))


@contract("C06", TG, cases=[dict(batch=b) for b in (1, 2)])
def history(h, batch):
    """three updates in sequence, threading the state: windows of the whole stream"""
    size, stride, B, C, g = sizes(h, None, batch)
    S, U = size - stride, B * stride
    m = h.must("construct", h.call(h.fn(SN), C, size, stride, B))
    x = h.tensor("x", (C, 3 * U))
    st = None
    for n in range(3):
        *outs, st = h.must("forward", h.call(m.forward, x[:, n * U:(n + 1) * U], st))
        check_out(h, list(outs) + [st], None, g, C, B, size, lambda i, c, k: h.ite(
            n * U + i * stride + k < S, 0, lambda: h.at(x, c, n * U + i * stride + k - S)))


@contract("C06", [SN + ".__init__"], cases=[dict(which=w) for w in ("stride", "groups")])
def refusals(h, which):
    size, stride = h.int("size", 1, span=9), h.int("stride", 1, span=9)
    C = h.int("C", 1, span=5)
    if which == "stride":
        h.assume(stride >= size)
        o = h.call(h.fn(SN), C, size, stride, 2)
    else:
        h.assume(stride < size)
        g = [h.int(f"g{i}", 1, span=3) for i in range(2)]
        h.assume(g[0] + g[1] != C)
        o = h.call(h.fn(SN), C, size, stride, 2, g)
    h.ok("ValueError", o.raised(ValueError))
