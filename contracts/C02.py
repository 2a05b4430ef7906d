"""C02: random windows are drawn from exactly the documented range."""
import torch as _t

from dv.harness import contract

SL = "ml4gw.utils.slicing"


def rng(h, T, k, off):
    """documented range [lo, hi) of start samples"""
    center = T // 2
    if off is None:
        return 0, T - k
    lo = center - off - k
    return lo, h.ite(off >= 0, center, center + off)


@contract("C02", [f"{SL}:sample_kernels", f"{SL}:slice_kernels"],
          cases=[dict(nd=n, off=o, co=c, ret=r) for n in (1, 2, 3) for o in ("none", "pos", "neg")
                 for c in (True, False) for r in (True, False)
                 if not (n == 1 and o != "none") and not (n == 3 and not c)])
def sample_kernels(h, nd, off, co, ret):
    """starts are free draws from the documented range, one per window (coincident)
    or one per window and channel; the kernels are the samples at those starts;
    ranges that would leave the data are refused"""
    f = h.fn(f"{SL}:sample_kernels")
    T = h.int("T", 2, span=40)
    k = h.int("k", 1, span=8)
    h.assume(k < T)
    C = h.int("C", 1, span=3)
    N = h.int("N", 1, span=5)
    x = h.tensor("x", {1: (T,), 2: (C, T), 3: (N, C, T)}[nd])
    if off == "none":
        o = None
    else:
        o = h.int("off", 0, span=12) if off == "pos" else h.int("off", None, -1, span=8)
    lo, hi = rng(h, T, k, o)
    fx = h.freeze(x)
    out = h.call(f, x, k, N if nd < 3 else None, max_center_offset=o, coincident=co,
                 return_idx=ret)
    if o is not None:
        bad = h.or_(lo < 0, hi <= lo)
        if not out.ok:
            h.ok("refusal is a ValueError and only for impossible ranges",
                 h.and_(out.raised(ValueError), bad))
            return
        h.ok("impossible ranges are refused", h.not_(bad))
    y = h.must("sample", out)
    sh = (N, k) if nd == 1 else (N, C, k)
    if not ret:
        h.shape_eq("kernels", y, sh)
        return
    y, idx = y
    h.shape_eq("kernels", y, sh)
    h.shape_eq("indices", idx, (N,) if nd != 2 or co else (N, C))
    h.support("start", idx, lo, hi)
    at = (lambda b, c: h.at(idx, b)) if nd != 2 or co else (lambda b, c: h.at(idx, b, c))
    h.each("starts stay in the documented range", (N, C), lambda b, c: h.and_(
        at(b, c) >= lo, at(b, c) < hi))
    h.each("windows lie inside the data", (N, C), lambda b, c: h.and_(
        at(b, c) >= 0, at(b, c) + k <= T))
    src = {1: lambda b, j: h.at(x, h.at(idx, b) + j),
           2: lambda b, c, j: h.at(x, c, at(b, c) + j),
           3: lambda b, c, j: h.at(x, b, c, at(b, c) + j)}[nd]
    h.each("kernel samples are the samples at the returned start", sh,
           lambda *i: h.same(h.at(y, *i), src(*i)))
    h.frame("input", fx)


@contract("C02", [f"{SL}:sample_kernels"], cases=[dict(nd=n, ch=c) for n, c in
          ((1, False), (2, True), (2, False), (3, True))])
def content(h, nd, ch):
    """without returned indices: every window is a contiguous stretch of its source,
    starting at the same sample in all channels when coincident"""
    f = h.fn(f"{SL}:sample_kernels")
    T = h.int("T", 2, span=30)
    k = h.int("k", 1, span=6)
    h.assume(k < T)
    C, N = h.int("C", 1, span=3), h.int("N", 1, span=4)
    ramp = lambda *i: i[-1] + 1000 * (i[-2] if len(i) > 1 else 0) + 100000 * (
        i[0] if len(i) > 2 else 0)
    x = h.tab({1: (T,), 2: (C, T), 3: (N, C, T)}[nd], ramp)
    y = h.must("sample", h.call(f, x, k, N if nd < 3 else None, coincident=ch))
    sh = (N, k) if nd == 1 else (N, C, k)
    h.shape_eq("kernels", y, sh)
    if nd == 1:
        st = lambda b, c: h.at(y, b, 0)
        h.each("contiguous", sh, lambda b, j: h.same(h.at(y, b, j), h.at(y, b, 0) + j))
    else:
        own = (lambda b, c: 1000 * c) if nd == 2 else (lambda b, c: 1000 * c + 100000 * b)
        st = lambda b, c: h.at(y, b, c, 0) - own(b, c)
        h.each("contiguous, own channel (and batch element)", sh, lambda b, c, j: h.same(
            h.at(y, b, c, j), h.at(y, b, c, 0) + j))
        if ch:
            h.each("same start in all channels", (N, C), lambda b, c: h.same(st(b, c), st(b, 0)))
    h.each("inside the data", (N, C), lambda b, c: h.and_(st(b, c) >= 0, st(b, c) + k <= T))


@contract("C02", [f"{SL}:sample_kernels"], cases=[dict(which=w) for w in
          ("short", "rank", "noN", "badN")])
def refusals(h, which):
    f = h.fn(f"{SL}:sample_kernels")
    T, k = h.int("T", 1, span=12), h.int("k", 1, span=12)
    C, N = h.int("C", 1, span=3), h.int("N", 1, span=3)
    if which == "short":
        h.assume(k > T)
        for nd in (1, 2, 3):
            x = h.tensor(f"x{nd}", {1: (T,), 2: (C, T), 3: (N, C, T)}[nd])
            h.ok("too-short data refused", h.call(f, x, k, N).raised(ValueError))
        return
    h.assume(k < T)
    if which == "rank":
        h.ok("4D data refused", h.call(f, h.tensor("x", (2, N, C, T)), k, 2).raised(ValueError))
    elif which == "noN":
        h.ok("count required", h.call(f, h.tensor("x", (C, T)), k).raised(ValueError))
        h.ok("count required", h.call(f, h.tensor("x1", (T,)), k).raised(ValueError))
    else:
        M = h.int("M", 1, span=4)
        h.assume(M != N)
        h.ok("count must match batch", h.call(f, h.tensor("x", (N, C, T)), k, M).raised(ValueError))


@contract("C02", [f"{SL}:sample_kernels"], bounded="ranges of at most 12 starts, 600 real draws",
          cases=[dict(off=o, co=c) for o in ("none", "pos", "neg") for c in (True, False)],
          samples=12)
def every_start_occurs(h, off, co):
    """with the real generator, every start of the documented range occurs"""
    f = h.fn(f"{SL}:sample_kernels")
    T, k = h.int("T", 8, 30), h.int("k", 1, 8)
    o = None if off == "none" else (h.int("off", 0, 4) if off == "pos" else h.int("off", -3, -1))
    lo, hi = rng(h, T, k, o)
    h.assume(lo >= 0 and 0 < hi - lo <= 12)
    h.mode = "real"
    x = h.tab((2, T), lambda c, t: t)
    y = h.must("sample", h.call(f, x, k, 600, max_center_offset=o, coincident=co))
    for c in range(2):
        h.ok("exactly the documented starts occur",
             sorted({int(v) for v in y[:, c, 0]}) == list(range(lo, hi)))
    if not co and hi - lo > 2:
        h.ok("channels drawn independently", bool((y[:, 0, 0] != y[:, 1, 0]).any()))
