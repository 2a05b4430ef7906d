"""C01: windowing returns exactly the addressed samples."""
import torch as _t

from dv.harness import contract

SL = "ml4gw.utils.slicing"


@contract("C01", [f"{SL}:unfold_windows"],
          cases=[dict(nd=n, drop=d) for n in (1, 2, 3) for d in (True, False)])
def unfold_windows(h, nd, drop):
    """window w holds samples w*stride .. w*stride+size-1 of every batch/channel;
    number of windows is the largest that fits; remainder is the unread tail"""
    f = h.fn(f"{SL}:unfold_windows")
    T = h.int("T", 1, span=40)
    win = h.int("win", 1, span=12)
    stride = h.int("stride", 1, span=9)
    h.assume(win <= T)
    lead = []
    if nd > 1:
        lead.append(h.int("C", 1, span=3))
    if nd > 2:
        lead.insert(0, h.int("Bt", 1, span=3))
    x = h.tensor("x", (*lead, T))
    fr = h.freeze(x)
    out = h.must("unfold", h.call(f, x, win, stride, drop_last=drop))
    nw = (T - win) // stride + 1
    if drop:
        y = out
    else:
        h.ok("returns a (windows, remainder) pair", isinstance(out, tuple) and len(out) == 2)
        y, rem = out
    h.shape_eq("windows", y, (nw, *lead, win))
    h.each("window w, sample k is x[..., w*stride+k]", (nw, *lead, win),
           lambda w, *r: h.same(h.at(y, w, *r), h.at(x, *r[:-1], w * stride + r[-1])))
    if not drop:
        used = win + (nw - 1) * stride
        h.shape_eq("remainder", rem, (1, *lead, T - used))
        h.each("remainder is the tail after the last window", (1, *lead, T - used),
               lambda b, *r: h.same(h.at(rem, b, *r), h.at(x, *r[:-1], used + r[-1])))
    h.frame("input", fr)


@contract("C01", [f"{SL}:slice_kernels"], cases=[dict(mode=m) for m in ("1-1", "2-1", "2-2", "3-1")])
def slice_kernels(h, mode):
    """kernel b, channel c, sample k is x[.., idx[b(,c)] + k]"""
    f = h.fn(f"{SL}:slice_kernels")
    T = h.int("T", 1, span=40)
    k = h.int("k", 1, span=10)
    N = h.int("N", 1, span=4)
    h.assume(k <= T)
    C = h.int("C", 1, span=3)
    I = dict(dtype=_t.int64, lo=0, hi=T - k)
    if mode == "1-1":
        x, idx = h.tensor("x", (T,)), h.tensor("idx", (N,), **I)
        sh, src = (N, k), lambda b, j: h.at(x, h.at(idx, b) + j)
    elif mode == "2-1":
        x, idx = h.tensor("x", (C, T)), h.tensor("idx", (N,), **I)
        sh, src = (N, C, k), lambda b, c, j: h.at(x, c, h.at(idx, b) + j)
    elif mode == "2-2":
        x, idx = h.tensor("x", (C, T)), h.tensor("idx", (N, C), **I)
        sh, src = (N, C, k), lambda b, c, j: h.at(x, c, h.at(idx, b, c) + j)
    else:
        x, idx = h.tensor("x", (N, C, T)), h.tensor("idx", (N,), **I)
        sh, src = (N, C, k), lambda b, c, j: h.at(x, b, c, h.at(idx, b) + j)
    fx, fi = h.freeze(x), h.freeze(idx)
    y = h.must("slice", h.call(f, x, idx, k))
    h.shape_eq("kernels", y, sh)
    h.each("kernel samples are the addressed samples", sh,
           lambda *i: h.same(h.at(y, *i), src(*i)))
    h.frame("input", fx)
    h.frame("indices", fi)


@contract("C01", [f"{SL}:slice_kernels"],
          cases=[dict(nx=a, ni=b) for a, b in ((1, 2), (2, 3), (3, 2), (4, 1))])
def slice_kernels_rank_errors(h, nx, ni):
    """rank combinations that address nothing are refused, not guessed"""
    f = h.fn(f"{SL}:slice_kernels")
    T = h.int("T", 3, span=10)
    k = h.int("k", 1, span=3)
    h.assume(k < T)
    d = [h.int(f"d{i}", 1, span=3) for i in range(3)]
    x = h.tensor("x", (*d[:nx - 1], T))
    n = [h.int(f"n{i}", 1, span=3) for i in range(3)]
    idx = h.tensor("idx", tuple(n[:ni]), dtype=_t.int64, lo=0, hi=T - k)
    out = h.call(f, x, idx, k)
    h.ok("raises ValueError", out.raised(ValueError))


@contract("C01", [f"{SL}:slice_kernels"], cases=[dict(mode=m) for m in ("2-2", "3-1")])
def slice_kernels_size_errors(h, mode):
    """an index tensor whose size does not match channels/batch is refused"""
    f = h.fn(f"{SL}:slice_kernels")
    T = h.int("T", 3, span=10)
    k = h.int("k", 1, span=3)
    h.assume(k < T)
    A, Bn, C = h.int("A", 1, span=4), h.int("B", 1, span=4), h.int("C", 1, span=4)
    h.assume(A != Bn)
    if mode == "2-2":
        x = h.tensor("x", (A, T))
        idx = h.tensor("idx", (C, Bn), dtype=_t.int64, lo=0, hi=T - k)
    else:
        x = h.tensor("x", (A, C, T))
        idx = h.tensor("idx", (Bn,), dtype=_t.int64, lo=0, hi=T - k)
    out = h.call(f, x, idx, k)
    h.ok("raises ValueError", out.raised(ValueError))
