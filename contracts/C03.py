"""C03: the in-memory dataset iterates exactly the documented windows."""
import torch as _t

from dv.harness import contract

MD = "ml4gw.dataloading.in_memory_dataset:InMemoryDataset"
TG = [MD + "." + m for m in ("__init__", "num_kernels", "__len__", "init_indices", "__iter__")] + [
    "ml4gw.utils.slicing:slice_kernels"]
OWN = 4096


def make(h, C, ypresent, epoch, **kw):
    T = h.int("T", 1, span=40)
    k = h.int("k", 1, span=8)
    h.assume(k <= T)
    s = h.int("stride", 1, span=5)
    B = h.int("B", 1, span=6)
    K = (T - k) // s + 1
    P = None
    if epoch:
        P = h.int("P", 1, span=5)
        h.assume(B * P <= K)
    x = h.tab((C, T), lambda c, t: t + OWN * c, _t.float32)
    y = h.tab((T,), lambda t: 5 * t + 7, _t.float32) if ypresent else None
    ds = h.must("construct", h.call(h.fn(MD), x, k, y=y, batch_size=B, stride=s,
                                    batches_per_epoch=P, **kw))
    n = P if epoch else (K - 1) // B + 1
    total = B * P if epoch else K
    return ds, T, k, s, B, K, n, total, x, y


@contract("C03", TG, cases=[dict(yp=y, epoch=e, shuffle=s) for y in (0, 1) for e in (0, 1)
                            for s in (0, 1)])
def coincident(h, yp, epoch, shuffle):
    """batch i, element j is the window starting at stride*p(i*B+j), p = identity or a
    random permutation of all windows; same samples for the target; lengths as documented"""
    C = h.int("C", 1, span=3)
    ds, T, k, s, B, K, n, total, x, y = make(h, C, yp, epoch, shuffle=bool(shuffle))
    h.eq("number of windows", ds.num_kernels, K)
    h.eq("number of batches", h.must("len", h.call(type(ds).__len__, ds)), n)
    seen = []
    fx = h.freeze(x)

    def item(i, it):
        b = h.ite(i == n - 1, total - i * B, B)
        if yp:
            h.ok("yields a pair", isinstance(it, tuple) and len(it) == 2)
            it, yy = it
            h.shape_eq("target batch", yy, (b, k))
            h.each("target window is aligned", (b, k), lambda j, m: h.same(
                h.at(yy, j, m), 5 * h.at(it, j, 0, m) + 7))
        h.shape_eq("batch", it, (b, C, k))
        h.each("window contents", (b, C, k), lambda j, c, m: h.same(
            h.at(it, j, c, m), h.at(it, j, 0, 0) + m + OWN * c))
        if not shuffle:
            h.each("windows in order", (b,), lambda j: h.same(
                h.at(it, j, 0, 0), (i * B + j) * s))
        elif h.sym:
            p = h.perm("shuffle", K)
            h.each("window p(iB+j)", (b,), lambda j: h.same(
                h.at(it, j, 0, 0), h.at(p, i * B + j) * s))
        else:
            seen.extend(int(v) for v in it[:, 0, 0])

    h.drive("batches", iter(ds), n, item)
    if not h.sym and shuffle:
        h.ok("no window repeats", len(set(seen)) == len(seen))
        h.ok("starts are multiples of the stride inside the data",
             all(v % s == 0 and 0 <= v <= (K - 1) * s for v in seen))
        h.ok("as many windows as promised", len(seen) == total)
    h.frame("data", fx)


@contract("C03", TG, cases=[{}])
def independent_random(h):
    """non-coincident shuffling: one start per window and channel, each a draw from all
    windows"""
    C = h.int("C", 1, span=3)
    ds, T, k, s, B, K, n, total, x, y = make(h, C, 0, True, coincident=False)
    if h.sym:
        idx = h.must("indices", h.call(type(ds).init_indices, ds))
        h.shape_eq("indices", idx, (total, C))
        h.support("window index", idx, 0, K)

    def item(i, it):
        h.shape_eq("batch", it, (B, C, k))
        h.each("windows", (B, C, k), lambda j, c, m: h.same(
            h.at(it, j, c, m), h.at(it, j, c, 0) + m))

        def mult(v):
            if not h.sym:
                return v % s == 0
            d = h.draws(v)
            return h.same(v, d[0] * s) if len(d) == 1 else h.same(v % s, 0)

        h.each("starts are multiples of the stride", (B, C), lambda j, c: mult(
            h.at(it, j, c, 0) - OWN * c))
        h.each("windows inside the data", (B, C), lambda j, c: h.and_(
            h.at(it, j, c, 0) - OWN * c >= 0, h.at(it, j, c, 0) - OWN * c + k <= T))

    h.drive("batches", iter(ds), n, item)


@contract("C03", TG, cases=[dict(C=c) for c in (1, 2, 3)])
def independent_ordered(h, C):
    """non-coincident in order: the odometer over windows, last channel fastest"""
    ds, T, k, s, B, K, n, total, x, y = make(h, C, 0, True, coincident=False, shuffle=False)

    def digit(q, c):
        for _ in range(C - 1 - c):
            q = q // K
        return q if c == 0 else q % K

    def item(i, it):
        h.shape_eq("batch", it, (B, C, k))
        h.each("window digits", (B, C), lambda j, c: h.same(
            h.at(it, j, c, 0), digit(i * B + j, c) * s + OWN * c))
        h.each("windows", (B, C, k), lambda j, c, m: h.same(
            h.at(it, j, c, m), h.at(it, j, c, 0) + m))

    h.drive("batches", iter(ds), n, item)


@contract("C03", [MD + ".__init__"], cases=[dict(which=w) for w in ("len", "coinc", "noP", "few")])
def refusals(h, which):
    """inconsistent requests are refused at construction"""
    T, k = h.int("T", 2, span=20), h.int("k", 1, span=6)
    h.assume(k <= T)
    C, s, B, P = (h.int(n, 1, span=4) for n in ("C", "stride", "B", "P"))
    x = h.tensor("x", (C, T), _t.float32)
    f = h.fn(MD)
    if which == "len":
        M = h.int("M", 1, span=20)
        h.assume(M != T)
        o = h.call(f, x, k, y=h.tensor("y", (M,), _t.float32))
    elif which == "coinc":
        o = h.call(f, x, k, y=h.tensor("y", (T,), _t.float32), coincident=False,
                   batches_per_epoch=1, batch_size=1)
    elif which == "noP":
        o = h.call(f, x, k, coincident=False)
    else:
        h.assume(B * P > (T - k) // s + 1)
        o = h.call(f, x, k, stride=s, batch_size=B, batches_per_epoch=P,
                   coincident=h.bool("coincident"))
    h.ok("ValueError", o.raised(ValueError))


@contract("C03", TG, bounded="at most 10 windows per channel, 500 windows drawn", samples=10,
          cases=[dict(co=c) for c in (0, 1)])
def every_window_occurs(h, co):
    K, s, k = h.int("K", 2, 10), h.int("stride", 1, 3), h.int("k", 1, 4)
    T = (K - 1) * s + k + h.int("slack", 0, 2) % s
    x = h.tab((2, T), lambda c, t: t, _t.float32)
    h.mode = "real"
    seen = set()
    for e in range(400 // (K - K % 2) + 1):
        ds = h.fn(MD)(x, k, batch_size=2, stride=s, batches_per_epoch=max(K // 2 - co, 1), coincident=bool(co))
        for b in ds:
            seen |= {(c, int(v)) for c in range(2) for v in b[:, c, 0]}
    h.ok("every window of every channel occurs",
         seen == {(c, s * i) for c in range(2) for i in range(K)})
