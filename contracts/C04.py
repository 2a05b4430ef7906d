"""C04: chunked sampling reads only the current chunk, whatever its size."""
import torch as _t

from dv.harness import contract

CD = "ml4gw.dataloading.chunked_dataset:ChunkedTimeSeriesDataset"
TG = [CD + ".__init__", CD + ".__len__", CD + ".__iter__"]
OWN, EL = 4096, 65536


class Chunks:
    def __init__(self, xs):
        self.xs = xs

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)


def chunk(h, i, C):
    """value of (element n, channel c, sample t) of chunk i encodes its address"""
    n = h.int(f"n{i}", 1, span=3)
    T = h.int(f"T{i}", 1, span=30)
    if h.sym:
        return n, T, h.tensor(f"x{i}", (n, C, T))
    return n, T, h.tab((n, C, T), lambda e, c, t: t + OWN * c + EL * e + 1000000 * i, _t.float64)


def check(h, y, b, C, k, chunk, ci, co):
    n, T, x = chunk
    h.shape_eq("batch", y, (b, C, k))
    if h.sym:
        def both(j, c):
            # which of the two draws is the row and which the start is immaterial
            a, t = h.draw_funs(2, j, c)
            return a, t

        h.each("row and start stay inside the current chunk", (b, C), lambda j, c: h.and_(
            both(j, c)[0] >= 0, both(j, c)[0] < n, both(j, c)[1] >= 0, both(j, c)[1] + k <= T))
        h.each("window is those samples of that row, right channel", (b, C, k),
               lambda j, c, m: h.same(h.at(y, j, c, m), h.at(x, both(j, c)[0], c,
                                                             both(j, c)[1] + m)))
        if co:
            h.ok("same row and start in all channels", all(
                x is y or x.v.eq(y.v) for x, y in zip(both(0, 0), both(0, 1))))
    else:
        h.each("every window is contiguous", (b, C, k), lambda j, c, m: h.same(
            h.at(y, j, c, m), h.at(y, j, c, 0) + m))
        for j in range(b):
            own = []
            for c in range(C):
                v = int(y[j, c, 0]) - 1000000 * ci
                e, r = divmod(v, EL)
                cc, t = divmod(r, OWN)
                own.append((e, t))
                h.ok("window inside one row of the current chunk, right channel",
                     0 <= e < n and cc == c and 0 <= t and t + k <= T,
                     f"element {e} of {n}, channel {cc} for {c}, start {t} of {T}")
            if co:
                h.ok("same row and start in all channels", len(set(own)) == 1)


@contract("C04", TG, cases=[dict(co=c, nch=n) for c in (True, False) for n in (1, 2, 3)])
def batches(h, co, nch):
    """each batch of each chunk: windows of the current chunk, sizes may change between
    chunks; the number of batches is chunks x batches_per_chunk"""
    C = h.int("C", 1, span=3)
    k = h.int("k", 1, span=6)
    b = h.int("batch", 1, span=3)
    per = h.int("per", 1, span=2) if not h.sym else 1
    cs = [chunk(h, i, C) for i in range(nch)]
    for n, T, x in cs:
        h.assume(T > k)
    ds = h.must("construct", h.call(h.fn(CD), Chunks([x for *_, x in cs]), k, b, per,
                                    coincident=co))
    h.eq("length", h.must("len", h.call(type(ds).__len__, ds)), nch * per)
    h.drive("batches", iter(ds), nch * per, lambda i, y: check(
        h, y, b, C, k, cs[i // per], i // per, co))


@contract("C04", TG, cases=[dict(co=c) for c in (True, False)])
def any_batch(h, co):
    """an arbitrary one of arbitrarily many batches of a chunk"""
    C = h.int("C", 1, span=3)
    k = h.int("k", 1, span=6)
    b = h.int("batch", 1, span=3)
    per = h.int("per", 1, span=5)
    n, T, x = chunk(h, 0, C)
    h.assume(T > k)
    ds = h.must("construct", h.call(h.fn(CD), Chunks([x]), k, b, per, coincident=co))
    h.drive("batches", iter(ds), per, lambda i, y: check(h, y, b, C, k, (n, T, x), 0, co))


@contract("C04", TG, cases=[dict(second=s) for s in (False, True)])
def short_chunk(h, second):
    """a chunk shorter than the window is refused, never read across"""
    C, k, b = h.int("C", 1, span=2), h.int("k", 2, span=6), h.int("batch", 1, span=2)
    cs = [chunk(h, i, C) for i in range(2)]
    h.assume(cs[second][1] < k)
    if second:
        h.assume(cs[0][1] > k)
    ds = h.must("construct", h.call(h.fn(CD), Chunks([x for *_, x in cs]), k, b, 1))
    it = iter(ds)
    if second:
        h.must("first chunk", h.call(next, it))
    h.ok("ValueError", h.call(next, it).raised(ValueError))


@contract("C04", TG, bounded="4 rows x 8 starts, 2000 windows", samples=6,
          cases=[dict(co=True), dict(co=False)])
def every_window_occurs(h, co):
    n, k, S = h.int("n", 1, 4), h.int("k", 1, 4), h.int("S", 1, 8)
    T = k + S
    h.mode = "real"
    x = h.tab((n, 2, T), lambda e, c, t: t + OWN * c + EL * e)
    ds = h.fn(CD)(Chunks([x]), k, 500, 4, coincident=co)
    seen = [set(), set()]
    for y in ds:
        for c in range(2):
            seen[c] |= {int(v) - OWN * c for v in y[:, c, 0]}
    want = {EL * e + t for e in range(n) for t in range(S)}
    h.ok("every window of every row occurs in each channel", seen[0] == want and seen[1] == want)
