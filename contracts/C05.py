"""C05: HDF5 sampling reads exactly the addressed samples, and workers share an epoch."""
import os
import shutil
import tempfile

import numpy as np
import torch as _t

from dv.harness import contract

HD = "ml4gw.dataloading.hdf5_dataset:Hdf5TimeSeriesDataset"


class Info:
    def __init__(self, id, num_workers):
        self.id, self.num_workers, self.seed, self.dataset = id, num_workers, 0, None


class as_worker:
    """run as worker `id` of `num_workers` (None: main process)"""

    def __init__(self, h, info):
        self.h, self.info = h, info

    def __enter__(self):
        if self.h.sym:
            self.h.c.worker_info = self.info
        else:
            w = _t.utils.data._utils.worker
            self.old, w._worker_info = w._worker_info, self.info

    def __exit__(self, *a):
        if not self.h.sym:
            _t.utils.data._utils.worker._worker_info = self.old
        return False


@contract("C05", [HD + ".__iter__", HD + ".__len__"], cases=[dict(workers=w) for w in (0, 1)])
def epoch_partition(h, workers):
    """the main process yields exactly the batches of an epoch; worker w of W yields
    floor(P/W) batches, one more when w < P mod W, so that W workers together yield P.
    (sample_batch is used through its contract: it returns one batch)"""
    P = h.int("P", 1, span=30)
    cls = h.fn(HD)
    token = object()

    class Sub(cls):
        def __init__(self):
            self.batches_per_epoch = P

        def sample_batch(self):
            return token

    ds = Sub()
    h.eq("length", h.must("len", h.call(cls.__len__, ds)), P)
    info, n = None, P
    if workers:
        W = h.int("W", 1, span=9)
        w = h.int("w", 0, span=9)
        h.assume(w < W)
        info = Info(w, W)
        n = P // W + h.ite(w < P % W, 1, 0)
    with as_worker(h, info):
        h.drive("batches", iter(ds), n, lambda i, x: h.ok("yields a sampled batch", x is token))


@contract("C05", [HD + ".__iter__"], cases=[{}])
def workers_cover_epoch(h):
    """summed over all workers the shares are exactly the epoch (induction on the number
    of workers counted: the partial sums are w*floor(P/W) + min(w, P mod W))"""
    P, W = h.int("P", 1, span=30), h.int("W", 1, span=9)
    w = h.int("w", 0, span=9)
    h.assume(w < W)
    q, r = P // W, P % W
    part = lambda i: i * q + h.ite(i < r, i, r)
    h.ok("base", h.same(part(0), 0))
    h.ok("step", h.same(part(w) + q + h.ite(w < r, 1, 0), part(w + 1)))
    h.ok("total", h.same(part(W), P))


OWN, FILE = 1 << 10, 1 << 14


class Files:
    """files whose samples encode (file, channel, time)"""

    def __init__(self, sizes, channels, chunked=True):
        import h5py

        self.dir = tempfile.mkdtemp(prefix="dv_h5_")
        self.names = []
        for i, n in enumerate(sizes):
            p = os.path.join(self.dir, f"f{(i * 7) % 10}_{i}.h5")
            self.names.append(p)
            with h5py.File(p, "w") as f:
                for c, ch in enumerate(channels):
                    x = np.arange(n) + OWN * c + FILE * i
                    f.create_dataset(ch, data=x, chunks=(min(8, n),) if chunked else None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


BOUND = "files of at most 60 samples, up to 4 files, 3 channels, 40 windows per batch"


@contract("C05", [HD + ".__init__", HD + ".sample_fnames", HD + ".sample_batch", HD + ".__iter__"],
          bounded=BOUND, samples=60, cases=[dict(co=c) for c in (True, False, "files")])
def windows(h, co):
    """every row of a batch is a contiguous stretch of the right channel of one file;
    coincident: same file and start in all channels; "files": same file"""
    k = h.int("k", 1, 9)
    F = h.int("F", 1, 4)
    C = h.int("C", 1, 3)
    B = h.int("B", 1, 40)
    P = h.int("P", 1, 3)
    nf = h.choice("nf", [None, 1, 2])
    h.assume(nf is None or nf <= F)
    sizes = [h.int(f"n{i}", k + 1, 60) for i in range(F)]
    chans = ["H1", "L1", "A"][:C]
    with Files(sizes, chans) as fs:
        ds = h.must("construct", h.call(h.fn(HD), fs.names, chans, k, B, P, co, nf))
        batches = h.must("iterate", h.call(lambda: list(ds)))
    h.eq("number of batches", len(batches), P)
    for x in batches:
        h.shape_eq("batch", x, (B, C, k))
        used = set()
        h.ok("windows are contiguous", bool((x - x[..., :1] == _t.arange(k)).all()))
        for b in range(B):
            row = []
            for c in range(C):
                v = int(x[b, c, 0])
                f, r = divmod(v, FILE)
                cc, t = divmod(r, OWN)
                h.ok("window inside its file and channel",
                     0 <= f < F and cc == c and t + k <= sizes[f] if 0 <= f < F else False,
                     f"file {f}, channel {cc} for {c}, start {t}")
                row.append((f, t))
            used |= {f for f, _ in row}
            if co is True:
                h.ok("coincident channels share file and start", len(set(row)) == 1)
            if co == "files":
                h.ok("channels share the file", len({f for f, _ in row}) == 1)
        h.ok("no more files than requested", nf is None or len(used) <= nf)


@contract("C05", [HD + ".sample_fnames", HD + ".sample_batch"], samples=4,
          bounded="three files, 4000 windows per mode", cases=[dict(co=c) for c in (True, False, "files")])
def sampling(h, co):
    """files are drawn in proportion to their length, every start of a file occurs, and
    channels are drawn independently unless coincidence is asked for"""
    h.mode = "real"
    k = h.int("k", 1, 4)
    sizes = [20 + 8 * i * h.int(f"m{i}", 0, 2) for i in range(3)]
    with Files(sizes, ["H1", "L1"]) as fs:
        ds = h.fn(HD)(fs.names, ["H1", "L1"], k, 4000, 1, co)
        x = h.must("batch", h.call(ds.sample_batch))
    f = (x[..., 0] // FILE).long()
    t = (x[..., 0] % OWN).long()
    for c in range(2):
        for i in range(3):
            p = sizes[i] / sum(sizes)
            n = int((f[:, c] == i).sum())
            h.ok("files drawn in proportion to length",
                 abs(n - 4000 * p) < 6.5 * (4000 * p * (1 - p)) ** 0.5, f"{n} of 4000, p={p}")
            h.ok("every start of the file occurs, none else", sorted(
                {int(v) for v in t[f[:, c] == i, c]}) == list(range(sizes[i] - k)))
    if co is False:
        h.ok("files independent between channels", bool((f[:, 0] != f[:, 1]).any()))
    if co == "files":
        h.ok("starts independent between channels", bool((t[:, 0] != t[:, 1]).any()))


@contract("C05", [HD + ".__init__"], bounded=BOUND, samples=10, cases=[dict(w=w) for w in (0, 1)])
def refusals(h, w):
    with Files([20, 20], ["A"]) as fs:
        if w == 0:
            o = h.call(h.fn(HD), fs.names, ["A"], 4, 2, 2, "file")
        else:
            n = h.int("n", 3, 9)
            o = h.call(h.fn(HD), fs.names, ["A"], 4, 2, 2, True, n)
        h.ok("ValueError", o.raised(ValueError))
