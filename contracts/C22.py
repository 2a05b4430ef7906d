"""C22: the Q-transform."""
import math

import numpy as np
import torch

from dv.harness import contract

Q = "ml4gw.transforms.qtransform:"
QT, SQ, QS = Q + "QTile", Q + "SingleQTransform", Q + "QScan"
LEAD = {1: (), 2: ("C",), 3: ("B", "C")}

TILES = [(4, 10.0, 1, 64, 0.2), (4, 10.0, 1, 32, 0.2), (2, 8.0, 1, 64, 0.2),
         (5.5, 6.5, 2, 32, 0.35), (5.5, 20.0, 0.5, 64, 0.2)]


def lead(h, nd):
    return tuple(h.int(a, 1, span=2) for a in LEAD[nd])


def tile_sizes(q, f, dur, rate, mismatch):
    """tiles, half width of the window in bins, and its values"""
    qp = q / math.sqrt(11)
    half = int(f / qp * dur)
    n = 2 ** math.ceil(math.log2(dur * 2 * math.pi * f / q / (2 * math.sqrt(mismatch / 3))))
    k = np.arange(-half, half + 1)
    w = (1 - (k / dur * qp / f) ** 2) ** 2
    w = w * n / (dur * rate) * math.sqrt(315 * qp / (128 * f))
    return n, half, w


def energy(h, x, n, half, w, f0, top):
    """squared modulus of the inverse transform of the windowed bins around f0"""
    def spec(part):
        def at(*i):
            *b, p = i
            k = h.ite(2 * p < n, p, p - n)
            j = k + half + 1  # position within the window
            bins = torch.arange(-half, half + 1) + 1 + f0
            bins = bins.round().long().clamp(0, top)
            bins = h.torch.as_tensor(bins.tolist())
            jj = h.ite(h.and_(j >= 0, j < 2 * half + 1), j, 0)
            return h.ite(h.and_(j >= 0, j < 2 * half + 1), lambda: h.at(part, *b, h.at(
                bins, jj)) * h.at(w, jj), lambda: 0)
        return at

    sh = tuple(h.shapeof(x)[:-1]) + (n,)
    z = h.torch.complex(h.tab(sh, spec(x.real)), h.tab(sh, spec(x.imag)))
    t = h.torch.fft.ifft(z)
    return t.real ** 2 + t.imag ** 2


@contract("C22", [QT + ".forward"], cases=[dict(i=i, nd=d, norm=m) for i in range(len(TILES))
          for d, m in ((3, None), (1, "mean"), (2, "median"), (3, "Mean"))],
          tol=dict(rtol=2e-3, atol=1e-5))
def tile(h, i, nd, norm):
    """the squared modulus of the inverse transform of the bins around the tile's frequency
    under its window, for every series on its own, divided by its mean or median over time"""
    q, f, dur, rate, mm = TILES[i]
    real = h.must("construct", h.call(h.native(QT), q, f, dur, rate, mm))
    n, half, w = tile_sizes(*TILES[i])
    h.ok("tiles", real.ntiles() == n)
    h.ok("window", tuple(real.window.shape) == (2 * half + 1,)
         and np.allclose(real.window.numpy(), w, rtol=1e-4, atol=1e-6))
    m = h.graft(real)
    F = int(dur * rate) // 2 + 1
    L = lead(h, nd)
    x = h.tensor("x", (*L, F), dtype=h.torch.complex64)
    fr = h.freeze(x)
    y = h.must("forward", h.call(m, x, norm))
    full = (1,) * (3 - nd) + L
    h.shape_eq("tiles", y, (*full, n))
    e = energy(h, x.reshape(*full, F), n, half, m.window, f * dur, F - 1)
    if norm:
        z = e.mean(-1, keepdim=True) if norm.lower() == "mean" else h.torch.quantile(
            e, 0.5, dim=-1, keepdim=True)
        e = e / z
    h.each("energy", (*full, n), lambda *j: h.same(h.at(y, *j), h.at(e, *j)))
    h.frame("input", fr)


@contract("C22", [QT + ".forward"], cases=[dict(why=w) for w in ("norm", "rank")])
def tile_refuses(h, why):
    m = h.graft(h.native(QT)(4, 30.0, 1, 64, 0.2))
    x = h.tensor("x", (2, 3, 33) if why == "norm" else (1, 2, 3, 33), dtype=h.torch.complex64)
    out = h.call(m, x, h.choice("norm", ["max", "avg", "medium"]) if why == "norm" else "mean")
    h.ok("refused", out.raised(ValueError))


PLANES = [dict(duration=1, sample_rate=256, q=4), dict(duration=1, sample_rate=256, q=6),
          dict(duration=2, sample_rate=128, q=4, mismatch=0.35),
          dict(duration=1, sample_rate=256, q=4, frange=[40.0, 60.0])]


def plane(h, p, shape=(8, 12), method="bicubic"):
    return h.must("construct", h.call(h.native(SQ), spectrogram_shape=shape,
                                      interpolation_method=method, **p))


@contract("C22", [SQ + ".compute_qtiles", SQ + ".forward", SQ + ".interpolate"],
          cases=[dict(i=i, nd=d, method=m) for i in (0, 2) for d in (1, 2, 3)
                 for m in ("bicubic", "bilinear")], tol=dict(rtol=5e-3, atol=1e-4))
def single(h, i, nd, method):
    """the tiles of the one-sided spectrum, brought to the requested times and then the
    requested frequencies; one dimension more than the input"""
    p = PLANES[i]
    nf, nt = 8, 12
    m = h.graft(plane(h, p, (nf, nt), method))
    T = p["duration"] * p["sample_rate"]
    L = lead(h, nd)
    x = h.tensor("x", (*L, T), dtype=h.torch.float32)
    fr = h.freeze(x)
    y = h.must("forward", h.call(m, x, "mean"))
    full = (1,) * (3 - nd) + L
    h.shape_eq("spectrogram", y, (*L, nf, nt))
    X = h.torch.fft.rfft(x.reshape(*full, T)) / T
    X[..., 1:] *= 2
    I = lambda v, s: h.torch.nn.functional.interpolate(v, s, mode=method)
    rows = [I(t(X, "mean")[None], (full[1], nt))[0] for t in m.qtile_transforms]
    z = I(h.torch.stack(rows, dim=-2), (nf, nt))
    h.each("value", (*L, nf, nt), lambda *j: h.same(
        h.at(y, *j), h.at(z, *((0,) * (3 - nd)), *j)))
    h.frame("input", fr)


@contract("C22", [SQ + ".get_max_energy"], cases=[dict(dim=d, r=r) for d in (
    "both", "neither", "channel", "batch") for r in (None, (12.0, 40.0), (1.0, 1e4), "edge")])
def energies(h, dim, r):
    """the largest value among the tiles of the frequencies above the lower and up to the
    upper end of the search range, over everything, for each pair of batch element and
    channel, for each channel, or for each batch element"""
    m = h.graft(h.native(SQ)(1, 256, (8, 8), 4))
    freqs = [float(f) for f in m.freqs]
    if r == "edge":
        r = (freqs[1], freqs[3])
    B, C = h.int("B", 1, span=3), h.int("C", 1, span=3)
    qt = [h.tensor(f"e{k}", (B, C, 2 + k % 2), lo=0, hi=9) for k in range(len(freqs))]
    m.qtiles = list(qt)
    fr = [h.freeze(q) for q in qt]
    y = h.must("energy", h.call(m.get_max_energy, None if r is None else list(r), dim))
    keep = [q for f, q in zip(freqs, qt) if r is None or r[0] < f <= r[1]]
    rows = h.torch.stack([q.amax(-1) for q in keep], -1)
    if dim == "both":
        h.ok("largest", h.same(y, rows.max()))
    elif dim == "neither":
        h.shape_eq("energies", y, (B, C))
        h.each("energy", (B, C), lambda b, c: h.same(h.at(y, b, c), h.at(rows.amax(-1), b, c)))
    else:
        z = rows.amax(-1).amax(0 if dim == "channel" else 1)
        h.shape_eq("energies", y, (C if dim == "channel" else B,))
        h.each("energy", (C if dim == "channel" else B,), lambda i: h.same(h.at(y, i), h.at(z, i)))
    h.ok("kept", len(m.qtiles) == len(qt) and all(a is b for a, b in zip(m.qtiles, qt)))
    for f in fr:
        h.frame("tiles", f)


@contract("C22", [SQ + ".__init__", SQ + ".get_max_energy", SQ + ".interpolate"],
          cases=[dict(why=w) for w in ("q", "method", "dimension", "early", "early-max")])
def refuses(h, why):
    """too large a Q for duration and rate, unknown interpolation methods, dimensions, and
    the tiles' energies or interpolation before there are tiles"""
    cls = h.native(SQ)
    if why == "q":
        d, rate, k = h.choice("c", [(1, 256, 0), (2, 128, 0.5), (0.5, 1024, 40), (4, 64, 1e3)])
        q = math.pi * d * rate / 50 - math.sqrt(11)
        h.ok("refused", h.call(cls, d, rate, (4, 4), q + k + 1e-6).raised(ValueError))
        h.ok("allowed", not h.call(cls, d, rate, (4, 4), q - 1e-3).exc)
    elif why == "method":
        v = h.choice("m", ["nearest", "linear", "cubic", ""])
        h.ok("refused", h.call(cls, 1, 128, (4, 4), 4, interpolation_method=v).raised(ValueError))
    else:
        m = h.graft(cls(1, 128, (4, 4), 4))
        if why == "dimension":
            m.qtiles = [h.tensor("e", (1, 1, 4))] * len(m.freqs)
            v = h.choice("d", ["time", "", "Both", "all"])
            h.ok("refused", h.call(m.get_max_energy, None, v).raised(ValueError))
        elif why == "early":
            h.ok("refused", h.call(m.interpolate).raised(RuntimeError))
        else:
            h.ok("refused", h.call(m.get_max_energy).raised(RuntimeError))


SCANS = [dict(duration=1, sample_rate=256, qrange=[2, 8]), dict(duration=1, sample_rate=512),
         dict(duration=2, sample_rate=128, qrange=[4, 9], frange=[20, 50])]


@contract("C22", [QS + ".forward"], cases=[dict(i=i, r=r) for i in range(len(SCANS))
                                           for r in (None, (5.0, 1e6), (37.0, 190.0))],
          tol=dict(rtol=1e-4, atol=1e-6))
def scan(h, i, r):
    """the interpolated transform of the plane holding the largest energy in the range, with
    every plane's tiles computed from the input under the given normalization"""
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        real = h.must("construct", h.call(h.native(QS), spectrogram_shape=(6, 10), **SCANS[i]))
    m = h.graft(real)
    P = list(m.q_transforms)
    norm = h.choice("norm", ["mean", "median", None])
    B, C, T = h.int("B", 1, span=2), h.int("C", 1, span=2), int(
        SCANS[i]["duration"] * SCANS[i]["sample_rate"])
    x = h.tensor("x", (B, C, T), dtype=h.torch.float32)
    fr = h.freeze(x)
    num = lambda s: next(k for k, p in enumerate(P) if p is s)
    es = [h.real(f"e{k}", lo=0) for k in range(len(P))] if h.sym else None
    S = [h.tensor(f"S{k}", (B, C, 6, 10)) for k in range(len(P))] if h.sym else None
    calls = h.stub(SQ + ".compute_qtiles", lambda s, X, norm="median": None)
    asks = h.stub(SQ + ".get_max_energy", lambda s, fsearch_range=None, dimension="both":
                  es[num(s)])
    h.stub(SQ + ".interpolate", lambda s: S[num(s)])
    y = h.must("forward", h.call(m, x, r and list(r), norm))
    if h.sym:
        for k, p in enumerate(P):
            mine = [(a[1:], b) for a, b in calls if a[0] is p]
            h.ok("tiles of every plane", len(mine) == 1)
            a, b = mine[0]
            h.ok("of the input", (a[0] if a else b.get("X")) is x)
            h.ok("normalized", (a[1] if len(a) > 1 else b.get("norm", "median")) == norm)
            mine = [(a[1:], b) for a, b in asks if a[0] is p]
            h.ok("energy of every plane", len(mine) >= 1)
            a, b = mine[0]
            rng = a[0] if a else b.get("fsearch_range")
            h.ok("in the range", rng is None if r is None else tuple(rng) == r)
            h.ok("over everything", (a[1] if len(a) > 1 else b.get("dimension", "both")) == "both")
    else:
        es, S = [], []
        for p in P:
            p.compute_qtiles(x, norm)
            es.append(float(p.get_max_energy(r and list(r))))
            S.append(p.interpolate())
    h.shape_eq("spectrogram", y, (B, C, 6, 10))
    best = lambda k: h.and_(*[es[k] >= e for e in es])
    h.each("value", (B, C, 6, 10), lambda *j: h.or_(*[
        h.and_(best(k), h.same(h.at(y, *j), h.at(S[k], *j))) for k in range(len(P))]))
    h.frame("input", fr)


@contract("C22", [SQ + ".__init__", SQ + ".get_freqs"], cases=[dict()], samples=60,
          bounded="duration in 1/2..8 s, rates to 4096 Hz, Q to a fourth of the limit; "
                  "lists compared with gwpy's QPlane")
def frequencies(h):
    """those of gwpy's plane; the caller's range stays as given"""
    from gwpy.signal.qtransform import QPlane

    dur = h.choice("dur", [0.5, 1, 2, 4, 8])
    rate = h.choice("rate", [512, 1024, 2048, 4096])
    mm = h.choice("mm", [0.1, 0.2, 0.35])
    top = math.pi * dur * rate / 50 - math.sqrt(11)
    q = 4 + float(h.real("q", lo=0, hi=0.25)) * (top - 4)
    lo = 50 * q / (2 * math.pi * dur)
    hi = rate / 2 / (1 + math.sqrt(11) / q)
    rng = h.choice("rng", [None, [0, math.inf], [lo * 1.07, math.inf], [0, hi * 0.61],
                           [lo * 1.3, hi * 0.83]])
    given = None if rng is None else list(rng)
    m = h.must("construct", h.call(h.fn(SQ), dur, rate, (4, 4), q, given, mm))
    h.ok("range kept", given == rng)
    want = QPlane(q, list(rng or [0, math.inf]), dur, rate, mm).frequencies
    got = [float(f) for f in m.freqs]
    step = 1 / dur
    # float32 powers may fall on the other side of a multiple of 1/duration
    near = lambda f, fs: any(abs(f - g) <= step * 1.001 for g in fs)
    h.ok("frequencies", all(near(f, want) for f in got) and all(near(f, got) for f in want)
         and len(set(got)) == len(got) and got == sorted(got)
         and sum(any(abs(f - g) < 1e-6 for g in want) for f in got) >= 0.9 * len(got) - 1)
    h.ok("tiles", [float(t.frequency) for t in m.qtile_transforms] == got)


@contract("C22", [QS + ".__init__", QS + ".get_qs"], cases=[dict()], samples=60,
          bounded="Q ranges within 2..64, three mismatches; compared with gwpy's QTiling")
def planes(h):
    """Q values as gwpy's tiling has them, those too large left out with a warning"""
    import warnings
    from gwpy.signal.qtransform import QTiling

    dur, rate = h.choice("c", [(1, 256), (1, 1024), (2, 2048), (4, 512)])
    mm = h.choice("mm", [0.1, 0.2, 0.35])
    lo = 2 + float(h.real("lo", lo=0, hi=1)) * 8
    hi = lo * (1.2 + float(h.real("hi", lo=0, hi=1)) * 5)
    top = math.pi * dur * rate / 50 - math.sqrt(11)
    want = list(QTiling(dur, rate, qrange=(lo, hi), frange=(0, math.inf), mismatch=mm).qs)
    keep = [q for q in want if q < top]
    if any(abs(q - top) < 1e-6 for q in want):
        return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        m = h.must("construct", h.call(h.fn(QS), dur, rate, (4, 4), [lo, hi], None, mismatch=mm))
    h.ok("planes", len(m.q_transforms) == len(keep) and all(
        abs(p.q - q) <= 1e-9 * q for p, q in zip(m.q_transforms, keep)))
    h.ok("warning", any("Q value" in str(x.message) for x in w) == (len(keep) < len(want)))
    h.ok("settings", all(p.spectrogram_shape == (4, 4) and p.mismatch == mm
                         and p.duration == dur for p in m.q_transforms))


@contract("C22", [SQ + ".interpolate", SQ + "._set_up_spline_interp"],
          cases=[dict(nd=d) for d in (1, 2, 3)], samples=12,
          bounded="two settings, two output shapes; compared with scipy's splines")
def spline(h, nd):
    """as many frequencies and times as asked for, close to scipy's splines through the tiles
    at their times and frequencies"""
    from scipy.interpolate import InterpolatedUnivariateSpline as U

    dur, rate, q = h.choice("c", [(1, 512, 6), (2, 256, 8.3)])
    nf, nt = h.choice("shape", [(16, 32), (11, 49)])
    m = h.must("construct", h.call(h.fn(SQ), dur, rate, (nf, nt), q,
                                   interpolation_method="spline"))
    L = lead(h, nd)
    x = h.tensor("x", (*L, dur * rate), dtype=torch.float32)
    y = h.must("forward", h.call(m, x, "mean"))
    h.shape_eq("spectrogram", y, (*L, nf, nt))
    y = y.reshape(-1, nf, nt)
    rows = [t.reshape(-1, t.shape[-1]).double().numpy() for t in m.qtiles]
    f_in = m.freqs.double().numpy()
    f_out = np.geomspace(m.frange[0], m.frange[1], nf)
    t_out = np.arange(nt) * dur / nt
    h.ok("enough tiles", len(f_in) > 3)
    for b in range(min(len(y), 3)):
        grid = []
        for r in rows:
            t_in = np.arange(r.shape[-1]) * dur / r.shape[-1]
            grid.append(U(t_in, r[b], k=3, ext=3)(t_out))
        grid = np.array(grid)
        want = np.array([U(f_in, grid[:, j], k=3, ext=3)(f_out) for j in range(nt)]).T
        err = np.abs(want - y[b].double().numpy())
        h.ok("values", bool(np.quantile(err, 0.9) <= 0.02 * np.abs(want).max() + 1e-3))
