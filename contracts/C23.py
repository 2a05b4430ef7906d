"""C23: multi-resolution spectrograms."""
import torch

from dv.harness import contract

M = "ml4gw.transforms.spectrogram:MultiResolutionSpectrogram"

CONF = [
    (0.25, 128, dict(n_fft=[8, 16])),
    (0.25, 128, dict(n_fft=[16, 8, 12])),
    (0.25, 128, dict(n_fft=[16], hop_length=[3, 7])),
    (0.5, 64, dict(n_fft=[8, 16], win_length=[8, 10], power=[2])),
    (0.25, 128, dict(n_fft=[16], normalized=[True])),
    (0.25, 100, dict(n_fft=[8, 10, 12], hop_length=[4, 5, 2], normalized=[True])),
    (1, 32, dict(n_fft=[8, 6, 10, 12, 4, 5, 7, 9])),
]


@contract("C23", [M + ".forward"], cases=[dict(i=i) for i in range(len(CONF))],
          tol=dict(rtol=1e-4, atol=1e-5))
def maximum(h, i):
    """at every bin of the finest grids the largest of the spectrograms' values at the bin of
    the same relative frequency and time, rounded down"""
    import warnings

    length, rate, kw = CONF[i]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        real = h.must("construct", h.call(h.native(M), length, rate,
                                          **{k: list(v) for k, v in kw.items()}))
    m = h.graft(real)
    B, C, T = h.int("B", 1, span=2), h.int("C", 1, span=2), int(length * rate)
    x = h.tensor("x", (B, C, T), dtype=h.torch.float32)
    f = h.freeze(x)
    y = h.must("forward", h.call(m, x))
    n = max(len(v) for v in kw.values())
    conf = [{k: v[j] if len(v) > 1 else v[0] for k, v in kw.items()} for j in range(n)]
    specs = []
    for j, c in enumerate(conf):
        from torchaudio.transforms import Spectrogram

        s = Spectrogram(**{**c, "normalized": True})
        if h.sym:
            from dv.harness import opaque_module

            s = opaque_module(s)
        specs.append(s(x))
    sizes = [tuple(int(d) for d in h.shapeof(s)[-2:]) for s in specs]
    F, N = max(a for a, _ in sizes), max(b for _, b in sizes)
    h.shape_eq("spectrogram", y, (B, C, F, N))
    grid = [(a, b) for a in range(F) for b in range(N)]
    step = 1 if len(grid) <= 60 or not h.sym else len(grid) // 60
    for a, b in grid[::step] + grid[-1:]:
        vals = [(s, a * p // F, b * q // N) for s, (p, q) in zip(specs, sizes)]
        h.each(f"bin {a},{b}", (B, C), lambda u, v: h.and_(
            *[h.at(y, u, v, a, b) >= h.at(s, u, v, p, q) - (0 if h.sym else 1e-5)
              for s, p, q in vals],
            h.or_(*[h.same(h.at(y, u, v, a, b), h.at(s, u, v, p, q)) for s, p, q in vals])))
    h.frame("input", f)


@contract("C23", [M + ".__init__", M + "._check_and_format_kwargs"],
          cases=[dict(why=w) for w in ("normalized", "lengths", "size")])
def refuses(h, why):
    """spectrograms that are not normalized, argument lists of different lengths other than
    one, a series of another length"""
    cls = h.native(M)
    if why == "normalized":
        v = h.choice("n", [[False], [True, False], [False, True, True], [0]])
        h.ok("refused", h.call(cls, 1, 64, normalized=v).raised(ValueError))
    elif why == "lengths":
        a, b = h.choice("ab", [(2, 3), (3, 2), (4, 8), (8, 3), (9, 3), (2, 8)])
        h.ok("refused", h.call(cls, 1, 64, n_fft=[16] * a, power=[1] * b).raised(ValueError))
    else:
        m = h.graft(cls(1, 64, n_fft=[8, 16]))
        T = h.int("T", 1, span=100)
        h.assume(T != 64)
        x = h.tensor("x", (h.int("B", 1, span=2), 1, T), dtype=h.torch.float32)
        h.ok("refused", h.call(m, x).raised(ValueError))
