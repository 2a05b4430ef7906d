"""C30: random augmentations, sampling and projecting waveforms."""
from dv.harness import contract

AU = "ml4gw.augmentations"
INV, REV = AU + ":SignalInverter", AU + ":SignalReverser"
WF = "ml4gw.transforms.waveforms"
WS, WP = WF + ":WaveformSampler", WF + ":WaveformProjector"
OS, GG = "ml4gw.gw:compute_observed_strain", "ml4gw.gw:get_ifo_geometry"


@contract("C30", [INV + ".__init__", INV + ".forward", REV + ".__init__", REV + ".forward"],
          cases=[dict(kind=k, nd=n, p=p) for k in ("invert", "reverse") for n in (1, 2, 3, 4, 5)
                 for p in ("never", "always", "half", "any")])
def augmentation(h, kind, nd, p):
    """every series comes back as it was or transformed as a whole; never at probability
    zero, always at one"""
    f = h.fn(INV if kind == "invert" else REV)
    prob = {"never": 0.0, "always": 1.0, "half": None, "any": None}[p]
    if p == "any":
        prob = h.real("p", 0, 1)
    m = h.must("construct", h.call(f, **({} if prob is None else dict(prob=prob))))
    lead = tuple(h.int(f"n{i}", 1, span=3) for i in range(nd - 1))
    T = h.int("T", 1, span=6)
    x = h.tensor("x", lead + (T,))
    x0 = x.clone()
    y = h.must("forward", h.call(m, x))
    h.shape_eq("output", y, lead + (T,))

    def new(*q):
        return -h.at(x0, *q) if kind == "invert" else h.at(x0, *q[:-1], T - 1 - q[-1])

    if p == "never":
        h.each("unchanged", lead + (T,), lambda *q: h.same(h.at(y, *q), h.at(x0, *q)))
    elif p == "always":
        h.each("transformed", lead + (T,), lambda *q: h.same(h.at(y, *q), new(*q)))
    else:
        h.each("unchanged or transformed", lead + (T,), lambda *q: h.or_(
            h.same(h.at(y, *q), h.at(x0, *q)), h.same(h.at(y, *q), new(*q))))
        # one decision per series
        h.each("as a whole", lead + (T, T), lambda *q: h.or_(
            h.and_(h.same(h.at(y, *q[:-1]), h.at(x0, *q[:-1])),
                   h.same(h.at(y, *q[:-2], q[-1]), h.at(x0, *q[:-2], q[-1]))),
            h.and_(h.same(h.at(y, *q[:-1]), new(*q[:-1])),
                   h.same(h.at(y, *q[:-2], q[-1]), new(*q[:-2], q[-1])))))


@contract("C30", [INV + ".forward", REV + ".forward"],
          cases=[dict(kind=k, prob=p) for k in ("invert", "reverse") for p in (None, 0.2, 0.9)],
          bounded="frequencies over 4000 series, within 6 standard errors", samples=2)
def frequencies(h, kind, prob):
    """each series is transformed with the given probability (a half by default),
    independently of the others"""
    m = h.fn(INV if kind == "invert" else REV)(**({} if prob is None else dict(prob=prob)))
    n = 2000
    x = h.torch.arange(1.0, 4.0).repeat(n, 2, 1)
    y = m(x.clone())
    new = -x if kind == "invert" else x.flip(-1)
    c = (y == new).all(-1)
    h.ok("whole series", bool((c | (y == x).all(-1)).all()))
    c = c.double()
    p = 0.5 if prob is None else prob

    def near(name, v, p, k):
        h.ok(name, abs(float(v) - p) < 6 * (p * (1 - p) / k) ** 0.5, f"{float(v)} for {p}")

    near("frequency", c.mean(), p, 2 * n)
    near("independent channels", (c[:, 0] * c[:, 1]).mean(), p * p, n)
    near("independent elements", (c[1:, 0] * c[:-1, 0]).mean(), p * p, n / 2)


@contract("C30", [WS + ".__init__", WS + ".forward"],
          cases=[dict(pols=p, par=a, how=w) for p in (1, 2, 3) for a in (0, 1)
                 for w in ("all", "some")])
def sampler(h, pols, par, how):
    """one index per waveform, the same for every polarization and the parameters: all in
    order for -1, else each drawn from all waveforms"""
    K, T, P = h.int("K", 1, span=5), h.int("T", 1, span=4), h.int("P", 1, span=3)
    names = ["plus", "cross", "breathing"][:pols]
    w = {k: h.tensor(k, (K, T), dtype=h.torch.float32, distinct=True) for k in names}
    q = h.tensor("par", (K, P), dtype=h.torch.float32) if par else None
    m = h.must("construct", h.call(h.fn(WS), **(dict(parameters=q) if par else {}), **w))
    frs = [h.freeze(t) for t in w.values()]
    if how == "all":
        N = K
        out = h.must("all", h.call(m, -1))
    else:
        N = h.int("N", 1, span=5)
        h.assume(N <= K)
        out = h.must("sample", h.call(m, N))
        h.ok("too many refused", h.call(m, K + h.int("extra", 1, span=3)).raised(ValueError))
    if par:
        h.ok("waveforms and parameters", isinstance(out, tuple) and len(out) == 2)
        out, qs = out
        h.shape_eq("parameters", qs, (N, P))
    h.ok("polarizations", list(out) == names)
    for k in names:
        h.shape_eq(k, out[k], (N, T))
    if how == "all":
        for k in names:
            h.each(k, (N, T), lambda i, t: h.same(h.at(out[k], i, t), h.at(w[k], i, t)))
        if par:
            h.each("parameters", (N, P), lambda i, t: h.same(h.at(qs, i, t), h.at(q, i, t)))
    elif h.sym:
        # the drawn index is read off the code's own random draw
        def idx(i):
            return h.draw_funs(1, i)[0]

        t = h.tab((N,), idx, dtype=h.torch.int64)
        h.support("index", t, 0, K)
        for k in names:
            h.each(k, (N, T), lambda i, t: h.same(h.at(out[k], i, t), h.at(w[k], idx(i), t)))
        if par:
            h.each("parameters", (N, P), lambda i, t: h.same(h.at(qs, i, t), h.at(q, idx(i), t)))
    else:
        first = out[names[0]]
        for i in range(N):
            hit = [j for j in range(K) if all(bool((out[k][i] == w[k][j]).all()) for k in names)
                   and (not par or bool((qs[i] == q[j]).all()))]
            h.ok("a waveform of the set, with its own parameters", len(hit) > 0)
    for f in frs:
        h.frame("waveforms", f)


@contract("C30", [WS + ".forward"], cases=[{}], bounded="2000 draws from 5 waveforms", samples=2)
def every_waveform(h):
    """all waveforms are drawn, equally often, independently"""
    x = h.torch.arange(5.0)[:, None]
    m = h.fn(WS)(plus=x)
    d = h.torch.stack([m(5)["plus"][:, 0] for _ in range(400)]).long()
    n = h.torch.bincount(d.flatten(), minlength=5)
    h.ok("equally often", bool(((n - 400).abs() < 6 * (400 * 0.8) ** 0.5).all()), str(n))
    r = (d[:, 0] == d[:, 1]).double().mean()
    h.ok("independently", abs(float(r) - 0.2) < 6 * 0.02, str(r))


@contract("C30", [WS + ".__init__"], cases=[dict(why=w) for w in ("polarizations", "parameters")])
def sampler_refuses(h, why):
    """polarizations or parameters of another number of waveforms"""
    K, L, T = h.int("K", 1, span=4), h.int("L", 1, span=4), h.int("T", 1, span=4)
    h.assume(h.not_(h.same(K, L)))
    a, b = h.tensor("a", (K, T), dtype=h.torch.float32), h.tensor("b", (L, T), dtype=h.torch.float32)
    kw = dict(plus=a, cross=b) if why == "polarizations" else dict(parameters=b, plus=a, cross=a)
    h.ok("refused", h.call(h.fn(WS), **kw).raised(ValueError))


@contract("C30", [WP + ".__init__", WP + ".forward", OS, GG],
          cases=[dict(ifos=i, modes=m) for i in (("H1",), ("L1", "H1"), ("V1", "K1", "H1"))
                 for m in (("plus", "cross"), ("cross", "breathing"))],
          tol=dict(rtol=1e-4, atol=1e-5))
def projector(h, ifos, modes):
    """the strain observed by the named interferometers, in that order, at the given rate"""
    sr = h.int("rate", 1, span=4096)
    m = h.must("construct", h.call(h.fn(WP), list(ifos), sr))
    D, V = h.must("geometry", h.call(h.fn(GG), *ifos))
    B, T = h.int("B", 1, span=3), h.int("T", 1, span=300)
    dec, psi, phi = [h.tensor(n, (B,)) for n in ("dec", "psi", "phi")]
    w = {k: h.tensor(k, (B, T)) for k in modes}
    frs = [h.freeze(t) for t in (dec, psi, phi, *w.values())]
    y = h.must("project", h.call(m, dec, psi, phi, **w))
    z = h.must("strain", h.call(h.fn(OS), dec, psi, phi, D, V, sr, **w))
    h.shape_eq("strain", y, (B, len(ifos), T))
    h.each("strain", (B, len(ifos), T), lambda *q: h.same(h.at(y, *q), h.at(z, *q)))
    for f in frs:
        h.frame("arguments", f)
