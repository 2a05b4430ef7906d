"""C28: residual networks in one and two dimensions."""
from dv.harness import contract

R = {1: "ml4gw.nn.resnet.resnet_1d", 2: "ml4gw.nn.resnet.resnet_2d"}
BB, BT = ({d: f"{R[d]}:{n}" for d in R} for n in ("BasicBlock", "Bottleneck"))
NETS = {(d, b): f"{R[d]}:{'Bottleneck' if b else ''}ResNet{d}D" for d in R for b in (0, 1)}


def affine(h, name):
    """a norm layer standing in for any other: channel-wise affine with its own coefficients"""
    class Affine(h.torch.nn.Module):
        def __init__(self, channels):
            super().__init__()
            self.channels = channels
            n = next(count)
            self.a, self.b = h.real(f"{name}{n}a"), h.real(f"{name}{n}b")

        def forward(self, x):
            return x * self.a + self.b

    import itertools

    count = itertools.count()
    return Affine


def spatial(h, d, lo, span):
    return tuple(h.int(n, lo, span=span) for n in ("T", "U")[:d])


def relu(h, v):
    return h.ite(v >= 0, v, 0)


def conv(h, d):
    return getattr(h.torch.nn.functional, f"conv{d}d")


def each_relu(h, name, y, shape, fn):
    h.each(name, shape, lambda *q: h.same(h.at(y, *q), relu(h, fn(*q))))


@contract("C28", [BB[1] + ".__init__", BB[1] + ".forward", BB[2] + ".__init__", BB[2] + ".forward"],
          cases=[dict(d=d, k=k, s=s, down=w) for d in (1, 2) for k in (1, 3, 5) for s in (1, 2)
                 for w in (0, 1) if s == 1 or w], tol=dict(rtol=1e-3, atol=1e-4))
def basic(h, d, k, s, down):
    """relu(norm2(conv2(relu(norm1(conv1 x)))) + shortcut), striding in the first convolution"""
    nn, F = h.torch.nn, h.torch.nn.functional
    ci, co = (2, 3) if down else (2, 2)
    norm = affine(h, "n")
    short = None
    if down:
        class Short(nn.Module):
            def forward(self, x):
                return conv(h, d)(x, wd, None, s)

        wd = h.tensor("wd", (co, ci) + (1,) * d, dtype=h.torch.float32)
        short = Short()
    m = h.must("construct", h.call(h.fn(BB[d]), ci, co, k, s, short, norm_layer=norm))
    h.shape_eq("conv1", m.conv1.weight, (co, ci) + (k,) * d)
    h.shape_eq("conv2", m.conv2.weight, (co, co) + (k,) * d)
    h.ok("no bias", m.conv1.bias is None and m.conv2.bias is None)
    x = h.tensor("x", (h.int("B", 1, span=1), ci) + spatial(h, d, 2, 6), dtype=h.torch.float32)
    fx = h.freeze(x)
    y = h.must("forward", h.call(m.forward, x))
    p = k // 2
    u = conv(h, d)(x, m.conv1.weight, None, s, p)
    u = F.relu(u * m.bn1.a + m.bn1.b)
    v = conv(h, d)(u, m.conv2.weight, None, 1, p) * m.bn2.a + m.bn2.b
    i = x if short is None else conv(h, d)(x, wd, None, s)
    h.shape_eq("output", y, h.shapeof(v))
    h.ok("norm channels", m.bn1.channels == co and m.bn2.channels == co)
    each_relu(h, "residual block", y, h.shapeof(v), lambda *q: h.at(v, *q) + h.at(i, *q))
    h.frame("input", fx)


@contract("C28", [BT[1] + ".__init__", BT[1] + ".forward", BT[2] + ".__init__", BT[2] + ".forward"],
          cases=[dict(d=d, k=k, s=s, dil=l, g=g, w=w, down=p) for d in (1, 2)
                 for k, s, l, g, w, p in (
                     (3, 1, 1, 1, 64, 0), (3, 2, 1, 1, 64, 1), (5, 1, 2, 1, 64, 0),
                     (1, 2, 1, 2, 64, 1), (3, 1, 4, 2, 32, 0), (3, 1, 1, 1, 128, 0),
                     (3, 1, 1, 1, 64, 1), (3, 1, 2, 1, 64, 1), (5, 2, 2, 2, 32, 1))],
          tol=dict(rtol=1e-3, atol=1e-4))
def bottleneck(h, d, k, s, dil, g, w, down):
    """convolution to the width, strided, dilated and grouped convolution, expansion by 4"""
    nn, F = h.torch.nn, h.torch.nn.functional
    planes = 2
    W = int(planes * w / 64) * g
    ci = 3 if down else 4 * planes
    norm = affine(h, "n")
    short = None
    if down:
        class Short(nn.Module):
            def forward(self, x):
                return conv(h, d)(x, wd, None, s)

        wd = h.tensor("wd", (4 * planes, ci) + (1,) * d, dtype=h.torch.float32)
        short = Short()
    m = h.must("construct", h.call(h.fn(BT[d]), ci, planes, k, s, short, g, w, dil, norm))
    h.shape_eq("conv1", m.conv1.weight, (W, ci) + (k,) * d)
    h.shape_eq("conv2", m.conv2.weight, (W, W // g) + (k,) * d)
    h.shape_eq("conv3", m.conv3.weight, (4 * planes, W) + (1,) * d)
    h.ok("no bias", all(c.bias is None for c in (m.conv1, m.conv2, m.conv3)))
    x = h.tensor("x", (h.int("B", 1, span=1), ci) + spatial(h, d, 2, 5), dtype=h.torch.float32)
    fx = h.freeze(x)
    y = h.must("forward", h.call(m.forward, x))
    u = F.relu(conv(h, d)(x, m.conv1.weight, None, 1, k // 2) * m.bn1.a + m.bn1.b)
    u = F.relu(conv(h, d)(u, m.conv2.weight, None, s, dil * (k // 2), dil, g) * m.bn2.a + m.bn2.b)
    v = conv(h, d)(u, m.conv3.weight) * m.bn3.a + m.bn3.b
    i = x if short is None else conv(h, d)(x, wd, None, s)
    h.shape_eq("output", y, h.shapeof(v))
    h.ok("norm channels", m.bn1.channels == W and m.bn2.channels == W and
         m.bn3.channels == 4 * planes)
    each_relu(h, "residual block", y, h.shapeof(v), lambda *q: h.at(v, *q) + h.at(i, *q))
    h.frame("input", fx)


def one(v):
    v = v if isinstance(v, (tuple, list)) else (v,)
    assert len(set(v)) == 1
    return v[0]


PLANS = [([1], None), ([2], None), ([1, 1], None), ([1, 2, 1], None), ([2, 1, 1], ["stride", "stride"])]
DIL = [([1, 2, 2], ["dilation", "stride"]), ([1, 1, 2], ["stride", "dilation"]),
       ([2, 1, 1, 2], ["dilation", "dilation", "stride"])]


@contract("C28", [f + ".__init__" for f in NETS.values()] + [
    R[d] + f":ResNet{d}D._make_layer" for d in R] + [R[d] + ":convN" for d in R],
          cases=[dict(d=d, bot=b, plan=i, k=k) for d in (1, 2) for b in (0, 1)
                 for i in range(len(PLANS) + (len(DIL) if b else 0)) for k in (3, 5)
                 if k == 3 or i == 3])
def construction(h, d, bot, plan, k):
    """stages of 64 * 2**i maps (times the expansion); every stage after the first halves by
    stride or doubles the dilation (of its later convolutions), in its first block; shortcuts
    are projected by a strided 1-convolution and a norm where shape changes"""
    layers, types = (PLANS + DIL)[plan]
    E = 4 if bot else 1
    classes = h.choice("classes", [1, 3])
    ci = h.choice("in", [1, 2])
    zero = h.choice("zero", [False, True])
    groups, width = ((1, 64) if not bot else h.choice("groups", [(1, 64), (2, 64), (2, 32)]))
    norm = None if h.choice("norm", [False, True]) else affine(h, "n")
    if zero:
        norm = None
    m = h.must("construct", h.call(h.fn(NETS[d, bot]), ci, list(layers), classes, kernel_size=k,
                                   zero_init_residual=zero, groups=groups, width_per_group=width,
                                   stride_type=types and list(types), norm_layer=norm))
    ntype = "Affine" if norm else ("GroupNorm1D" if d == 1 else "GroupNorm")

    def is_norm(x, c):
        if type(x).__name__ != ntype:
            return False
        if norm:
            return x.channels == c
        return x.num_channels == c and x.num_groups == c

    def is_conv(x, i, o, kk, s=1, p=0, dil=1, g=1):
        return type(x).__name__ == f"Conv{d}d" and \
            tuple(int(v) for v in x.weight.shape) == (o, i // g) + (kk,) * d and \
            one(x.stride) == s and one(x.padding) == p and one(x.dilation) == dil and \
            x.groups == g and x.bias is None

    h.ok("stem convolution", is_conv(m.conv1, ci, 64, 7, 2, 3))
    h.ok("stem norm", is_norm(m.bn1, 64))
    h.ok("one stage per entry", len(m.residual_layers) == len(layers))
    inp, dil = 64, 1
    for i, (n, stage) in enumerate(zip(layers, m.residual_layers)):
        planes = 64 * 2 ** i
        kind = None if i == 0 else (types or ["stride"] * len(layers))[i - 1]
        s, prev = (2 if kind == "stride" else 1), dil
        if kind == "dilation":
            dil *= 2
        h.ok(f"stage {i}: number of blocks", len(stage) == n)
        for j, b in enumerate(stage):
            nm = f"stage {i} block {j}"
            st, dl = (s, prev) if j == 0 else (1, dil)
            h.ok(nm + ": type", type(b).__name__ == ("Bottleneck" if bot else "BasicBlock"))
            if bot:
                W = int(planes * width / 64) * groups
                h.ok(nm + ": convolutions", is_conv(b.conv1, inp, W, k, 1, k // 2) and
                     is_conv(b.conv2, W, W, k, st, dl * (k // 2), dl, groups) and
                     is_conv(b.conv3, W, planes * 4, 1))
                h.ok(nm + ": norms", is_norm(b.bn1, W) and is_norm(b.bn2, W) and
                     is_norm(b.bn3, 4 * planes))
                last = b.bn3
            else:
                h.ok(nm + ": convolutions", is_conv(b.conv1, inp, planes, k, st, k // 2) and
                     is_conv(b.conv2, planes, planes, k, 1, k // 2))
                h.ok(nm + ": norms", is_norm(b.bn1, planes) and is_norm(b.bn2, planes))
                last = b.bn2
            if zero and not h.sym:
                h.ok(nm + ": starts as identity", bool((last.weight == 0).all()))
                h.ok(nm + ": other norms at one", bool((b.bn1.weight == 1).all()))
            change = j == 0 and (s != 1 or inp != planes * E)
            h.ok(nm + ": shortcut", (b.downsample is not None) == change)
            if change and b.downsample is not None:
                h.ok(nm + ": projection", len(b.downsample) == 2 and
                     is_conv(b.downsample[0], inp, planes * E, 1, s) and
                     is_norm(b.downsample[1], planes * E))
            inp = planes * E
    h.shape_eq("head", m.fc.weight, (classes, inp))
    h.shape_eq("head bias", m.fc.bias, (classes,))


@contract("C28", [R[d] + f":ResNet{d}D.{n}" for d in R for n in ("forward", "_forward_impl")],
          cases=[dict(d=d, n=n) for d in (1, 2) for n in (1, 2, 3)], tol=dict(rtol=1e-3, atol=1e-4))
def composition(h, d, n):
    """stem convolution, norm, relu, max pooling of 3 by 2, the stages in order, the average
    over all positions and the linear head (stages standing in by affine maps)"""
    F = h.torch.nn.functional
    norm = affine(h, "n")
    m = h.must("construct", h.call(h.fn(NETS[d, 0]), 2, [1] * n, 3, norm_layer=norm))
    co = 64 * 2 ** (n - 1)

    class Stage(h.torch.nn.Module):
        def __init__(self, i):
            super().__init__()
            self.i, self.a, self.b = i, h.real(f"s{i}a"), h.real(f"s{i}b")

        def forward(self, x):
            y = x * self.a + self.b
            return h.torch.cat([y, y], 1) if self.i else y

    m.residual_layers = h.torch.nn.ModuleList([Stage(i) for i in range(n)])
    B = h.int("B", 1, span=1)
    x = h.tensor("x", (B, 2) + spatial(h, d, 4, 8 if d == 1 else 4), dtype=h.torch.float32)
    fx = h.freeze(x)
    y = h.must("forward", h.call(m.forward, x))
    v = F.relu(conv(h, d)(x, m.conv1.weight, None, 2, 3) * m.bn1.a + m.bn1.b)
    v = getattr(F, f"max_pool{d}d")(v, 3, 2, 1)
    for st in m.residual_layers:
        v = st(v)
    a = getattr(F, f"adaptive_avg_pool{d}d")(v, 1 if d == 1 else (1, 1))
    z = (0,) * d
    h.shape_eq("output", y, (B, 3))
    h.each("head", (B, 3), lambda b, c: h.same(h.at(y, b, c), h.at(m.fc.bias, c) + h.sum(
        co, lambda j: h.at(a, b, j, *z) * h.at(m.fc.weight, c, j))))
    h.frame("input", fx)


@contract("C28", [f + ".__init__" for f in NETS.values()] + list(BB.values()),
          cases=[dict(d=d, why=w) for d in (1, 2) for w in ("length", "type", "even", "groups",
                                                           "width", "dilation")])
def refuses(h, d, why):
    """inconsistent stride types, even kernels, and what plain blocks do not support"""
    f = h.fn(NETS[d, 0])
    kw, L, err = {}, [1, 1], ValueError
    if why == "length":
        kw["stride_type"] = h.choice("t", [[], ["stride"] * 2])
    elif why == "type":
        kw["stride_type"] = [h.choice("t", ["", "pool", "Stride"])]
    elif why == "even":
        kw["kernel_size"] = h.choice("k", [2, 4])
    elif why == "groups":
        kw["groups"] = 2
    elif why == "width":
        kw["width_per_group"] = 32
    else:
        L, kw["stride_type"], err = [1, 2], ["dilation"], NotImplementedError
    h.ok("refused", h.call(f, 1, L, 2, **kw).raised(err))


@contract("C28", list(NETS.values()), cases=[dict(d=d, bot=b) for d in (1, 2) for b in (0, 1)],
          bounded="real networks of up to 3 stages on series of up to 200 samples (40 x 40)",
          samples=3, tol=dict(rtol=2e-3, atol=1e-3))
def real_networks(h, d, bot):
    """the unmodified networks against the composition of their own blocks"""
    F = h.torch.nn.functional
    L = h.choice("layers", [[1], [2, 1], [1, 1, 1]])
    m = h.must("construct", h.call(h.fn(NETS[d, bot]), 2, list(L), 3))
    m.eval()
    x = h.tensor("x", (2, 2) + tuple(h.int(n, 32, 200 if d == 1 else 40) for n in ("T", "U")[:d]),
                 dtype=h.torch.float32)
    y = h.must("forward", h.call(m, x))
    v = getattr(F, f"max_pool{d}d")(F.relu(m.bn1(m.conv1(x))), 3, 2, 1)
    for st in m.residual_layers:
        for b in st:
            v = b(v)
    v = m.fc(v.flatten(2).mean(-1))
    h.teq("network", y, v)
