"""C29: autoencoders, skip connections and size matching."""
from dv.harness import contract

A = "ml4gw.nn.autoencoder"
MS = A + ".utils:match_size"
SK, AD, CC = (f"{A}.skip_connection:{n}" for n in ("SkipConnection", "AddSkipConnect", "ConcatSkipConnect"))
AE, CB, CA = A + ".base:Autoencoder", A + ".convolutional:ConvBlock", A + ".convolutional:ConvolutionalAutoencoder"


def resized(h, x, n, *q):
    """x centred in n samples: missing samples are zeros, half (rounded down) of them in
    front; extra ones are cut, half (rounded up) of them in front"""
    d = n - h.shapeof(x)[-1]
    t = q[-1] - d // 2
    return h.ite(h.and_(t >= 0, t < h.shapeof(x)[-1]), lambda: h.at(x, *q[:-1], t), lambda: 0)


@contract("C29", [MS], cases=[{}])
def sizes(h):
    B, C, n, m = h.int("B", 1, span=2), h.int("C", 1, span=2), h.int("n", 1, span=12), h.int("m", 1, span=12)
    x = h.tensor("x", (B, C, n))
    fx = h.freeze(x)
    y = h.must("match", h.call(h.fn(MS), x, m))
    h.shape_eq("output", y, (B, C, m))
    h.each("centred", (B, C, m), lambda *q: h.same(h.at(y, *q), resized(h, x, m, *q)))
    h.frame("input", fx)


@contract("C29", [SK + ".forward", AD + ".forward", CC + ".forward", CC + ".get_out_channels", MS],
          cases=[dict(kind=k) for k in ("none", "add", "concat", 2, 3)])
def connections(h, kind):
    """the output matched in size to the state, alone, plus the state, or concatenated with it
    group by group"""
    B, n, m = h.int("B", 1, span=2), h.int("n", 1, span=9), h.int("m", 1, span=9)
    G = kind if isinstance(kind, int) else 1
    P = h.int("P", 1, span=3)
    Q = P if kind == "add" else h.int("Q", 1, span=3)  # channels per group of the state
    C = G * P
    x, s = h.tensor("x", (B, C, n)), h.tensor("state", (B, G * Q, m))
    fr = h.freeze(x), h.freeze(s)
    f = {"none": lambda: h.fn(SK)(), "add": lambda: h.fn(AD)(), "concat": lambda: h.fn(CC)()}.get(
        kind, lambda: h.fn(CC)(groups=G))()
    y = h.must("connect", h.call(f, x, s))
    X = lambda *q: resized(h, x, m, *q)
    if kind in ("none", "add"):
        h.ok("channels", h.same(f.get_out_channels(C), C))
        h.shape_eq("output", y, (B, C, m))
        h.each("values", (B, C, m), lambda *q: h.same(
            h.at(y, *q), X(*q) + (h.at(s, *q) if kind == "add" else 0)))
    else:
        h.ok("channels", h.same(f.get_out_channels(C), 2 * C))
        h.shape_eq("output", y, (B, C + G * Q, m))
        for g in range(G):
            h.each(f"group {g} input", (B, P, m), lambda b, p, t: h.same(
                h.at(y, b, g * (P + Q) + p, t), X(b, g * P + p, t)))
            h.each(f"group {g} state", (B, Q, m), lambda b, p, t: h.same(
                h.at(y, b, g * (P + Q) + P + p, t), h.at(s, b, g * Q + p, t)))
    for a, b in zip(fr, ("input", "state")):
        h.frame(b, a)


@contract("C29", [CC + ".forward"], cases=[{}])
def uneven_groups(h):
    G, C = h.int("G", 2, span=5), h.int("C", 1, span=9)
    h.assume(C % G != 0)
    x = h.tensor("x", (1, C, 4))
    h.ok("refused", h.call(h.fn(CC)(groups=G), x, x).raised(ValueError))


def stack(h, n, skip, coef):
    """an autoencoder of n blocks with affine encoders and decoders"""
    Base = h.fn(AE)

    class Block(h.torch.nn.Module):
        def __init__(self, k):
            super().__init__()
            self.k = k

        def encode(self, x):
            return x * coef["a"][self.k] + coef["b"][self.k]

        def decode(self, x):
            return x * coef["c"][self.k] + coef["d"][self.k]

    m = Base(skip_connection=skip)
    for k in range(n):
        m.blocks.append(Block(k))
    return m


@contract("C29", [AE + ".encode", AE + ".decode", AE + ".forward"],
          cases=[dict(n=n, skip=s) for n in (1, 2, 3, 4) for s in ("none", "add")])
def composition(h, n, skip):
    """encoders in order, decoders in reverse; with a skip connection each decoder but the
    last one is followed by the connection to the encoding of the same level"""
    coef = {k: [h.real(f"{k}{i}") for i in range(n)] for k in "abcd"}
    m = stack(h, n, h.fn(AD)() if skip == "add" else None, coef)
    shape = (h.int("B", 1, span=2), h.int("C", 1, span=2), h.int("T", 1, span=5))
    x = h.tensor("x", shape)
    fx = h.freeze(x)

    def spec(*q):
        v = h.at(x, *q)
        st = []
        for k in range(n):
            v = v * coef["a"][k] + coef["b"][k]
            st.append(v)
        for k in reversed(range(n)):
            v = v * coef["c"][k] + coef["d"][k]
            if skip == "add" and k:
                v = v + st[k - 1]
        return v, st

    y = h.must("forward", h.call(m, x))
    h.shape_eq("output", y, shape)
    h.each("forward", shape, lambda *q: h.same(h.at(y, *q), spec(*q)[0]))
    e = h.must("encode", h.call(m.encode, x))
    h.each("encoding", shape, lambda *q: h.same(h.at(e, *q), spec(*q)[1][-1]))
    e2, st = h.must("encode with states", h.call(m.encode, x, return_states=True))
    h.each("encoding with states", shape, lambda *q: h.same(h.at(e2, *q), spec(*q)[1][-1]))
    h.ok("number of states", len(st) == n - 1)
    for k, s in enumerate(st):
        h.each(f"state {k}", shape, lambda *q: h.same(h.at(s, *q), spec(*q)[1][k]))
    d = h.must("decode", h.call(m.decode, e, **(dict(states=st) if skip == "add" else {})))
    h.each("decode", shape, lambda *q: h.same(h.at(d, *q), spec(*q)[0]))
    h.ok("states left alone", len(st) == n - 1)
    if skip == "add":
        h.ok("states required", h.call(m.decode, e).raised(ValueError))
        h.ok("number of states checked", h.call(
            m.decode, e, states=list(st) + [e]).raised(ValueError))
    h.frame("input", fx)


def acts(h, kind):
    nn = h.torch.nn
    if kind == "none":
        return {}, "relu"
    if kind == "class":
        return dict(output_activation=nn.Identity), "id"
    return dict(output_activation=nn.Identity()), "id"


def act(h, kind, v):
    return h.ite(v >= 0, v, 0) if kind == "relu" else v


@contract("C29", [CB + ".__init__", CB + ".encode", CB + ".decode"],
          cases=[dict(k=k, s=s, g=g, out=o) for k, s, g in ((3, 1, 1), (4, 2, 1), (5, 3, 2), (1, 1, 2))
                 for o in ("none", "class", "instance")], tol=dict(rtol=1e-3, atol=1e-4))
def block(h, k, s, g, out):
    """encode: activation(norm(strided convolution)); decode: output activation(norm(transposed
    convolution)), both with (k - 1) // 2 padding and grouped weights"""
    nn = h.torch.nn
    F = nn.functional
    kw, oact = acts(h, out)
    dc = h.choice("decode_channels", [None, 2])
    ci, ec = 2 * g, 3
    if dc is not None:
        kw["decode_channels"] = dc * g
    m = h.must("construct", h.call(h.fn(CB), ci, ec, k, stride=s, groups=g, activation=nn.ReLU,
                                   norm=nn.Identity, **kw))
    T = h.int("T", k, span=9)
    B = h.int("B", 1, span=2)
    x = h.tensor("x", (B, ci, T), dtype=h.torch.float32)
    p = (k - 1) // 2
    h.shape_eq("encoder weights", m.encode_layer.weight, (ec * g, ci // g, k))
    e = h.must("encode", h.call(m.encode, x))
    r = F.conv1d(x, m.encode_layer.weight, None, s, p, 1, g)
    h.shape_eq("encoding", e, h.shapeof(r))
    h.each("encode", h.shapeof(r), lambda *q: h.same(h.at(e, *q), act(h, "relu", h.at(r, *q))))
    L = h.int("L", k, span=5)
    z = h.tensor("z", (B, ec * g, L), dtype=h.torch.float32)
    d = h.must("decode", h.call(m.decode, z))
    w = m.decode_layer.weight
    h.shape_eq("decoder weights", w, (ec * g, (ci if dc is None else dc * g) // g, k))
    r2 = F.conv_transpose1d(z, w, None, s, p, 0, g)
    h.shape_eq("decoding", d, h.shapeof(r2))
    h.each("decode", h.shapeof(r2), lambda *q: h.same(h.at(d, *q), act(h, oact, h.at(r2, *q))))


def conv_sizes(T, k, s):
    p = (k - 1) // 2
    n = (T + 2 * p - k) // s + 1
    return n, (n - 1) * s - 2 * p + k


@contract("C29", [CA + ".__init__", CA + ".forward", CA + ".decode", AE + ".decode", AE + ".encode",
                  CB + ".__init__"],
          cases=[dict(skip=s, st=t, g=g, n=n, act=a) for s in ("none", "add", "concat")
                 for t in (1, 2) for g in (1, 2) for n in (1, 2, 3) for a in ("none", "class")],
          tol=dict(rtol=1e-3, atol=1e-4))
def convolutional(h, skip, st, g, n, act):
    """level i encodes channels[i] * groups channels from the previous level's and decodes them
    back (with twice as many inputs where states are concatenated); the output has the size of
    the input and the requested number of channels; only the outermost decoder has the output
    activation.  Blocks enter through their contract: encode and decode replaced (symbolically)
    by stand-ins that check what they are given and return arbitrary values of the right size"""
    nn = h.torch.nn
    k = 3
    sk = {"none": lambda: None, "add": lambda: h.fn(AD)(),
          "concat": lambda: h.fn(CC)(groups=g) if g > 1 else h.fn(CC)()}[skip]()
    ci, chans = 2, [2, 4, 2][:n]
    dc = h.choice("decode", [None, 4])
    kw = {} if dc is None else dict(decode_channels=dc)
    if act == "class":
        kw["output_activation"] = nn.Identity
    m = h.must("construct", h.call(h.fn(CA), ci, chans, k, stride=st, groups=g,
                                   norm=nn.Identity, skip_connection=sk, **kw))
    T = h.int("T", 12, span=9)
    B = h.int("B", 1, span=2)
    x = h.tensor("x", (B, ci, T), dtype=h.torch.float32)
    co = ci if dc is None else dc
    h.ok("one block per level", len(m.blocks) == n)
    inc = [ci] + [c * g for c in chans]
    for i, b in enumerate(m.blocks):
        dec_in = inc[i + 1] * (2 if skip == "concat" and i < n - 1 else 1)
        dec_out = co if i == 0 else inc[i]
        h.shape_eq(f"encoder {i}", b.encode_layer.weight, (inc[i + 1], inc[i] // g, k))
        h.shape_eq(f"decoder {i}", b.decode_layer.weight, (dec_in, dec_out // g, k))
        h.ok(f"strides {i}", tuple(b.encode_layer.stride) == tuple(b.decode_layer.stride) == (st,))
        h.ok(f"activation {i}", type(b.activation).__name__ == "ReLU")
        h.ok(f"output activation {i}", type(b.output_activation).__name__ == (
            "Identity" if i == 0 and act == "class" else "ReLU"))
    sizes = [T]
    for i in range(n):
        sizes.append(conv_sizes(sizes[-1], k, st)[0])
    enc, dec = [None] * n, [None] * n

    def stub(b, i):
        E, D = b.encode, b.decode

        def encode(v):
            want = x if i == 0 else enc[i - 1]
            h.shape_eq(f"encoder {i} is given", v, (B, inc[i], sizes[i]))
            h.each(f"encoder {i} input", (B, inc[i], sizes[i]), lambda *q: h.same(
                h.at(v, *q), h.at(want, *q)))
            enc[i] = h.tensor(f"enc{i}", (B, inc[i + 1], sizes[i + 1]), dtype=h.torch.float32) \
                if h.sym else E(v)
            return enc[i]

        def decode(v):
            if i == n - 1:
                want = enc[i]
            elif sk is None:
                want = dec[i + 1]
            else:
                want = h.must("connect", h.call(sk, dec[i + 1], enc[i]))
            h.shape_eq(f"decoder {i} is given", v, h.shapeof(want))
            h.each(f"decoder {i} input", h.shapeof(want), lambda *q: h.same(
                h.at(v, *q), h.at(want, *q)))
            L = h.shapeof(v)[-1]
            dec[i] = h.tensor(f"dec{i}", (B, co if i == 0 else inc[i],
                                          (L - 1) * st - 2 * ((k - 1) // 2) + k),
                              dtype=h.torch.float32) if h.sym else D(v)
            return dec[i]

        b.encode, b.decode = encode, decode

    for i, b in enumerate(m.blocks):
        stub(b, i)
    for how in ("forward", "decode"):
        if how == "forward":
            y = h.must("forward", h.call(m.forward, x))
        else:
            e = h.must("encode", h.call(m.encode, x, return_states=True))
            y = h.must("decode", h.call(
                m.decode, e[0], states=list(e[1]) if sk is not None else None, input_size=T))
        h.shape_eq(how, y, (B, co, T))
        h.each(f"{how} is the last decoding, matched in size", (B, co, T), lambda *q: h.same(
            h.at(y, *q), resized(h, dec[0], T, *q)))
