"""C08: decimation keeps exactly the scheduled samples."""
import itertools

from dv.harness import contract

DE = "ml4gw.transforms.decimator:Decimator"
TG = [DE + ".__init__", DE + "._validate_inputs", DE + ".build_variable_indices",
      DE + ".split_by_schedule", DE + ".forward"]


def schedule(h, n, frac, order=True):
    """n segments [start, end, rate], times integers or eighths of a second. Any n divisors
    r_i of a number sr can be written r_i = prod(f_S for S containing i), sr = prod(f_S), S
    ranging over the subsets of the segments (layer the prime exponents)"""
    subs = list(itertools.product((0, 1), repeat=n))
    f = {S: h.int("f" + "".join(map(str, S)), 1, draw=lambda r: r.choice([1, 1, 1, 2, 2, 3]))
         for S in subs}
    sr = 8 if frac else 1
    for S in subs:
        sr = sr * f[S]
    rows, spec = [], []
    prev = h.int("t0", 0, span=3)
    first = prev
    for i in range(n):
        s = prev + (h.int(f"gap{i}", 0, span=2) if i else 0)
        if i and not order:
            s = first + h.int(f"from{i}", 0, span=3)
        dur = h.int(f"dur{i}", 1, span=20 if frac else 3)
        e = s + dur
        rate, m = 1, 8 if frac else 1
        for S in subs:
            if S[i]:
                rate = rate * f[S]
            else:
                m = m * f[S]
        if frac:
            rows.append([s / 8, e / 8, rate * 1.0])
            a, b = (s - first) * (sr // 8), (e - first) * (sr // 8)
            ln = -(-(b - a) // m)
        else:
            rows.append([s, e, rate])
            a, b = (s - first) * sr, (e - first) * sr
            ln = dur * rate
        spec.append((a, b, m, ln))
        prev = e
    return sr, h.torch.tensor(rows), spec, spec[-1][1]


@contract("C08", TG, cases=[dict(n=n, frac=f, split=s, order=o) for n in (1, 2, 3) for f in (0, 1)
                            for s in (True, False) for o in (1, 0) if not (
                                o == 0 and (not s or n == 1 or (n == 3 and f))
                                or (n == 3 and f and not s))], timeout_ms=20000)
def decimate(h, n, frac, split, order):
    """segment i holds the samples start_i, start_i + M_i, ... before end_i (counted from
    the start of the schedule), M_i = sample rate / target rate; joined or as a list"""
    sr, sched, spec, T = schedule(h, n, frac, order=order)
    for a, b, m, ln in spec:
        h.assume(b <= T)
    B, C = h.int("B", 1, span=2), h.int("C", 1, span=2)
    d = h.must("construct", h.call(h.fn(DE), sr, sched, split))
    x = h.tensor("x", (B, C, T))
    fx = h.freeze(x)
    y = h.must("forward", h.call(d.forward, x))
    if split:
        h.eq("one output per segment", len(y), n)
        for i, (a, b, m, ln) in enumerate(spec):
            h.shape_eq(f"segment {i}", y[i], (B, C, ln))
            h.each(f"segment {i} samples", (B, C, ln), lambda q, c, k: h.same(
                h.at(y[i], q, c, k), h.at(x, q, c, a + k * m)))
    else:
        h.shape_eq("output", y, (B, C, sum(s[3] for s in spec)))
        off = 0
        for i, (a, b, m, ln) in enumerate(spec):
            o = off
            h.each(f"segment {i} samples", (B, C, ln), lambda q, c, k: h.same(
                h.at(y, q, c, o + k), h.at(x, q, c, a + k * m)))
            off = off + ln
    h.frame("input", fx)


@contract("C08", TG, cases=[dict(split=s) for s in (True, False)])
def wrong_length(h, split):
    """an input that does not span the schedule is refused"""
    sr, sched, spec, T = schedule(h, 2, 0)
    d = h.must("construct", h.call(h.fn(DE), sr, sched, split))
    L = h.int("L", 1, span=40)
    h.assume(L != T)
    h.ok("refused", h.call(d.forward, h.tensor("x", (1, 1, L))).raised(ValueError))


@contract("C08", TG, cases=[dict(n=n, which=w) for n in (1, 2, 3) for w in (
    "empty", "rate", "overlap", "shape") if not (w == "overlap" and n == 1)])
def refusals(h, n, which):
    """segments that end before they start, rates that do not divide the sample rate,
    overlapping segments (unless split) and malformed schedules are refused"""
    sr = h.int("sample_rate", 1, span=12)
    rows = [[h.int(f"s{i}", 0, span=6), h.int(f"e{i}", 0, span=8), h.int(f"r{i}", 1, span=6)]
            for i in range(n)]
    if which == "shape":
        h.ok("two columns", h.call(h.fn(DE), sr, h.torch.tensor([r[:2] for r in rows])
                                   ).raised(ValueError))
        h.ok("one dimension", h.call(h.fn(DE), sr, h.torch.tensor(rows[0])).raised(ValueError))
        return
    if which == "empty":
        h.assume(h.or_(*[e <= s for s, e, r in rows]))
    elif which == "rate":
        h.assume(h.or_(*[sr % r != 0 for s, e, r in rows]))
    else:
        h.assume(h.or_(*[rows[i + 1][0] < rows[i][1] for i in range(n - 1)]))
    h.ok("refused", h.call(h.fn(DE), sr, h.torch.tensor(rows), False).raised(ValueError))
    if which != "overlap":
        h.ok("refused", h.call(h.fn(DE), sr, h.torch.tensor(rows), True).raised(ValueError))
