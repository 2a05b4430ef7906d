"""Real functions (sqrt, exp, trig, powers) as uninterpreted functions with
instantiated axioms, and finite sums."""
from fractions import Fraction

import z3

from .core import (
    Cx, I, R, Unsupported, ctx, cx, is_num, is_zero, tz, tzr, uf, vadd, vand, vcmp,
    vdiv, vmul, vneg, vsub, vfloor, fold,
)

PI = z3.Real("pi!")


def pi_axioms():
    return [PI > z3.Q(314159265, 100000000), PI < z3.Q(314159266, 100000000)]


def _ap(name, *args):
    args = [z3.simplify(tzr(a)) for a in args]
    f = uf(name, *([R] * (len(args) + 1)))
    e = f(*args)
    return e, args


def _lem(e, axs):
    c = ctx()
    L = c.__dict__.setdefault("lemmas", {})
    if e.get_id() not in L:
        L[e.get_id()] = axs
        c.keep.append(e)
    return e


def isq(q):
    """exact sqrt of a Fraction or None"""
    from math import isqrt

    if q < 0:
        return None
    a, b = isqrt(q.numerator), isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Fraction(a, b)
    return None


def vsqrt(a):
    if isinstance(a, Cx):
        raise Unsupported("complex sqrt")
    if is_num(a):
        q = isq(Fraction(a))
        if q is not None:
            return q
    e, (x,) = _ap("sqrt", a)
    return _lem(e, [z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)),
                    z3.Implies(x > 0, e > 0)])


def vexp(a):
    if isinstance(a, Cx):
        m = vexp(a.re)
        return Cx(vmul(m, vcos(a.im)), vmul(m, vsin(a.im)))
    if is_zero(a):
        return Fraction(1)
    e, (x,) = _ap("exp", a)
    return _lem(e, [e > 0, e >= x + 1, z3.Implies(x <= 0, e <= 1)])


def vlog(a):
    if is_num(a) and a == 1:
        return Fraction(0)
    e, (x,) = _ap("log", a)
    ex = uf("exp", R, R)(e)
    return _lem(e, [z3.Implies(x > 0, ex == x), z3.Implies(x > 1, e > 0),
                    z3.Implies(z3.And(x > 0, x < 1), e < 0),
                    z3.Implies(x == 1, e == 0)])


def _trig(name, other, a):
    e, (x,) = _ap(name, a)
    o = uf(other, R, R)(x)
    return _lem(e, [e * e + o * o == 1, e <= 1, e >= -1, o <= 1, o >= -1])


def vsin(a):
    if is_zero(a):
        return Fraction(0)
    return _trig("sin", "cos", a)


def vcos(a):
    if is_zero(a):
        return Fraction(1)
    return _trig("cos", "sin", a)


def vtan(a):
    if is_zero(a):
        return Fraction(0)
    return vdiv(vsin(a), vcos(a))


def vuf1(name, lo=None, hi=None):
    def f(a):
        if isinstance(a, Cx):
            raise Unsupported(name + " complex")
        e, _ = _ap(name, a)
        ax = []
        if lo is not None:
            ax.append(e >= tzr(lo))
        if hi is not None:
            ax.append(e <= tzr(hi))
        return _lem(e, ax)

    return f


def vasin(a):
    if isinstance(a, Cx):
        raise Unsupported("complex asin")
    e, (x,) = _ap("asin", a)
    s, c = uf("sin", R, R)(e), uf("cos", R, R)(e)
    dom = z3.And(x >= -1, x <= 1)
    return _lem(e, [z3.Implies(dom, z3.And(s == x, c >= 0, c * c == 1 - x * x)),
                    z3.Implies(dom, z3.And(e >= -PI / 2, e <= PI / 2))])


def vpow(a, b):
    b = fold(b) if isinstance(b, z3.ExprRef) else b
    if isinstance(b, Fraction) and b.denominator == 1:
        b = int(b)
    if isinstance(b, int) and not isinstance(b, bool):
        if b >= 0:
            if b > 64 and not is_num(a):
                raise Unsupported("large power")
            if is_num(a):
                return (Fraction(a) if isinstance(a, Fraction) else a) ** b
            if b == 0:
                return Fraction(1) if isinstance(a, Cx) or tz(a).sort() == R else 1
            r = a
            for _ in range(b - 1):
                r = vmul(r, a)
            return r
        return vdiv(Fraction(1), vpow(a, -b))
    if isinstance(a, Cx) or isinstance(b, Cx):
        raise Unsupported("complex power")
    if b == Fraction(1, 2) and isinstance(b, Fraction):
        return vsqrt(a)
    if is_num(a) and a == 1:
        return Fraction(1)
    e, (x, y) = _ap("pow", a, b)
    ax = [z3.Implies(x > 0, e > 0)]
    return _lem(e, ax)


def vabsc(a):
    """modulus of a complex"""
    if is_zero(a.im):
        from .core import vabs

        return vabs(a.re)
    return vsqrt(vadd(vmul(a.re, a.re), vmul(a.im, a.im)))


# ------------------------------------------------------------------ sums
def _monomials(e):
    """polynomial terms of a som-simplified term -> list of factor lists"""
    if z3.is_app_of(e, z3.Z3_OP_ADD):
        return [m for i in range(e.num_args()) for m in _monomials(e.arg(i))]
    if z3.is_app_of(e, z3.Z3_OP_MUL):
        fs = []
        for i in range(e.num_args()):
            a = e.arg(i)
            if z3.is_app_of(a, z3.Z3_OP_MUL):
                fs += _monomials(a)[0]
            else:
                fs.append(a)
        return [fs]
    return [[e]]


def direct_only(c, e, bvid, memo):
    """does e reach the bound variable only through substitutable positions"""
    k = e.get_id()
    if k in memo:
        return memo[k]
    if e.num_args() == 0:
        r = bvid not in c.deps.get(k, ())
    else:
        r = all(direct_only(c, ch, bvid, memo) for ch in e.children())
    memo[k] = r
    return r


def vsum(n, fn, lo=0):
    """sum_{k=lo}^{lo+n-1} fn(k) ; fn total on that range"""
    c = ctx()
    if isinstance(n, z3.ExprRef):
        n = fold(z3.simplify(n))
    if isinstance(n, int) and n <= 24:
        r = Fraction(0)
        for k in range(n):
            r = vadd(r, fn(vadd(lo, k)))
        return r
    if not is_zero(lo):
        g = fn
        fn = lambda k: g(vadd(k, lo))  # noqa: E731
    c.bvdepth += 1
    bv = z3.Const(f"bv!{c.bvdepth}!0", I)
    try:
        body = c.scoped([vcmp(">=", bv, 0), vcmp("<", bv, n)], lambda: fn(bv))
    finally:
        c.bvdepth -= 1
    if isinstance(body, Cx):
        return Cx(vsum(n, lambda k: cx(fn(k)).re), vsum(n, lambda k: cx(fn(k)).im))
    if is_num(body):
        return vmul(Fraction(body), n)
    body = z3.simplify(tzr(body), som=True)
    c.keep.append((body, bv))
    bid = bv.get_id()
    if not direct_only(c, body, bid, {}):
        mons = _monomials(body)
        if len(mons) == 1:
            outs = [f for f in mons[0] if bid not in c.free_bvs(f)]
            if outs and len(outs) < len(mons[0]) and all(
                z3.is_rational_value(o) for o in outs
            ):
                co = Fraction(1)
                for o in outs:
                    co = vmul(co, fold(o))
                return vmul(co, c.fapp("sum", (), [((n,), lambda k: vdiv(fn(k), co))]))
        return c.fapp("sum", (), [((n,), fn)])
    total = Fraction(0)
    for fs in _monomials(body):
        ins, outs = [], []
        for f in fs:
            (ins if bid in c.free_bvs(f) else outs).append(f)
        co = Fraction(1)
        for o in outs:
            co = vmul(co, fold(o))
        if not ins:
            total = vadd(total, vmul(co, n))
            continue
        t = ins[0]
        for f in ins[1:]:
            t = t * f

        def row(k, t=t):
            return z3.substitute(t, (bv, tz(k)))

        total = vadd(total, vmul(co, _sum1(c, n, t, bv, row)))
    return total


def _sum1(c, n, t, bv, row):
    # delta extraction: sum_k If(k == e, a, 0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        g, a, b = t.arg(0), t.arg(1), t.arg(2)
        for (p, q, neg) in ((a, b, False), (b, a, True)):
            if z3.is_rational_value(q) and q.numerator_as_long() == 0:
                gg = z3.Not(g) if neg else g
                gg = z3.simplify(gg)
                if z3.is_eq(gg):
                    l, r = gg.arg(0), gg.arg(1)
                    for u, v in ((l, r), (r, l)):
                        if u.eq(bv) and bv.get_id() not in c.free_bvs(v):
                            cond = z3.And(v >= 0, v < tz(n))
                            return z3.If(cond, z3.substitute(p, (bv, v)), z3.RealVal(0))
    return c.fapp("sum", (), [((n,), row)])
