"""Trusted contracts of the torch operations used by the subject, as functions
on symbolic tensors."""
from fractions import Fraction
import types

import torch as _t
import z3

from . import core, funcs
from .core import (
    Cx, I, R, B, Sym, SymBool, SymInt, SymReal, Unsupported, ctx, cx, is_num, raw, tz,
    tzr, vadd, vand, vabs, vbool, vceil, vcmp, vdiv, vfloor, vfloordiv, vimplies, vite, vmax,
    vmin, vmod, vmul, vneg, vnot, vor, vreal, vsub, vtrunc, wrap, fold, _is_int, is_zero,
)
from .tensor import (
    CPLX, FLOATS, INTS, Size, SymTensor, Storage, broadcast, c2r, cat_of, const_tensor,
    is_tensor, memo, need, normdim, prod, r2c, rd, same, simp,
)

FN = {}
METHODS = {}
PROPS = {}
mk = SymTensor.make


def _aliases(f):
    """torch accepts numpy's names for dim and keepdim"""
    import functools
    import inspect

    ps = inspect.signature(f).parameters
    ax = "dim" in ps and "axis" not in ps
    kd = "keepdim" in ps
    if not (ax or kd):
        return f

    @functools.wraps(f)
    def g(*a, **k):
        if ax and "axis" in k:
            k["dim"] = k.pop("axis")
        if kd and "keepdims" in k:
            k["keepdim"] = k.pop("keepdims")
        return f(*a, **k)

    return g


def op(*names, method=True, prop=False):
    def d(f):
        if not prop:
            f = _aliases(f)
        for n in names:
            if not prop:
                FN[n] = f
            if method:
                METHODS[n] = f
            if prop:
                PROPS[n] = f
        return f

    return d


# ------------------------------------------------------------------ coercion
def dtype_of_scalar(v):
    v = raw(v)
    if isinstance(v, (bool, z3.BoolRef)):
        return _t.bool
    if isinstance(v, Cx):
        return _t.complex64
    if _is_int(v):
        return _t.int64
    return _t.float32


def conv(v, dt, src=None):
    """raw element -> raw element of dtype dt"""
    k = cat_of(dt)
    if k == 3:
        return cx(vreal(v)) if not isinstance(v, Cx) else v
    if isinstance(v, Cx):
        if k == 0:
            return vor(vcmp("!=", v.re, 0), vcmp("!=", v.im, 0))
        v = v.re
    if k == 0:
        return vbool(v)
    if k == 1:
        if isinstance(v, (bool, z3.BoolRef)):
            return vite(v, 1, 0)
        return v if _is_int(v) else vtrunc(v)
    if isinstance(v, (bool, z3.BoolRef)):
        return vite(v, Fraction(1), Fraction(0))
    return vreal(v)


def asdt(t, dt):
    if t.dtype is dt or t.dtype == dt:
        return t
    f = t.snap()
    a, b = cat_of(t.dtype), cat_of(dt)
    if a == b:
        return mk(t.shape, f, dt)
    return mk(t.shape, lambda *i: conv(f(*i), dt), dt)


def lift(x, dtype=None):
    if is_tensor(x):
        return x if dtype is None else asdt(x, dtype)
    if isinstance(x, (list, tuple)) and not isinstance(x, Size) or isinstance(x, Size):
        return tensor(x, dtype=dtype)
    from .pyshim import SymSeq

    if isinstance(x, SymSeq):
        return tensor(x, dtype=dtype)
    if isinstance(x, _t.Tensor):
        return from_real(x)
    if hasattr(x, "__array__") and getattr(x, "ndim", 0) > 0:
        return from_real(_t.as_tensor(x))
    if isinstance(x, float) and x == float("-inf"):
        # minus infinity stands for log(0)
        return const_tensor(funcs.vlog(Fraction(0)), dtype or _t.float32)
    v = raw(x)
    dt = dtype or dtype_of_scalar(v)
    v = conv(v, dt)
    return const_tensor(v, dt)


def from_real(x):
    """a concrete tensor produced by the real library (float literals kept exact by repr)"""
    x = x.detach()
    shape = tuple(x.shape)
    if x.numel() > 20000:
        raise Unsupported("large concrete tensor")
    flat = x.reshape(-1).tolist()
    k = cat_of(x.dtype)

    def fn(*idx):
        p = 0
        for i, d in zip(idx, shape):
            p = vadd(vmul(p, d), i)
        p = simp(p)
        if isinstance(p, int):
            return raw(flat[p])
        if len(flat) > 256:
            # known only to lie between the least and the largest element
            if k not in (1, 2) or any(v != v or abs(v) == float("inf") for v in flat):
                raise Unsupported("symbolic index into a concrete tensor")
            c = ctx()
            e = core.uf(f"table!{abs(hash(tuple(flat))) % 10**12}", I, sort_of(x.dtype))(tz(p))
            L = c.__dict__.setdefault("lemmas", {})
            if e.get_id() not in L:
                L[e.get_id()] = [z3.Implies(z3.And(p >= 0, p < len(flat)), z3.And(
                    e >= tz(raw(min(flat))), e <= tz(raw(max(flat)))))]
                c.keep.append(e)
            return e
        r = raw(flat[-1])
        for j in range(len(flat) - 2, -1, -1):
            r = vite(vcmp("==", p, j), raw(flat[j]), r)
        return r

    return mk(shape, fn, x.dtype)


def result_dtype(args):
    """torch type promotion"""
    best = None
    prio = {}
    for a in args:
        if is_tensor(a):
            p = 2 if a.ndim > 0 else 1
            dt = a.dtype
        else:
            p = 0
            dt = dtype_of_scalar(a)
        k = cat_of(dt)
        prio.setdefault(p, []).append(dt)
    cur = None
    for p in (2, 1, 0):
        for dt in prio.get(p, []):
            if cur is None:
                cur = dt
                cp = p
            elif cat_of(dt) > cat_of(cur):
                if p < cp or p == 0:
                    # category bump by lower priority: default types
                    if p == 0:
                        if cat_of(dt) == 3:
                            dt = r2c(cur) if cat_of(cur) == 2 else _t.complex64
                    elif cat_of(dt) == 3 and cat_of(cur) == 2:
                        dt = _t.promote_types(dt, cur)
                    cur, cp = dt, cp
                else:
                    cur = _t.promote_types(cur, dt)
            elif p == cp:
                cur = _t.promote_types(cur, dt)
            elif cat_of(dt) == cat_of(cur):
                pass
            elif cat_of(cur) == 3 and cat_of(dt) == 2 and p == cp:
                cur = _t.promote_types(cur, dt)
    return cur


def elementwise(f, *args, dtype=None, isbool=False):
    ts = [a if is_tensor(a) else lift(a) for a in args]
    if dtype is None:
        dt = _t.bool if isbool else result_dtype(
            [a if is_tensor(a) or isinstance(a, (Sym, int, float, complex, Fraction)) else t
             for a, t in zip(args, ts)])
    else:
        dt = dtype
    shape, maps = broadcast([t.shape for t in ts])
    fs = [t.snap() for t in ts]

    def fn(*idx):
        return f(*[g(*m(idx)) for g, m in zip(fs, maps)])

    return mk(shape, fn, dt)


def floaty(*args):
    dt = result_dtype(args)
    return _t.float32 if cat_of(dt) < 2 else dt


def _anytensor(*a):
    return any(is_tensor(x) for x in a)


def bin2(f, keep=None):
    def g(a, b, alpha=None, out=None):
        if alpha is not None:
            b = b * alpha
        return elementwise(f, a, b)

    return g


FN["add"] = METHODS["add"] = bin2(vadd)
FN["sub"] = METHODS["sub"] = FN["subtract"] = bin2(vsub)
FN["mul"] = METHODS["mul"] = FN["multiply"] = bin2(vmul)


@op("div", "true_divide", "divide")
def div(a, b, rounding_mode=None):
    if rounding_mode == "floor":
        return elementwise(vfloordiv, a, b)
    if rounding_mode == "trunc":
        return elementwise(lambda x, y: vtrunc(vdiv(vreal(x), y)), a, b)
    return elementwise(lambda x, y: vdiv(vreal(x), y), a, b, dtype=floaty(a, b))


@op("floor_divide")
def floor_divide(a, b):
    return elementwise(vfloordiv, a, b)


@op("remainder", "fmod")
def remainder(a, b):
    return elementwise(vmod, a, b)


@op("pow")
def pow_(a, b):
    if not is_tensor(b):
        rb = raw(b)
        dt = result_dtype([a, b])
        if cat_of(dt) < 2 and isinstance(rb, int) and rb < 0:
            dt = _t.float32
        return elementwise(lambda x: funcs.vpow(x, rb), a, dtype=dt)
    return elementwise(lambda x, y: funcs.vpow(x, y), a, b)


def _dunder(name, f, r=False):
    def g(self, o):
        if isinstance(o, (list, tuple, str, dict, type(None))):
            return NotImplemented
        return f(o, self) if r else f(self, o)

    setattr(SymTensor, name, g)


for _n, _f in (("add", FN["add"]), ("sub", FN["sub"]), ("mul", FN["mul"]), ("truediv", div),
               ("floordiv", floor_divide), ("mod", remainder), ("pow", pow_)):
    _dunder(f"__{_n}__", _f)
    _dunder(f"__r{_n}__", _f, True)

for _n, _o, _al in (("lt", "<", "less"), ("le", "<=", "less_equal"), ("gt", ">", "greater"),
                    ("ge", ">=", "greater_equal"), ("eq", "==", "equal_"),
                    ("ne", "!=", "not_equal")):
    def _mkc(o):
        def f(a, b):
            return elementwise(lambda x, y: vcmp(o, x, y), a, b, isbool=True)
        return f
    FN[_n] = METHODS[_n] = FN[_al] = _mkc(_o)

    def _mkd(o, f):
        def g(self, b):
            if b is None or isinstance(b, str):
                return o == "!="
            if isinstance(b, float) and b in (float("inf"), float("-inf")):
                big = b > 0
                v = {"<": big, "<=": big, ">": not big, ">=": not big, "==": False,
                     "!=": True}[o]
                return mk(self.shape, lambda *i: v, _t.bool)
            return f(self, b)
        return g
    setattr(SymTensor, f"__{_n}__", _mkd(_o, FN[_n]))
SymTensor.__hash__ = object.__hash__

for _n, _f in (("and", vand), ("or", vor)):
    def _mkl(f):
        def g(a, b):
            if is_tensor(a) and cat_of(a.dtype) == 1:
                raise Unsupported("bitwise op on integers")
            return elementwise(lambda x, y: f(x, y), a, b, isbool=True)
        return g
    FN[f"logical_{_n}"] = METHODS[f"logical_{_n}"] = FN[f"bitwise_{_n}"] = _mkl(_f)
    _dunder(f"__{_n}__", FN[f"logical_{_n}"])
    _dunder(f"__r{_n}__", FN[f"logical_{_n}"], True)


def _xor(a, b):
    return elementwise(lambda x, y: vcmp("!=", vbool(x), vbool(y)), a, b, isbool=True)


FN["logical_xor"] = METHODS["logical_xor"] = _xor
_dunder("__xor__", _xor)


@op("logical_not", "bitwise_not")
def logical_not(a):
    return elementwise(vnot, a, isbool=True)


SymTensor.__invert__ = logical_not


@op("neg", "negative")
def neg(a):
    return elementwise(vneg, a)


SymTensor.__neg__ = neg
SymTensor.__pos__ = lambda a: a


@op("abs", "absolute")
def abs_(a):
    dt = c2r(a.dtype) if cat_of(a.dtype) == 3 else a.dtype
    return elementwise(lambda v: funcs.vabsc(v) if isinstance(v, Cx) else vabs(v), a, dtype=dt)


SymTensor.__abs__ = abs_


def un(name, f):
    def g(a, out=None):
        if not is_tensor(a):
            raise TypeError(f"{name}(): argument 'input' must be Tensor")
        return elementwise(lambda v: f(v if isinstance(v, Cx) else vreal(v)), a, dtype=floaty(a))

    FN[name] = METHODS[name] = g
    return g


for _n, _f in (
    ("sqrt", funcs.vsqrt), ("exp", funcs.vexp), ("log", funcs.vlog), ("sin", funcs.vsin),
    ("cos", funcs.vcos), ("tan", funcs.vtan), ("atan", funcs.vuf1("atan")),
    ("arctan", funcs.vuf1("atan")),
    ("acos", funcs.vuf1("acos", 0, Fraction(31415927, 10000000))),
    ("arccos", funcs.vuf1("acos", 0, Fraction(31415927, 10000000))),
    ("asin", funcs.vasin), ("arcsin", funcs.vasin),
    ("log2", funcs.vuf1("log2")), ("log10", funcs.vuf1("log10")),
    ("tanh", funcs.vuf1("tanh", -1, 1)), ("sigmoid", funcs.vuf1("sigmoid", 0, 1)),
    ("sinh", funcs.vuf1("sinh")), ("cosh", funcs.vuf1("cosh", 1)),
    ("erf", funcs.vuf1("erf", -1, 1)), ("erfinv", funcs.vuf1("erfinv")),
    ("sinc", funcs.vuf1("sinc")), ("log1p", funcs.vuf1("log1p")),
    ("rsqrt", lambda v: vdiv(Fraction(1), funcs.vsqrt(v))),
    ("reciprocal", lambda v: vdiv(Fraction(1), v)),
):
    un(_n, _f)


@op("square")
def square(a):
    return a * a


def _round(v):
    return v if _is_int(v) else vreal(raw(round(SymReal(v))))


for _n, _f in (("floor", lambda v: vreal(vfloor(v))), ("ceil", lambda v: vreal(vceil(v))),
               ("trunc", lambda v: vreal(vtrunc(v))), ("round", _round)):
    def _mkr(f):
        def g(a, decimals=None):
            if decimals:
                raise Unsupported("round decimals")
            if cat_of(a.dtype) < 2:
                return a.copy()
            return elementwise(f, a)
        return g
    FN[_n] = METHODS[_n] = _mkr(_f)


@op("sign", "sgn")
def sign(a):
    return elementwise(
        lambda v: conv(vite(vcmp(">", v, 0), 1, vite(vcmp("<", v, 0), -1, 0)), a.dtype), a)


@op("copysign")
def copysign(a, b):
    return elementwise(
        lambda x, y: vite(vcmp(">=", y, 0), vabs(x), vneg(vabs(x))), a, b, dtype=floaty(a, b))


@op("atan2", "arctan2")
def atan2(a, b):
    def f(x, y):
        if is_zero(x) and is_num(y) and y > 0:
            return Fraction(0)
        e, (p, q) = funcs._ap("atan2", x, y)
        r = core.uf("hypot", R, R, R)(p, q)
        s, c = core.uf("sin", R, R)(e), core.uf("cos", R, R)(e)
        funcs._lem(e, [r * r == p * p + q * q, r >= 0, p == r * s, q == r * c,
                       s * s + c * c == 1])
        return e
    return elementwise(f, a, b, dtype=floaty(a, b))


@op("where")
def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    ts = [lift(c), a, b]
    dt = result_dtype([a, b])
    return elementwise(lambda k, x, y: vite(k, conv(x, dt), conv(y, dt)), ts[0], a, b, dtype=dt)


def _where_m(self, c, other):
    return where(c, self, other)


METHODS["where"] = _where_m


@op("minimum")
def minimum(a, b):
    return elementwise(vmin, a, b)


@op("maximum")
def maximum(a, b):
    return elementwise(vmax, a, b)


@op("clamp", "clip")
def clamp(a, min=None, max=None):
    r = a
    if min is not None and not (isinstance(min, float) and min == float("-inf")):
        r = elementwise(vmax, r, min)
    if max is not None and not (isinstance(max, float) and max == float("inf")):
        r = elementwise(vmin, r, max)
    return r if r is not a else a.copy()


@op("nan_to_num")
def nan_to_num(a, nan=0.0, posinf=None, neginf=None):
    """values are finite reals except a quotient by zero: one that vanishes does so for any
    numerator when every non-finite value becomes zero; other replacements are not modelled"""
    if nan != 0 or posinf is None or neginf is None or posinf != 0 or neginf != 0:
        return a.copy()

    def f(v):
        if z3.is_expr(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DIV:
            den = v.arg(1)
            if not z3.is_rational_value(den):
                return vite(vcmp("==", den, 0), Fraction(0), v)
        return v

    return elementwise(f, a)


METHODS["nan_to_num_"] = FN["nan_to_num_"] = lambda a, *r, **k: a.write(
    nan_to_num(a, *r, **k).snap())


@op("isnan", "isinf")
def isnan(a):
    return mk(a.shape, lambda *i: False, _t.bool)


@op("isfinite")
def isfinite(a):
    return mk(a.shape, lambda *i: True, _t.bool)


# ------------------------------------------------------------------ complex
@op("conj")
def conj(a):
    if cat_of(a.dtype) < 3:
        return a
    return elementwise(lambda v: Cx(cx(v).re, vneg(cx(v).im)), a)


@op("real", prop=True)
def real(a):
    if cat_of(a.dtype) < 3:
        return a
    return elementwise(lambda v: cx(v).re, a, dtype=c2r(a.dtype))


@op("imag", prop=True)
def imag(a):
    return elementwise(lambda v: cx(v).im, a, dtype=c2r(a.dtype))


FN["real"], FN["imag"] = real, imag


@op("complex", method=False)
def complex_(a, b):
    return elementwise(lambda x, y: Cx(x, y), a, b, dtype=r2c(result_dtype([a, b])))


@op("polar", method=False)
def polar(r, th):
    return elementwise(lambda x, y: Cx(vmul(x, funcs.vcos(y)), vmul(x, funcs.vsin(y))), r, th,
                       dtype=r2c(result_dtype([r, th])))


@op("view_as_real")
def view_as_real(a):
    f = a.snap()

    def fn(*idx):
        v = cx(f(*idx[:-1]))
        return vite(vcmp("==", idx[-1], 0), v.re, v.im)

    return mk(tuple(a.shape) + (2,), fn, c2r(a.dtype))


@op("view_as_complex")
def view_as_complex(a):
    f = a.snap()
    return mk(a.shape[:-1], lambda *i: Cx(f(*i, 0), f(*i, 1)), r2c(a.dtype))


@op("angle")
def angle(a):
    return atan2(imag(a), real(a))


# ------------------------------------------------------------------ creation
def _shape_args(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = a[0]
    out = []
    for d in a:
        v = raw(d)
        if not _is_int(v):
            raise TypeError("shape entries must be integers")
        if is_num(v):
            if v < 0:
                raise RuntimeError("negative dimension")
        else:
            need(vcmp(">=", v, 0), "Trying to create tensor with negative dimension")
        out.append(wrap(v))
    return tuple(out)


def creator(v):
    def f(*size, dtype=None, device=None, requires_grad=False, out=None, size_=None, **k):
        if "size" in k:
            size = (k["size"],)
        dt = dtype or _t.float32
        return mk(_shape_args(size), lambda *i: conv(v, dt), dt)

    return f


FN["zeros"] = creator(0)
FN["ones"] = creator(1)


def _empty(*size, dtype=None, device=None, **k):
    dt = dtype or _t.float32
    sh = _shape_args(size)
    return fresh_tensor("empty", sh, dt)


FN["empty"] = _empty


def sort_of(dt):
    return {0: B, 1: I, 2: R, 3: R}[cat_of(dt)]


def fresh_tensor(name, shape, dt, lo=None, hi=None, hi_strict=False, lo_strict=False):
    """arbitrary contents; optional element range as an instantiated axiom"""
    c = ctx()
    n = len(shape)
    if cat_of(dt) == 3:
        a = fresh_tensor(name + "_re", shape, c2r(dt), lo, hi)
        b = fresh_tensor(name + "_im", shape, c2r(dt), lo, hi)
        fa, fb = a.snap(), b.snap()
        return mk(shape, lambda *i: Cx(fa(*i), fb(*i)), dt)
    f = c.fresh_fun(name, *([I] * n + [sort_of(dt)])) if n else None
    k0 = c.fresh(name, sort_of(dt)) if n == 0 else None
    c.inputs.setdefault("__funs__", set()).add(f.name() if n else k0.decl().name())

    def fn(*idx):
        e = f(*[tz(i) for i in idx]) if n else k0
        axs = []
        if lo is not None:
            axs.append(tz(vcmp(">" if lo_strict else ">=", e, raw(lo))))
        if hi is not None:
            axs.append(tz(vcmp("<" if hi_strict else "<=", e, raw(hi))))
        if axs:
            inr = []
            for i, d in zip(idx, shape):
                inr += [vcmp(">=", i, 0), vcmp("<", i, rd(d))]
            g = vand(*inr)
            if g is False:
                return e
            L = c.__dict__.setdefault("lemmas", {})
            if e.get_id() not in L:
                L[e.get_id()] = [tz(vimplies(g, z3.And(*axs)))]
                c.keep.append(e)
        return e

    t = mk(shape, fn, dt)
    t.storage.name = name
    if name in ("randint", "rand", "uniform", "randn"):
        c.ranges[f.name() if n else k0.decl().name()] = (name, lo, hi, hi_strict, fn, n)
    return t


def like(v):
    def f(a, dtype=None, device=None, **k):
        dt = dtype or a.dtype
        return mk(a.shape, lambda *i: conv(v, dt), dt)

    return f


FN["zeros_like"] = like(0)
FN["ones_like"] = like(1)


@op("empty_like", method=False)
def empty_like(a, dtype=None, device=None):
    return fresh_tensor("empty", a.shape, dtype or a.dtype)


METHODS["new_zeros"] = lambda a, *s, dtype=None, device=None: FN["zeros"](*s, dtype=dtype or a.dtype)
METHODS["new_ones"] = lambda a, *s, dtype=None, device=None: FN["ones"](*s, dtype=dtype or a.dtype)


@op("full", method=False)
def full(size, v, dtype=None, device=None):
    dt = dtype or dtype_of_scalar(raw(v))
    if isinstance(v, float) and abs(v) == float("inf"):
        raise Unsupported("inf fill")
    x = conv(raw(v), dt)
    return mk(_shape_args((size,)), lambda *i: x, dt)


@op("full_like", method=False)
def full_like(a, v, dtype=None, device=None):
    dt = dtype or a.dtype
    if isinstance(v, float) and abs(v) == float("inf"):
        x = ctx().fresh("inf", R)
        return mk(a.shape, lambda *i: x, dt)
    x = conv(raw(v), dt)
    return mk(a.shape, lambda *i: x, dt)


@op("eye", method=False)
def eye(n, m=None, dtype=None, device=None):
    dt = dtype or _t.float32
    return mk((n, n if m is None else m),
              lambda i, j: conv(vite(vcmp("==", i, j), 1, 0), dt), dt)


@op("arange", method=False)
def arange(*a, dtype=None, device=None, start=0, end=None, step=1):
    if len(a) == 1:
        end = a[0]
    elif len(a) == 2:
        start, end = a
    elif len(a) == 3:
        start, end, step = a
    s, e, st = raw(start), raw(end), raw(step)
    isint = all(_is_int(v) for v in (s, e, st))
    dt = dtype or (_t.int64 if isint else _t.float32)
    d = vsub(e, s)
    if is_num(st) and st == 1 and isint:
        n = d
    elif isint:
        n = vneg(vfloordiv(vneg(d), st))
    else:
        n = vceil(vdiv(vreal(d), st))
    if is_num(st) and st > 0 or not is_num(st):
        c = vcmp(">=", d, 0)
        if not ctx().decide_fork(c):
            raise RuntimeError("upper bound and lower bound inconsistent with step sign")
    n = simp(n)
    return mk((wrap(n),), lambda i: conv(vadd(s, vmul(i, st)), dt), dt)


@op("linspace", method=False)
def linspace(start, end, steps, dtype=None, device=None):
    dt = dtype or _t.float32
    s, e, n = vreal(raw(start)), vreal(raw(end)), raw(steps)
    n1 = vsub(n, 1)
    return mk((wrap(n),), lambda i: vite(
        vcmp("==", n1, 0), s, vadd(s, vdiv(vmul(i, vsub(e, s)), n1))), dt)


def Tensor_ctor(data=None, *rest, **k):
    if data is None:
        return FN["zeros"](0)
    if rest or isinstance(data, (int, SymInt)):
        return _empty(data, *rest)
    t = lift(data)
    if cat_of(t.dtype) == 1:
        # integers pass through a 24-bit significand
        f = t.snap()
        f32 = core.uf("f32round", I, R)

        def fn(*i):
            v = f(*i)
            if is_num(v):
                if abs(v) <= 2 ** 24:
                    return Fraction(v)
            e = f32(tz(v))
            return vite(vand(vcmp("<=", v, 2 ** 24), vcmp(">=", v, -(2 ** 24))), vreal(v), e)

        return mk(t.shape, fn, _t.float32)
    return asdt(t, _t.float32) if t.dtype != _t.float32 else t


def tensor(data, dtype=None, device=None, requires_grad=False):
    from .pyshim import SymSeq

    if is_tensor(data):
        t = data.copy()
        return asdt(t, dtype) if dtype else t
    if isinstance(data, SymSeq):
        first = data.fn(z3.Int("probe!"))
        if is_tensor(first):
            t = stack(data)
        elif isinstance(first, (SymSeq, list, tuple)):
            sub = lift(first)
            shp = sub.shape
            data_fn = data.fn

            def fn(i, *rest):
                return lift(data_fn(i)).snap()(*rest)

            t = mk((data.n,) + tuple(shp), fn, sub.dtype)
        else:
            dt = dtype_of_scalar(first)
            data_fn = data.fn
            t = mk((data.n,), lambda i: conv(raw(data_fn(i)), dt), dt)
        return asdt(t, dtype) if dtype else t
    if isinstance(data, (list, tuple)):
        tab = _table(data)
        if tab is not None and len(tab[1]) > 1:
            return from_table(tab[0], tab[1], dtype)
        if len(data) == 0:
            return mk((0,), lambda i: Fraction(0), dtype or _t.float32)
        items = [tensor(x) for x in data]
        dt = items[0].dtype
        for x in items[1:]:
            dt = _t.promote_types(dt, x.dtype)
        r = stack([asdt(x, dt) for x in items])
        return asdt(r, dtype) if dtype else r
    t = lift(data)
    return asdt(t, dtype) if dtype else t


FN["tensor"] = tensor


def _table(data):
    """(shape, flat raw values) of a nested list of numeric constants"""
    if isinstance(data, (list, tuple)):
        subs = [_table(x) for x in data]
        if not subs or any(x is None for x in subs):
            return None
        sh = subs[0][0]
        if any(x[0] != sh for x in subs):
            return None
        return (len(data),) + sh, [v for x in subs for v in x[1]]
    if is_tensor(data) or isinstance(data, SymSeqT()):
        return None
    try:
        v = raw(data)
    except Unsupported:
        return None
    return ((), [v]) if is_num(v) else None


def SymSeqT():
    from .pyshim import SymSeq

    return SymSeq


def from_table(shape, flat, dtype=None):
    dts = [dtype_of_scalar(v) for v in flat]
    dt = dtype or max(dts, key=cat_of)
    flat = [conv(v, dt) for v in flat]
    uniq = core.uf(f"table!{abs(hash(tuple(map(str, flat)))) % 10**12}", I,
                   {0: B, 1: I, 2: R, 3: R}[cat_of(dt)]) if len(flat) > 256 else None

    def fn(*idx):
        p = 0
        for i, d in zip(idx, shape):
            p = vadd(vmul(p, d), i)
        p = simp(p)
        if isinstance(p, int):
            return flat[p]
        if uniq is not None:
            return uniq(tz(p))
        r = flat[-1]
        for j in range(len(flat) - 2, -1, -1):
            r = vite(vcmp("==", p, j), flat[j], r)
        return r

    return mk(shape, fn, dt)


@op("as_tensor", method=False)
def as_tensor(data, dtype=None, device=None):
    if is_tensor(data):
        return asdt(data, dtype) if dtype else data
    return tensor(data, dtype=dtype)


FN["from_numpy"] = lambda a: lift(a)


# ------------------------------------------------------------------ random
def _rsize(a, size):
    if size is not None:
        a = (size,)
    return _shape_args(a)


def rand(*a, size=None, dtype=None, device=None, generator=None):
    return fresh_tensor("rand", _rsize(a, size), dtype or _t.float32, 0, 1, True)


def randn(*a, size=None, dtype=None, device=None, generator=None):
    return fresh_tensor("randn", _rsize(a, size), dtype or _t.float32)


def randint(low=0, high=None, size=None, *, dtype=None, device=None, generator=None):
    if high is None:
        low, high = 0, low
    elif isinstance(high, (tuple, list)):
        size, low, high = high, 0, low
    lo, hi = raw(low), raw(high)
    need(vcmp("<", lo, hi), "random_ expects 'from' to be less than 'to'")
    return fresh_tensor("randint", _rsize((), size), dtype or _t.int64, low, high, True)


def randperm(n, device=None, dtype=None, generator=None):
    t = fresh_tensor("randperm", (n,), dtype or _t.int64, 0, n, True)
    ctx().effects.append(("perm", t, raw(n)))
    return t


FN.update(rand=rand, randn=randn, randint=randint, randperm=randperm,
          rand_like=lambda a, **k: rand(*a.shape, dtype=a.dtype),
          randn_like=lambda a, **k: randn(*a.shape, dtype=a.dtype))


def _uniform_(self, lo=0, hi=1):
    return self.write(fresh_tensor("rand", self.shape, self.dtype, lo, hi).snap())


METHODS["uniform_"] = _uniform_
METHODS["fill_"] = lambda self, v: self.write(lambda *i: conv(raw(v), self.dtype))
METHODS["zero_"] = lambda self: self.write(lambda *i: conv(0, self.dtype))


def _copy_(self, o, non_blocking=False):
    setitem(self, Ellipsis, o)
    return self


METHODS["copy_"] = _copy_

# ------------------------------------------------------------------ dtype / device
_DT = {"float": _t.float32, "double": _t.float64, "long": _t.int64, "int": _t.int32,
       "bool": _t.bool, "cfloat": _t.complex64, "cdouble": _t.complex128,
       "half": _t.float16}
for _n, _d in _DT.items():
    METHODS[_n] = (lambda d: lambda a, **k: asdt(a, d))(_d)


@op("to", method=True)
def to(a, *args, dtype=None, device=None, copy=False, **k):
    for x in args:
        if isinstance(x, _t.dtype):
            dtype = x
        elif is_tensor(x):
            dtype = x.dtype
    r = asdt(a, dtype) if dtype is not None else a
    return r.copy() if copy and r is a else r


del FN["to"]
METHODS["type"] = lambda a, d=None, **k: asdt(a, d)
METHODS["type_as"] = lambda a, b: asdt(a, b.dtype)
for _n in ("contiguous", "detach", "cpu", "cuda", "requires_grad_", "float_"):
    METHODS[_n] = lambda a, *k, **kw: a
METHODS["numpy"] = lambda a, *k, **kw: a
METHODS["clone"] = lambda a, **k: a.copy()
FN["clone"] = METHODS["clone"]
METHODS["data_ptr"] = lambda a: id(a.storage)
METHODS["is_complex"] = lambda a: cat_of(a.dtype) == 3
FN["is_complex"] = METHODS["is_complex"]
METHODS["is_floating_point"] = lambda a: cat_of(a.dtype) == 2
FN["is_floating_point"] = METHODS["is_floating_point"]
FN["is_tensor"] = is_tensor
FN["numel"] = lambda a: a.numel()


def _astype(a, d, **k):
    m = {float: _t.float64, int: _t.int64, bool: _t.bool}
    return asdt(a, m.get(d, d))


METHODS["astype"] = _astype

# ------------------------------------------------------------------ shape ops


def _reaxes(a, newshape, f):
    """apply f to each ('ax', view_axis, start, step) -> new entry"""
    if callable(a.axes):
        return None
    return [x if x[0] == "fix" else f(x) for x in a.axes]


@op("transpose", "swapaxes")
def transpose(a, d0, d1):
    d0, d1 = normdim(d0, a.ndim), normdim(d1, a.ndim)
    p = list(range(a.ndim))
    p[d0], p[d1] = p[d1], p[d0]
    return permute(a, *p)


@op("permute")
def permute(a, *p):
    if len(p) == 1 and isinstance(p[0], (tuple, list)):
        p = p[0]
    p = [normdim(x, a.ndim) for x in p]
    if sorted(p) != list(range(a.ndim)):
        raise RuntimeError("permute dims")
    inv = [p.index(i) for i in range(a.ndim)]
    shape = [a.shape[x] for x in p]
    axes = _reaxes(a, shape, lambda x: ("ax", inv[x[1]], x[2], x[3]))
    if axes is None:
        g = a.axes
        axes = lambda *i: g(*[i[inv[j]] for j in range(len(i))])  # noqa: E731
    return a.view_of(shape, axes)


@op("movedim", "moveaxis")
def movedim(a, s, d):
    s, d = normdim(s, a.ndim), normdim(d, a.ndim)
    p = [i for i in range(a.ndim) if i != s]
    p.insert(d, s)
    return permute(a, *p)


@op("t")
def t_(a):
    if a.ndim < 2:
        return a
    if a.ndim > 2:
        raise RuntimeError("t() expects a tensor with <= 2 dimensions")
    return transpose(a, 0, 1)


PROPS["T"] = METHODS["T"] = lambda a: permute(a, *reversed(range(a.ndim)))
PROPS["mT"] = METHODS["mT"] = lambda a: transpose(a, -1, -2)
PROPS["data"] = METHODS["data"] = lambda a: a
PROPS["is_leaf"] = METHODS["is_leaf"] = lambda a: True
PROPS["real"] = METHODS["real"] = real
PROPS["imag"] = METHODS["imag"] = imag
PROPS["grad"] = METHODS["grad"] = lambda a: None
PROPS["itemsize"] = METHODS["itemsize"] = lambda a: a.dtype.itemsize


@op("unsqueeze")
def unsqueeze(a, dim):
    n = a.ndim + 1
    d = normdim(dim, n)
    shape = list(a.shape)
    shape.insert(d, 1)
    axes = _reaxes(a, shape, lambda x: ("ax", x[1] + (x[1] >= d), x[2], x[3]))
    if axes is None:
        g = a.axes
        axes = lambda *i: g(*(i[:d] + i[d + 1:]))  # noqa: E731
    return a.view_of(shape, axes)


@op("squeeze")
def squeeze(a, dim=None):
    if dim is None:
        ds = [i for i, d in enumerate(a.shape) if same(d, 1)]
    elif isinstance(dim, (tuple, list)):
        ds = [normdim(d, a.ndim) for d in dim]
        ds = [d for d in ds if same(a.shape[d], 1)]
    else:
        d = normdim(dim, a.ndim)
        ds = [d] if a.ndim and same(a.shape[d], 1) else []
    for d in sorted(ds, reverse=True):
        a = select(a, d, 0)
    return a


def select(a, d, i):
    """integer index on axis d (already normalised and checked)"""
    shape = list(a.shape)
    shape.pop(d)

    def f(x):
        if x[1] == d:
            return ("fix", vadd(vmul(i, x[3]), x[2]))
        return ("ax", x[1] - (x[1] > d), x[2], x[3])

    axes = _reaxes(a, shape, f)
    if axes is None:
        g = a.axes
        axes = lambda *ix: g(*(ix[:d] + (i,) + ix[d:]))  # noqa: E731
    return a.view_of(shape, axes)


def slice_axis(a, d, start, length, step=1):
    shape = list(a.shape)
    shape[d] = wrap(length)

    def f(x):
        if x[1] == d:
            return ("ax", d, vadd(x[2], vmul(start, x[3])), x[3] * step)
        return x

    axes = _reaxes(a, shape, f)
    if axes is None:
        g = a.axes

        def axes(*ix):
            ix = list(ix)
            ix[d] = vadd(start, vmul(ix[d], step))
            return g(*ix)

    return a.view_of(shape, axes)


@op("expand", "broadcast_to")
def expand(a, *sizes):
    if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
        sizes = sizes[0]
    off = len(sizes) - a.ndim
    if off < 0:
        raise RuntimeError("expand: too few sizes")
    shape = []
    bc = set()
    for j, s in enumerate(sizes):
        if j < off:
            shape.append(s)
            continue
        d = a.shape[j - off]
        rs = raw(s)
        if is_num(rs) and rs == -1:
            shape.append(d)
        elif is_num(rd(d)) and rd(d) == 1:
            shape.append(s)
            if not (is_num(rs) and rs == 1):
                bc.add(j - off)
        elif same(d, s):
            shape.append(d)
        elif same(d, 1):
            shape.append(s)
            bc.add(j - off)
        else:
            raise RuntimeError("The expanded size must match the existing size")
    f = a.snap()

    # read-only broadcast view over the same storage
    st, base = a.storage, a.base_idx

    def axes(*ix):
        return base(tuple(0 if j in bc else ix[off + j] for j in range(len(ix) - off)))

    if not bc and off == 0:
        return a
    return a.view_of(shape, axes)


METHODS["expand_as"] = lambda a, b: expand(a, *b.shape)


@op("repeat", "tile")
def repeat(a, *reps):
    if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
        reps = reps[0]
    off = len(reps) - a.ndim
    if off < 0:
        raise RuntimeError("repeat: too few repeats")
    f = a.snap()
    shape = []
    for j, r in enumerate(reps):
        d = 1 if j < off else a.shape[j - off]
        rr = raw(r)
        if is_num(rr):
            if rr < 0:
                raise RuntimeError("negative repeat")
        else:
            need(vcmp(">=", rr, 0), "Trying to create tensor with negative dimension")
        shape.append(wrap(simp(vmul(rr, rd(d)))))
    dims = list(a.shape)

    def fn(*ix):
        out = []
        for j in range(len(dims)):
            r, d, i = raw(reps[off + j]), rd(dims[j]), ix[off + j]
            if is_num(r) and r == 1:
                out.append(i)
            elif is_num(d) and d == 1:
                out.append(0)
            else:
                out.append(vmod(i, d))
        return f(*out)

    return mk(shape, fn, a.dtype)


def _infer(sizes, total_dims):
    """resolve -1"""
    sizes = list(sizes)
    neg = [i for i, s in enumerate(sizes) if is_num(raw(s)) and raw(s) == -1]
    if len(neg) > 1:
        raise RuntimeError("only one dimension can be inferred")
    return sizes, (neg[0] if neg else None)


def _group(src, dst, inferred):
    """match source extents to destination extents in contiguous groups.
    returns list of (src_axes, dst_axes)"""
    c = ctx()
    # strip unit dims
    S = [i for i, d in enumerate(src) if not (is_num(rd(d)) and rd(d) == 1)]
    D = [i for i, d in enumerate(dst) if i == inferred or not (is_num(rd(d)) and rd(d) == 1)]
    groups = []
    i = j = 0

    def pr(ax, dims):
        r = 1
        for k in ax:
            r = vmul(r, rd(dims[k]))
        return r

    def eq(a, b):
        e = vcmp("==", a, b)
        if isinstance(e, bool):
            return e
        e = z3.simplify(e, som=True)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return c.implied(e) is True

    # match prefix groups up to the inferred axis, then suffix groups
    jneg = D.index(inferred) if inferred is not None else None

    def match(S, D):
        out = []
        i = j = 0
        while i < len(S) and j < len(D):
            found = False
            best = None
            for tot in range(2, len(S) - i + len(D) - j + 1):
                for ni in range(1, tot):
                    nj = tot - ni
                    if i + ni > len(S) or j + nj > len(D):
                        continue
                    if eq(pr(S[i:i + ni], src), pr(D[j:j + nj], dst)):
                        best = (ni, nj)
                        found = True
                        break
                if found:
                    break
            if not found:
                return out, S[i:], D[j:]
            out.append((S[i:i + best[0]], D[j:j + best[1]]))
            i += best[0]
            j += best[1]
        return out, S[i:], D[j:]

    if jneg is None:
        g, rs, rdd = match(S, D)
        return g, rs, rdd
    pre, rs, rdd = match(S, D[:jneg])
    # now rs are remaining source axes; rdd must be matched with the inferred group
    # suffix matched from the right
    R_, T_ = rs[::-1], D[jneg + 1:][::-1]
    suf = []
    i = j = 0
    while j < len(T_) and i < len(R_):
        found = None
        for tot in range(2, len(R_) - i + len(T_) - j + 1):
            for ni in range(1, tot):
                nj = tot - ni
                if i + ni > len(R_) or j + nj > len(T_):
                    continue
                if eq(pr(R_[i:i + ni], src), pr(T_[j:j + nj], dst)):
                    found = (ni, nj)
                    break
            if found:
                break
        if not found:
            break
        suf.append((R_[i:i + found[0]][::-1], T_[j:j + found[1]][::-1]))
        i += found[0]
        j += found[1]
    mid_s = R_[i:][::-1]
    mid_d = rdd + [inferred] + T_[j:][::-1]
    return pre + [(mid_s, mid_d)] + suf[::-1], [], []


@op("reshape")
def reshape(a, *sizes):
    if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
        sizes = sizes[0]
    sizes, inf = _infer(sizes, a.shape)
    c = ctx()
    src = list(a.shape)
    groups, rs, rdd = _group(src, sizes, inf)
    if inf is None and (rs or rdd):
        # leftover: total element counts must agree
        tot_s, tot_d = prod([src[k] for k in rs]), prod([sizes[k] for k in rdd])
        need(vcmp("==", tot_s, tot_d), "shape is invalid for input size")
        groups = groups + [(rs, rdd)]
    shape = list(sizes)
    if inf is not None:
        gi = next(g for g in groups if inf in g[1])
        others = [k for k in gi[1] if k != inf]
        tot = prod([src[k] for k in gi[0]])
        d = prod([sizes[k] for k in others])
        if is_num(d) and d == 0:
            raise RuntimeError("cannot reshape tensor of 0 elements into unspecified dimension")
        if is_num(d) and d == 1:
            shape[inf] = wrap(tot)
        else:
            q = simp(vfloordiv(tot, d))
            need(vcmp("==", vmul(q, d), tot), "shape is invalid for input size")
            shape[inf] = wrap(q)
    for d in shape:
        v = raw(d)
        if is_num(v) and v < 0:
            raise RuntimeError("invalid shape dimension")

    def mapidx(ix):
        out = [0] * len(src)
        for sa, da in groups:
            if len(sa) == 1 and len(da) == 1:
                out[sa[0]] = ix[da[0]]
                continue
            flat = 0
            for k in da:
                flat = vadd(vmul(flat, rd(shape[k])), ix[k])
            if len(sa) == 0:
                continue
            if len(sa) == 1:
                out[sa[0]] = flat
                continue
            rem = flat
            for k in reversed(sa[1:]):
                out[k] = _fmod(rem, rd(src[k]))
                rem = _fdiv(rem, rd(src[k]))
            out[sa[0]] = rem
        return tuple(out)

    simple = all(len(s) <= 1 and len(d) <= 1 for s, d in groups)
    if simple and not callable(a.axes):
        m = {s[0]: d[0] for s, d in groups if s and d}

        def f(x):
            if x[1] in m:
                return ("ax", m[x[1]], x[2], x[3])
            return ("fix", x[2])

        return a.view_of(shape, _reaxes(a, shape, f))
    # may or may not share memory with a: writing to one makes the other unreadable
    f = a.snap()
    r = mk(shape, lambda *ix: f(*mapidx(ix)), a.dtype)
    g = a.storage.group
    if g is None:
        g = a.storage.group = [a.storage]
    g.append(r.storage)
    r.storage.group = g
    r.storage.serial = a.storage.serial
    return r


def _fdiv(a, b):
    """flat // extent, recognising k*b + r with 0 <= r < b"""
    s = _split_multiple(a, b)
    if s is not None:
        return s[0]
    return vfloordiv(a, b)


def _fmod(a, b):
    s = _split_multiple(a, b)
    if s is not None:
        return s[1]
    return vmod(a, b)


def _split_multiple(a, b):
    """if a == q*b + r syntactically with r provably in [0,b) -> (q, r)"""
    if not isinstance(a, z3.ExprRef):
        return None
    c = ctx()
    if z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args() == 2:
        m, r = a.arg(0), a.arg(1)
        bz = tz(b)
        if z3.is_app_of(m, z3.Z3_OP_MUL) and m.num_args() == 2:
            for q, e in ((m.arg(0), m.arg(1)), (m.arg(1), m.arg(0))):
                if e.eq(bz) and c.implied(z3.And(r >= 0, r < bz)) is True:
                    return q, r
    return None


def view(a, *sizes):
    if len(sizes) == 1 and isinstance(sizes[0], _t.dtype):
        raise Unsupported("view dtype")
    return reshape(a, *sizes)


METHODS["view"] = view
METHODS["view_as"] = lambda a, b: reshape(a, *b.shape)
METHODS["reshape_as"] = lambda a, b: reshape(a, *b.shape)


@op("flatten", "ravel")
def flatten(a, start_dim=0, end_dim=-1):
    if a.ndim == 0:
        return reshape(a, 1)
    s, e = normdim(start_dim, a.ndim), normdim(end_dim, a.ndim)
    mid = a.shape[s:e + 1]
    p = 1
    for d in mid:
        p = p * d
    return reshape(a, *(tuple(a.shape[:s]) + (p,) + tuple(a.shape[e + 1:])))


@op("unflatten")
def unflatten(a, dim, sizes):
    d = normdim(dim, a.ndim)
    return reshape(a, *(tuple(a.shape[:d]) + tuple(sizes) + tuple(a.shape[d + 1:])))


@op("atleast_1d", method=False)
def atleast_1d(a):
    return reshape(a, 1) if a.ndim == 0 else a


@op("flip")
def flip(a, *dims):
    if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
        dims = dims[0]
    ds = {normdim(d, a.ndim) for d in dims}
    f = a.snap()
    sh = a.shape
    return mk(sh, lambda *ix: f(*[vsub(vsub(rd(sh[j]), 1), i) if j in ds else i
                                  for j, i in enumerate(ix)]), a.dtype)


@op("roll")
def roll(a, shifts, dims=None):
    if dims is None:
        r = roll(flatten(a), shifts, 0)
        return reshape(r, *a.shape)
    if not isinstance(dims, (tuple, list)):
        dims, shifts = (dims,), (shifts,)
    f = a.snap()
    sh = a.shape
    ds = {normdim(d, a.ndim): raw(s) for d, s in zip(dims, shifts)}

    def fn(*ix):
        return f(*[vmod(vsub(i, ds[j]), rd(sh[j])) if j in ds else i for j, i in enumerate(ix)])

    return mk(sh, fn, a.dtype)


@op("cat", "concat", "concatenate", method=False)
def cat(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    from .pyshim import SymSeq

    if isinstance(ts, SymSeq):
        raise Unsupported("cat of a symbolic sequence")
    ts = [t for t in ts]
    if len(ts) == 0:
        raise RuntimeError("expected a non-empty list of Tensors")
    # legacy: 1-d empty tensors are skipped
    nn = [t for t in ts if not (t.ndim == 1 and is_num(rd(t.shape[0])) and rd(t.shape[0]) == 0)]
    ts = nn or ts[:1]
    nd = ts[0].ndim
    d = normdim(dim, nd)
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = _t.promote_types(dt, t.dtype)
        if t.ndim != nd:
            raise RuntimeError("Tensors must have same number of dimensions")
        for j in range(nd):
            if j != d and not same(t.shape[j], ts[0].shape[j]):
                raise RuntimeError(f"Sizes of tensors must match except in dimension {d}")
    ts = [asdt(t, dt) for t in ts]
    fs = [t.snap() for t in ts]
    ends = []
    tot = 0
    for t in ts:
        tot = vadd(tot, rd(t.shape[d]))
        ends.append(tot)
    shape = list(ts[0].shape)
    shape[d] = wrap(simp(tot))

    def fn(*ix):
        i = ix[d]
        r = None
        for k in range(len(ts) - 1, -1, -1):
            st = ends[k - 1] if k else 0
            # evaluate lazily with shifted index
            jx = list(ix)
            jx[d] = vsub(i, st)
            if k == len(ts) - 1:
                r = fs[k](*jx)
            else:
                cond = vcmp("<", i, ends[k])
                if cond is False:
                    continue
                r = vite(cond, fs[k](*jx), r)
        return r

    def fn2(*ix):
        i = ix[d]
        # try to resolve the segment syntactically
        if isinstance(simp(i), int) and all(isinstance(simp(e), int) for e in ends):
            iv = simp(i)
            for k, e in enumerate(ends):
                if iv < simp(e):
                    jx = list(ix)
                    jx[d] = iv - (simp(ends[k - 1]) if k else 0)
                    return fs[k](*jx)
        return fn(*ix)

    return mk(shape, fn2, dt)


@op("stack", method=False)
def stack(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    from .pyshim import SymSeq

    if isinstance(ts, SymSeq):
        probe = ts.fn(z3.Int("probe!"))
        probe = lift(probe)
        g = ts.fn
        d = normdim(dim, probe.ndim + 1)
        shape = list(probe.shape)
        shape.insert(d, ts.n)

        def fn(*ix):
            return lift(g(ix[d])).snap()(*(ix[:d] + ix[d + 1:]))

        return mk(shape, fn, probe.dtype)
    ts = [lift(t) for t in ts]
    if not ts:
        raise RuntimeError("stack expects a non-empty TensorList")
    nd = ts[0].ndim + 1
    d = normdim(dim, nd)
    for t in ts[1:]:
        if t.ndim != ts[0].ndim:
            raise RuntimeError("stack expects each tensor to be equal size")
        for x, y in zip(t.shape, ts[0].shape):
            if not same(x, y):
                raise RuntimeError("stack expects each tensor to be equal size")
    return cat([unsqueeze(t, d) for t in ts], d)


@op("column_stack", method=False)
def column_stack(ts):
    return cat([unsqueeze(t, 1) if t.ndim == 1 else t for t in ts], 1)


@op("split")
def split(a, sizes, dim=0):
    d = normdim(dim, a.ndim)
    n = rd(a.shape[d])
    if isinstance(sizes, (int, SymInt)):
        s = raw(sizes)
        q = simp(vneg(vfloordiv(vneg(n), s)))
        if not isinstance(q, int):
            # decide the number of chunks if it is a small constant
            for k in range(1, 7):
                if ctx().implied(vcmp("==", q, k)) is True:
                    q = k
                    break
            else:
                from .pyshim import SymSeq

                return SymSeq(wrap(q), lambda i: slice_axis(
                    a, d, vmul(i, s), vmin(s, vsub(n, vmul(i, s)))))
        out = []
        for i in range(q):
            ln = s if i < q - 1 else vsub(n, vmul(s, q - 1))
            out.append(slice_axis(a, d, vmul(s, i), simp(ln)))
        return tuple(out)
    tot = 0
    for s in sizes:
        tot = vadd(tot, raw(s))
    need(vand(vcmp("==", tot, n), *[vcmp(">=", raw(s), 0) for s in sizes]),
         "split_with_sizes expects split_sizes to sum exactly to the dimension")
    out, st = [], 0
    for s in sizes:
        out.append(slice_axis(a, d, st, raw(s)))
        st = vadd(st, raw(s))
    return tuple(out)


@op("chunk")
def chunk(a, n, dim=0):
    d = normdim(dim, a.ndim)
    s = vneg(vfloordiv(vneg(rd(a.shape[d])), raw(n)))
    return split(a, wrap(s), d)


@op("unbind")
def unbind(a, dim=0):
    d = normdim(dim, a.ndim)
    n = a.shape[d]
    if isinstance(n, Sym):
        raise Unsupported("unbind symbolic axis")
    return tuple(select(a, d, i) for i in range(n))


@op("narrow")
def narrow(a, dim, start, length):
    d = normdim(dim, a.ndim)
    return slice_axis(a, d, raw(start), raw(length))


@op("diagonal")
def diagonal(a, offset=0, dim1=0, dim2=1):
    if raw(offset) != 0:
        raise Unsupported("diagonal offset")
    d1, d2 = normdim(dim1, a.ndim), normdim(dim2, a.ndim)
    f = a.snap()
    rest = [j for j in range(a.ndim) if j not in (d1, d2)]
    n = a.shape[d1] if same(a.shape[d1], a.shape[d2]) else wrap(
        vmin(rd(a.shape[d1]), rd(a.shape[d2])))

    def fn(*ix):
        out = [0] * a.ndim
        for k, j in enumerate(rest):
            out[j] = ix[k]
        out[d1] = out[d2] = ix[-1]
        return f(*out)

    return mk([a.shape[j] for j in rest] + [n], fn, a.dtype)


METHODS["unfold"] = lambda a, dimension, size, step: _unfold_m(a, dimension, size, step)


def _unfold_m(a, dimension, size, step):
    dim = dimension
    d = normdim(dim, a.ndim)
    n, s, st = rd(a.shape[d]), raw(size), raw(step)
    need(vcmp(">=", n, s), "maximum size for tensor at dimension is smaller than size")
    cnt = vadd(vfloordiv(vsub(n, s), st), 1)
    shape = list(a.shape)
    shape[d] = wrap(simp(cnt))
    shape.append(size)
    f = a.snap()

    def fn(*ix):
        b = list(ix[:-1])
        b[d] = vadd(vmul(ix[d], st), ix[-1])
        return f(*b)

    return mk(shape, fn, a.dtype)


@op("meshgrid", method=False)
def meshgrid(*ts, indexing=None):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    if indexing == "xy":
        raise Unsupported("meshgrid xy")
    shape = [t.shape[0] for t in ts]
    out = []
    for k, t in enumerate(ts):
        f = t.snap()
        out.append(mk(shape, (lambda f, k: lambda *ix: f(ix[k]))(f, k), t.dtype))
    return tuple(out)


# ------------------------------------------------------------------ indexing
def norm_slice(s, n):
    """python slice on extent n -> (start, length, step)"""
    step = 1 if s.step is None else raw(s.step)
    if not is_num(step):
        st = ctx().implied(vcmp(">", step, 0))
        if st is not True:
            need(vcmp(">", step, 0), "slice step must be positive", ValueError)
    elif step <= 0:
        raise ValueError("step must be greater than zero")

    def clampi(v):
        v = raw(v)
        neg = vcmp("<", v, 0)
        neg = dec(neg)
        w = vite(neg, vadd(v, n), v)
        w = vite(dec(vcmp("<", w, 0)), 0, w)
        return vite(dec(vcmp(">", w, n)), n, w)

    def val(v):
        if is_tensor(v):
            return v.item()
        return v

    start = 0 if s.start is None else clampi(val(s.start))
    stop = n if s.stop is None else clampi(val(s.stop))
    d = vsub(stop, start)
    if is_num(step) and step == 1:
        ln = vite(dec(vcmp(">", d, 0)), d, 0)
    else:
        q = vneg(vfloordiv(vneg(d), step))
        ln = vite(dec(vcmp(">", d, 0)), q, 0)
    return simp(start), simp(ln), step


def dec(c):
    """replace a condition by a constant when the path decides it"""
    if isinstance(c, bool):
        return c
    r = ctx().implied(c)
    return c if r is None else r


def _is_adv(k):
    if is_tensor(k):
        return k.ndim > 0 or k.dtype == _t.bool
    return isinstance(k, list)


def getitem(a, key, for_write=False):
    if not isinstance(key, tuple):
        key = (key,)
    key = [lift(k) if isinstance(k, list) else k for k in key]
    nb = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        nb += k.ndim if (is_tensor(k) and k.dtype == _t.bool) else 1
    if not any(k is Ellipsis for k in key):
        key.append(Ellipsis)
    nfill = a.ndim - nb
    if nfill < 0:
        raise IndexError("too many indices for tensor")
    ks = []
    for k in key:
        if k is Ellipsis:
            ks += [slice(None)] * nfill
        else:
            ks.append(k)
    # basic part first
    adv = []  # (view axis, tensor)
    ax = 0
    for k in ks:
        if k is None:
            a = unsqueeze(a, ax)
            ax += 1
        elif isinstance(k, slice):
            if k == slice(None) if not any(isinstance(v, Sym) or is_tensor(v) for v in
                                           (k.start, k.stop, k.step)) else False:
                ax += 1
                continue
            st, ln, sp = norm_slice(k, rd(a.shape[ax]))
            if not is_num(sp):
                raise Unsupported("symbolic slice step")
            a = slice_axis(a, ax, st, ln, sp)
            ax += 1
        elif isinstance(k, bool):
            raise Unsupported("boolean scalar index")
        elif isinstance(k, (int, SymInt)) or (is_tensor(k) and k.ndim == 0
                                              and k.dtype != _t.bool):
            v = raw(k) if not is_tensor(k) else k.at()
            n = rd(a.shape[ax])
            need(vand(vcmp("<", v, n), vcmp(">=", v, vneg(n))),
                 "index out of range", IndexError)
            v = vite(dec(vcmp("<", v, 0)), vadd(v, n), v)
            a = select(a, ax, v)
        elif is_tensor(k):
            adv.append((ax, k))
            ax += k.ndim if k.dtype == _t.bool else 1
        elif isinstance(k, _t.Tensor) or hasattr(k, "__array__"):
            adv.append((ax, lift(k)))
            ax += 1
        else:
            raise Unsupported(f"index of type {type(k)}")
    if not adv:
        return a
    if len(adv) == 1 and adv[0][1].dtype == _t.bool:
        return mask_select(a, adv[0][0], adv[0][1])
    if any(k.dtype == _t.bool for _, k in adv):
        raise Unsupported("mixed boolean/integer advanced indexing")
    return gather_adv(a, adv)


def gather_adv(a, adv):
    shape_b, maps = broadcast([k.shape for _, k in adv])
    axs = [x for x, _ in adv]
    fks = [k.snap() for _, k in adv]
    f = a.snap()
    nb = len(shape_b)
    contiguous = axs == list(range(axs[0], axs[0] + len(axs)))
    pos = axs[0] if contiguous else 0
    rest = [j for j in range(a.ndim) if j not in axs]
    before = [j for j in rest if j < pos] if contiguous else []
    after = [j for j in rest if j not in before]
    shape = [a.shape[j] for j in before] + list(shape_b) + [a.shape[j] for j in after]
    # bounds: for arbitrary in-range position
    idx = [ctx().fresh("gi", I) for _ in shape_b]
    conds = [vand(vcmp(">=", i, 0), vcmp("<", i, rd(d))) for i, d in zip(idx, shape_b)]
    ok = []
    for (x, k), fk, m in zip(adv, fks, maps):
        n = rd(a.shape[x])
        v = fk(*m(tuple(idx)))
        ok.append(vand(vcmp("<", v, n), vcmp(">=", v, vneg(n))))
    index_obligation(conds, vand(*ok))

    def fn(*ix):
        bidx = ix[len(before):len(before) + nb]
        out = [0] * a.ndim
        for p, j in enumerate(before):
            out[j] = ix[p]
        for p, j in enumerate(after):
            out[j] = ix[len(before) + nb + p]
        for (x, k), fk, m in zip(adv, fks, maps):
            v = fk(*m(bidx))
            n = rd(a.shape[x])
            out[x] = vite(vcmp("<", v, 0), vadd(v, n), v)
        return f(*out)

    return mk(shape, fn, a.dtype)


def index_obligation(conds, ok):
    """index tensors must be in bounds: a named obligation of the trusted op"""
    c = ctx()
    g = vimplies(vand(*conds), ok)
    if g is True:
        return
    if c.__dict__.get("raise_ok_index"):
        return
    c.oblige("index tensor in bounds (precondition of tensor indexing)", g, assume_after=False)


def mask_order(m):
    """the enumeration of the True positions of a mask: their number n, the position of the
    p-th one, and the rank of a True position (mutually inverse; the same for masks of equal
    elements). Row-major order is not modelled beyond that."""
    c = ctx()
    fm = m.snap()
    probe = [z3.Int(f"mask_probe{j}") for j in range(m.ndim)]
    key = (tuple(str(raw(d)) for d in m.shape), tz(fm(*probe)).get_id())
    reg = c.__dict__.setdefault("mask_orders", {})
    if key in reg:
        return reg[key][:3]
    if m.ndim == 0:
        b = vbool(fm())
        n = vite(b, 1, 0)
        reg[key] = (n, lambda p: [], lambda: 0, fm())
        return reg[key][:3]
    n = c.fresh("nsel", I)
    c.axiom(n >= 0)
    c.axiom(tz(vcmp("<=", n, prod(m.shape))))
    sels = [c.fresh_fun("sel", I, I) for _ in range(m.ndim)]
    rank = c.fresh_fun("rank", *([I] * (m.ndim + 1)))
    L = c.__dict__.setdefault("lemmas", {})

    def pos(p):
        p = tz(p)
        ps = [s(p) for s in sels]
        if ps[0].get_id() not in L:
            inb = [z3.And(q >= 0, q < tz(rd(d))) for q, d in zip(ps, m.shape)]
            L[ps[0].get_id()] = [z3.Implies(z3.And(p >= 0, p < n), z3.And(
                *inb, tz(fm(*ps)), rank(*ps) == p))]
            c.keep.append(ps[0])
        return ps

    def rk(*ix):
        ix = [tz(i) for i in ix]
        r = rank(*ix)
        if r.get_id() not in L:
            inb = [z3.And(q >= 0, q < tz(rd(d))) for q, d in zip(ix, m.shape)]
            L[r.get_id()] = [z3.Implies(z3.And(*inb, tz(fm(*ix))), z3.And(
                r >= 0, r < n, *[s(r) == i for s, i in zip(sels, ix)]))]
            c.keep.append(r)
        return r

    reg[key] = (n, pos, rk, fm(*probe))
    return reg[key][:3]


def mask_select(a, ax, m):
    # trailing dims kept; the number selected is symbolic
    for j in range(m.ndim):
        if not same(a.shape[ax + j], m.shape[j]):
            raise IndexError("The shape of the mask does not match the indexed tensor")
    n, pos, _ = mask_order(m)
    f = a.snap()

    def fn(*ix):
        return f(*ix[:ax], *pos(ix[ax]), *ix[ax + 1:])

    return mk(list(a.shape[:ax]) + [wrap(n)] + list(a.shape[ax + m.ndim:]), fn, a.dtype)


def setitem(a, key, val):
    if not isinstance(key, tuple):
        key = (key,)
    key = [lift(k) if isinstance(k, list) else k for k in key]
    adv = [k for k in key if is_tensor(k) and (k.ndim > 0 or k.dtype == _t.bool)]
    if not adv:
        v = getitem(a, tuple(key))
        val = lift(val)
        val = asdt(val, a.dtype)
        if val.ndim > v.ndim:
            # leading unit axes of the value are dropped
            for _ in range(val.ndim - v.ndim):
                need(vcmp("==", rd(val.shape[0]), 1), "shape mismatch in assignment")
                val = select(val, 0, 0)
        val = expand(val, *v.shape) if val.ndim < v.ndim or not all(
            x is y for x, y in zip(val.shape, v.shape)) else val
        v.write(val.snap())
        return
    masks = [k for k in adv if k.dtype == _t.bool]
    if len(adv) == 1 and masks:
        # expand ellipsis
        nb = sum(0 if (k is None or k is Ellipsis) else (k.ndim if is_tensor(k) and
                 k.dtype == _t.bool else 1) for k in key)
        ks = []
        for k in key:
            if k is Ellipsis:
                ks += [slice(None)] * (a.ndim - nb)
            else:
                ks.append(k)
        mpos = next(i for i, k in enumerate(ks) if is_tensor(k) and k.dtype == _t.bool)
        if any(k is None for k in ks):
            raise Unsupported("None in masked assignment")
        m = ks[mpos]
        # apply basic indices around the mask
        pre = ks[:mpos]
        post = ks[mpos + 1:]
        v = getitem(a, tuple(pre + [slice(None)] * m.ndim + post))
        ax = sum(1 for k in pre if isinstance(k, slice))
        for j in range(m.ndim):
            if not same(v.shape[ax + j], m.shape[j]):
                raise IndexError("The shape of the mask does not match the indexed tensor")
        fm = m.snap()
        if is_tensor(val) and val.ndim > 0:
            n, _, rk = mask_order(m)
            md = m.ndim
            val = asdt(val, a.dtype)
            want = list(v.shape[:ax]) + [wrap(n)] + list(v.shape[ax + md:])
            if not all(x is y for x, y in zip(val.shape, want)) or val.ndim != len(want):
                val = expand(val, *want)
            fv = val.snap()
            v.write(lambda *ix: fv(*ix[:ax], rk(*ix[ax:ax + md]), *ix[ax + md:]),
                    touched=lambda *ix: vbool(fm(*ix[ax:ax + md])))
            return
        x = conv(raw(val) if not is_tensor(val) else val.at(), a.dtype)
        old = v.snap()
        md = m.ndim
        v.write(lambda *ix: x, touched=lambda *ix: vbool(fm(*ix[ax:ax + md])))
        return
    # integer advanced assignment
    if len(adv) == 1 and all(isinstance(k, slice) and k == slice(None) or is_tensor(k) and
                             k.ndim == 1 for k in key if k is not Ellipsis):
        nb = sum(1 for k in key if k is not Ellipsis)
        ks = []
        for k in key:
            if k is Ellipsis:
                ks += [slice(None)] * (a.ndim - nb)
            else:
                ks.append(k)
        ax = next(i for i, k in enumerate(ks) if is_tensor(k))
        idx = ks[ax]
        n = idx.shape[0]
        val = lift(val)
        if isinstance(n, Sym):
            raise Unsupported("scatter by a symbolic number of indices")
        for j in range(n):
            key2 = [slice(None)] * ax + [idx[j]]
            if val.ndim == 0:
                vj = val
            else:
                tgt_nd = a.ndim
                off = tgt_nd - val.ndim
                if off > ax:
                    vj = val
                else:
                    vj = select(val, ax - off, j if not same(val.shape[ax - off], 1) else 0)
            setitem(a, tuple(key2), vj)
        return
    raise Unsupported("advanced assignment")


@op("take")
def take(a, idx):
    f = a.snap()
    g = idx.snap()
    tot = prod(a.shape)
    ix = [ctx().fresh("gi", I) for _ in idx.shape]
    v = g(*ix)
    index_obligation([vand(vcmp(">=", i, 0), vcmp("<", i, rd(d))) for i, d in zip(ix, idx.shape)],
                     vand(vcmp("<", v, tot), vcmp(">=", v, vneg(tot))))
    flat = reshape(a, -1).snap() if a.ndim != 1 else f

    def fn(*i):
        v = g(*i)
        return flat(vite(vcmp("<", v, 0), vadd(v, tot), v))

    return mk(idx.shape, fn, a.dtype)


@op("take_along_dim")
def take_along_dim(a, idx, dim=None, axis=None):
    if axis is not None:
        dim = axis
    d = normdim(dim, a.ndim)
    if a.ndim != idx.ndim:
        raise RuntimeError("take_along_dim: same number of dims required")
    sa = [1 if j == d else x for j, x in enumerate(a.shape)]
    si = [1 if j == d else x for j, x in enumerate(idx.shape)]
    sh, (ma, mi) = broadcast([sa, si])
    shape = list(sh)
    shape[d] = idx.shape[d]
    f, g = a.snap(), idx.snap()

    def gi(ix):
        m = list(mi(tuple(0 if j == d else i for j, i in enumerate(ix))))
        m[d] = ix[d]
        return g(*m)

    ix = [ctx().fresh("gi", I) for _ in shape]
    v = gi(ix)
    n = rd(a.shape[d])
    index_obligation([vand(vcmp(">=", i, 0), vcmp("<", i, rd(x))) for i, x in zip(ix, shape)],
                     vand(vcmp("<", v, n), vcmp(">=", v, vneg(n))))

    def fn(*ix):
        m = list(ma(tuple(0 if j == d else i for j, i in enumerate(ix))))
        v = gi(ix)
        m[d] = vite(dec0(vcmp("<", v, 0)), vadd(v, n), v)
        return f(*m)

    return mk(shape, fn, a.dtype)


def dec0(c):
    return c


@op("gather")
def gather(a, dim, index):
    d = normdim(dim, a.ndim)
    if a.ndim != index.ndim:
        raise RuntimeError("gather: index must have the same number of dimensions")
    f, g = a.snap(), index.snap()
    for j in range(a.ndim):
        if j != d:
            need(vcmp("<=", rd(index.shape[j]), rd(a.shape[j])), "gather: size mismatch")
    ix = [ctx().fresh("gi", I) for _ in index.shape]
    v = g(*ix)
    index_obligation([vand(vcmp(">=", i, 0), vcmp("<", i, rd(x)))
                      for i, x in zip(ix, index.shape)],
                     vand(vcmp("<", v, rd(a.shape[d])), vcmp(">=", v, 0)))

    def fn(*ix):
        m = list(ix)
        m[d] = g(*ix)
        return f(*m)

    return mk(index.shape, fn, a.dtype)


@op("index_select")
def index_select(a, dim, index):
    key = [slice(None)] * normdim(dim, a.ndim) + [index]
    return getitem(a, tuple(key))


# ------------------------------------------------------------------ reductions
def _dims(a, dim):
    if dim is None:
        return list(range(a.ndim))
    if isinstance(dim, (tuple, list)):
        return sorted(normdim(d, a.ndim) for d in dim)
    return [normdim(dim, a.ndim)]


def _red(a, dim, keepdim, f, dtype):
    """f(dims, row) -> raw ; row(*reduced idx)"""
    ds = _dims(a, dim)
    g = a.snap()
    shape = []
    for j, d in enumerate(a.shape):
        if j in ds:
            if keepdim:
                shape.append(1)
        else:
            shape.append(d)
    rdims = [rd(a.shape[j]) for j in ds]

    def fn(*ix):
        def row(*r):
            out, p, q = [], 0, 0
            for j in range(a.ndim):
                if j in ds:
                    out.append(r[q])
                    q += 1
                    if keepdim:
                        p += 1
                else:
                    out.append(ix[p])
                    p += 1
            return g(*out)

        return f(rdims, row)

    return mk(shape, fn, dtype)


def nsum(dims, row):
    if len(dims) == 1:
        return funcs.vsum(dims[0], row)
    return funcs.vsum(dims[0], lambda k: nsum(dims[1:], lambda *r: row(k, *r)))


@op("sum")
def sum_(a, dim=None, keepdim=False, axis=None, dtype=None):
    if axis is not None:
        dim = axis
    dt = dtype or (_t.int64 if cat_of(a.dtype) < 2 else a.dtype)
    if cat_of(a.dtype) < 2:
        b = asdt(a, _t.int64)
        r = _red(b, dim, keepdim, nsum, dt)
        g = r.snap()
        return mk(r.shape, lambda *i: conv(g(*i), dt), dt)
    if a.ndim == 0:
        return a.copy()
    return _red(a, dim, keepdim, nsum, dt)


@op("mean")
def mean(a, dim=None, keepdim=False, axis=None, dtype=None):
    if axis is not None:
        dim = axis
    if cat_of(a.dtype) < 2:
        raise RuntimeError("mean(): input dtype should be floating point")
    if a.ndim == 0:
        return a.copy()
    return _red(a, dim, keepdim,
                lambda ds, row: vdiv(nsum(ds, row), prod([wrap(d) for d in ds])), a.dtype)


@op("var")
def var(a, dim=None, unbiased=True, keepdim=False, axis=None, correction=None):
    if axis is not None:
        dim = axis
    corr = (1 if unbiased else 0) if correction is None else correction

    def f(ds, row):
        n = prod([wrap(d) for d in ds])
        mu = vdiv(nsum(ds, row), n)
        s = nsum(ds, lambda *r: _sq(vsub(row(*r), mu)))
        return vdiv(s, vsub(n, raw(corr)))

    return _red(a, dim, keepdim, f, a.dtype)


def _sq(v):
    return vmul(v, v)


@op("std")
def std(a, dim=None, unbiased=True, keepdim=False, axis=None, correction=None):
    return FN["sqrt"](var(a, dim, unbiased, keepdim, axis, correction))


@op("norm")
def norm(a, p=2, dim=None, keepdim=False):
    if not (isinstance(p, (int, float)) and p == 2 or p == "fro" or isinstance(p, SymReal)):
        raise Unsupported("norm p")
    return FN["sqrt"](sum_(abs_(a) * abs_(a), dim=dim, keepdim=keepdim))


def _prod(a, dim=None, keepdim=False):
    def f(ds, row):
        if len(ds) != 1:
            raise Unsupported("prod over several axes")
        if not isinstance(ds[0], int):
            return ctx().fapp("prod", (), [((ds[0],), row)])
        r = 1
        for k in range(ds[0]):
            r = vmul(r, row(k))
        return r

    return _red(a, dim, keepdim, f, a.dtype)


FN["prod"] = METHODS["prod"] = _prod


def _quant(ds, row, fe):
    """(bound vars, in-range, body) or None when body involves functionals of them"""
    c = ctx()
    c.bvdepth += 1
    vs = [z3.Const(f"bv!{c.bvdepth}!{i}", I) for i in range(len(ds))]
    own = {v.get_id() for v in vs}
    try:
        body = c.scoped([vand(vcmp(">=", v, 0), vcmp("<", v, d)) for v, d in zip(vs, ds)],
                        lambda: row(*vs))
    finally:
        c.bvdepth -= 1
    # functionals / quotients that depend on the bound variables cannot be quantified
    if isinstance(body, Cx):
        return None
    for x in _consts(tz(body)):
        if own & set(c.deps.get(x.get_id(), ())):
            return None
    rng = vand(*[vand(vcmp(">=", v, 0), vcmp("<", v, d)) for v, d in zip(vs, ds)])
    return vs, rng, body


def _consts(e):
    from .prover import apps

    return [x for x in apps(e, [], set()) if x.num_args() == 0]


def _boolred(kind):
    def f(ds, row):
        c = ctx()
        if all(isinstance(d, int) and d <= 16 for d in ds):
            import itertools

            vals = [row(*i) for i in itertools.product(*[range(d) for d in ds])]
            return vor(*vals) if kind == "any" else vand(*vals)
        brow = lambda *r: vbool(row(*r))  # noqa: E731
        rr = brow if kind == "any" else (lambda *r: vnot(brow(*r)))

        def axs(k):
            out = []
            sk = [c.fresh("sk", I) for _ in ds]
            inr = vand(*[vand(vcmp(">=", s, 0), vcmp("<", s, d)) for s, d in zip(sk, ds)])
            out.append(vimplies(k, vand(inr, rr(*sk))))
            q = _quant(ds, rr, None)
            if q is not None:
                vs, rng, body = q
                out.append(z3.Implies(z3.Not(k), z3.ForAll(vs, z3.Implies(tz(rng), z3.Not(tz(body))))))
            return out

        k = c.fapp("any", (), [(tuple(ds), lambda *r: vite(rr(*r), 1, 0))], sort=B, axioms=axs)
        c.__dict__.setdefault("anys", {})[k.get_id()] = (tuple(ds), rr)
        return k if kind == "any" else z3.Not(k)

    def g(a, dim=None, keepdim=False, axis=None):
        if axis is not None:
            dim = axis
        if a.ndim == 0:
            return asdt(a, _t.bool)
        return _red(a, dim, keepdim, f, _t.bool)

    return g


FN["any"] = METHODS["any"] = _boolred("any")
FN["all"] = METHODS["all"] = _boolred("all")


class MinMax(tuple):
    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def _ext(kind):
    cmpop = ">=" if kind == "max" else "<="
    pick = vmax if kind == "max" else vmin

    def red(ds, row):
        c = ctx()
        if len(ds) == 1 and isinstance(ds[0], int) and ds[0] <= 12:
            if ds[0] == 0:
                raise Unsupported("reduction of an empty axis inside an element")
            r = row(0)
            for k in range(1, ds[0]):
                r = pick(r, row(k))
            return r
        probe = row(*[0 for _ in ds])
        isint = _is_int(probe)

        def axs(m):
            out = []
            sk = [c.fresh("sk", I) for _ in ds]
            inr = vand(*[vand(vcmp(">=", s, 0), vcmp("<", s, d)) for s, d in zip(sk, ds)])
            ne = vand(*[vcmp(">", d, 0) for d in ds])
            out.append(vimplies(ne, vand(inr, vcmp("==", m, row(*sk)))))
            q = _quant(ds, row, None)
            if q is not None:
                vs, rng, body = q
                out.append(z3.ForAll(vs, z3.Implies(tz(rng), tz(vcmp(cmpop, m, body)))))
            return out

        return c.fapp(kind, (), [(tuple(ds), row)], sort=I if isint else R, axioms=axs)

    def g(a, dim=None, keepdim=False, axis=None):
        if axis is not None:
            dim = axis
        if is_tensor(dim):
            return (maximum if kind == "max" else minimum)(a, dim)
        if dim is None or isinstance(dim, (tuple, list)):
            for j in _dims(a, dim):
                need(vcmp(">", rd(a.shape[j]), 0), f"{kind}(): expected non-empty", RuntimeError)
            return _red(a, dim, keepdim, red, a.dtype)
        j = normdim(dim, a.ndim)
        need(vcmp(">", rd(a.shape[j]), 0), f"{kind}(): expected non-empty", IndexError)
        v = _red(a, dim, keepdim, red, a.dtype)
        i = argext(kind)(a, dim, keepdim)
        return MinMax((v, i))

    return g, red


FN["max"], _maxred = _ext("max")
FN["min"], _minred = _ext("min")
METHODS["max"], METHODS["min"] = FN["max"], FN["min"]


def _am(kind):
    def f(a, dim=None, keepdim=False, axis=None):
        if dim is None:
            dim = axis if axis is not None else tuple(range(a.ndim))
        return _red(a, dim, keepdim, _maxred if kind == "max" else _minred, a.dtype)

    return f


FN["amax"] = METHODS["amax"] = _am("max")
FN["amin"] = METHODS["amin"] = _am("min")


def argext(kind):
    cmpop = ">=" if kind == "max" else "<="

    def red(ds, row):
        c = ctx()
        if len(ds) != 1:
            raise Unsupported("argmax over several axes")
        n = ds[0]

        def axs(m):
            out = [tz(vimplies(vcmp(">", n, 0), vand(vcmp(">=", m, 0), vcmp("<", m, n))))]
            best = row(m)
            if isinstance(n, int) and n <= 12:
                for k in range(n):
                    out.append(tz(vcmp(cmpop, best, row(k))))
                return out
            q = _quant(ds, row, None)
            if q is not None:
                vs, rng, body = q
                out.append(z3.ForAll(vs, z3.Implies(tz(rng), tz(vcmp(cmpop, best, body)))))
            return out

        return c.fapp("arg" + kind, (), [((n,), row)], sort=I, axioms=axs)

    def g(a, dim=None, keepdim=False):
        if dim is None:
            a, dim = flatten(a), 0
        return _red(a, dim, keepdim, red, _t.int64)

    return g


FN["argmax"] = METHODS["argmax"] = argext("max")
FN["argmin"] = METHODS["argmin"] = argext("min")


def opaque_red(kind, params=(), isint=False):
    def red(ds, row):
        return ctx().fapp(kind, tuple(params), [(tuple(ds), row)])
    return red


@op("median")
def median(a, dim=None, keepdim=False):
    v = _red(a, dim, keepdim, opaque_red("median"), a.dtype)
    if dim is None:
        return v
    return MinMax((v, None))


@op("quantile", "nanquantile")
def quantile(a, q, dim=None, keepdim=False, interpolation="linear"):
    if is_tensor(q) and q.ndim > 0:
        qs = [quantile(a, q[i], dim, keepdim, interpolation) for i in range(len(q))]
        return stack(qs)
    return _red(a, dim, keepdim, opaque_red("quantile", (raw(q), interpolation)), a.dtype)


@op("cumsum")
def cumsum(a, dim, dtype=None):
    d = normdim(dim, a.ndim)
    f = a.snap()

    def fn(*ix):
        return funcs.vsum(simp(vadd(ix[d], 1)), lambda k: f(*(ix[:d] + (k,) + ix[d + 1:])))

    return mk(a.shape, fn, _t.int64 if cat_of(a.dtype) < 2 else a.dtype)


def _cumext(kind):
    def g(a, dim):
        d = normdim(dim, a.ndim)
        f = a.snap()

        def fn(*ix):
            return (_minred if kind == "min" else _maxred)(
                [simp(vadd(ix[d], 1))], lambda k: f(*(ix[:d] + (k,) + ix[d + 1:])))

        return MinMax((mk(a.shape, fn, a.dtype), None))

    return g


FN["cummin"] = METHODS["cummin"] = _cumext("min")
FN["cummax"] = METHODS["cummax"] = _cumext("max")


@op("diff")
def diff(a, n=1, dim=-1, prepend=None, append=None):
    if prepend is not None:
        a = cat([prepend, a], dim)
    if append is not None:
        a = cat([a, append], dim)
    d = normdim(dim, a.ndim)
    m = rd(a.shape[d])
    ln = vsub(m, 1)
    f = a.snap()
    shape = list(a.shape)
    shape[d] = wrap(simp(vite(dec(vcmp(">", m, 0)), ln, 0)))
    return mk(shape, lambda *ix: vsub(
        f(*(ix[:d] + (vadd(ix[d], 1),) + ix[d + 1:])), f(*ix)), a.dtype)


@op("trapz", "trapezoid")
def trapz(y, x=None, dx=None, dim=-1):
    d = normdim(dim, y.ndim)
    if x is not None:
        if x.ndim == 1 and y.ndim > 1:
            x = reshape(x, *[(-1 if j == d else 1) for j in range(y.ndim)])
        w = diff(x, dim=d)
    lo = slice_axis(y, d, 0, vsub(rd(y.shape[d]), 1))
    hi = slice_axis(y, d, 1, vsub(rd(y.shape[d]), 1))
    t = (lo + hi) / 2
    t = t * (w if x is not None else (1 if dx is None else dx))
    return sum_(t, dim=d)


@op("cumulative_trapezoid", method=False)
def cumulative_trapezoid(y, x=None, dx=None, dim=-1):
    d = normdim(dim, y.ndim)
    if x is not None:
        if x.ndim == 1 and y.ndim > 1:
            x = reshape(x, *[(-1 if j == d else 1) for j in range(y.ndim)])
        w = diff(x, dim=d)
    lo = slice_axis(y, d, 0, vsub(rd(y.shape[d]), 1))
    hi = slice_axis(y, d, 1, vsub(rd(y.shape[d]), 1))
    t = (lo + hi) / 2
    t = t * (w if x is not None else (1 if dx is None else dx))
    return cumsum(t, dim=d)


# ------------------------------------------------------------------ products
@op("matmul", "mm", "bmm")
def matmul(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return sum_(a * b)
    if a.ndim == 1:
        return squeeze(matmul(unsqueeze(a, 0), b), -2)
    if b.ndim == 1:
        return squeeze(matmul(a, unsqueeze(b, -1)), -1)
    if not same(a.shape[-1], b.shape[-2]):
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    x = unsqueeze(a, -1)
    y = unsqueeze(b, -3)
    return sum_(x * y, dim=-2)


SymTensor.__matmul__ = matmul


@op("outer", "ger")
def outer(a, b):
    return unsqueeze(a, 1) * unsqueeze(b, 0)


@op("einsum", method=False)
def einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    eq = eq.replace(" ", "")
    lhs, _, out = eq.partition("->")
    terms = lhs.split(",")
    if "->" not in eq:
        cnt = {}
        for ch in lhs:
            if ch.isalpha():
                cnt[ch] = cnt.get(ch, 0) + 1
        out = ("..." if "..." in lhs else "") + "".join(
            sorted(ch for ch, n in cnt.items() if n == 1))
    if len(terms) != len(ops):
        raise RuntimeError("einsum(): fewer operands")
    nell = 0
    for t, o in zip(terms, ops):
        if "..." in t:
            nell = max(nell, o.ndim - (len(t) - 3))
        elif o.ndim != len(t):
            raise RuntimeError("einsum(): the number of subscripts does not match dims")
    ell = [f"#{i}" for i in range(nell)]

    def explode(t, nd):
        if "..." in t:
            i = t.index("...")
            k = nd - (len(t) - 3)
            return list(t[:i]) + ell[nell - k:] + list(t[i + 3:])
        return list(t)

    labs = [explode(t, o.ndim) for t, o in zip(terms, ops)]
    outl = explode(out, nell + len(out) - 3) if "..." in out else list(out)
    dims = {}
    for ls, o in zip(labs, ops):
        for l, d in zip(ls, o.shape):
            if l not in dims or (is_num(rd(dims[l])) and rd(dims[l]) == 1):
                dims[l] = d
            elif not (is_num(rd(d)) and rd(d) == 1) and not same(dims[l], d):
                raise RuntimeError("einsum(): operands do not broadcast")
    summed = [l for l in dims if l not in outl]
    fs = [o.snap() for o in ops]
    flags = [[is_num(rd(d)) and rd(d) == 1 for d in o.shape] for o in ops]
    dt = result_dtype(ops)

    def val(env):
        r = None
        for ls, f, fl in zip(labs, fs, flags):
            v = f(*[0 if one else env[l] for l, one in zip(ls, fl)])
            r = v if r is None else vmul(r, v)
        return r

    def fn(*ix):
        env = dict(zip(outl, ix))
        if not summed:
            return val(env)
        return nsum([rd(dims[l]) for l in summed],
                    lambda *r: val({**env, **dict(zip(summed, r))}))

    return mk([dims[l] for l in outl], fn, dt)


@op("cross", method=True)
def cross(a, b, dim=-1):
    sh, (ma, mb) = broadcast([a.shape, b.shape])
    d = normdim(dim, len(sh))
    need(vcmp("==", rd(sh[d]), 3), "cross: dimension must have 3 elements")
    f, g = a.snap(), b.snap()

    def fn(*ix):
        def A(k):
            return f(*ma(ix[:d] + (k,) + ix[d + 1:]))

        def Bf(k):
            return g(*mb(ix[:d] + (k,) + ix[d + 1:]))

        def comp(i, j):
            return vsub(vmul(A(i), Bf(j)), vmul(A(j), Bf(i)))

        k = ix[d]
        return vite(vcmp("==", k, 0), comp(1, 2),
                    vite(vcmp("==", k, 1), comp(2, 0), comp(0, 1)))

    return mk(sh, fn, result_dtype([a, b]))


# ------------------------------------------------------------------ scatter
@op("scatter")
def scatter(a, dim, index, src):
    d = normdim(dim, a.ndim)
    if isinstance(index.shape[d], Sym) or True:
        # out[.., p, ..] = src[.., q, ..] if exists q < n with index[.., q, ..] == p
        c = ctx()
        f, g = a.snap(), index.snap()
        h = src.snap() if is_tensor(src) else (lambda *i, v=conv(raw(src), a.dtype): v)
        n = rd(index.shape[d])
        # contract requires injective affine index rows: index[..., q] = base + q
        ix = [c.fresh("gi", I) for _ in index.shape]
        inr = [vand(vcmp(">=", i, 0), vcmp("<", i, rd(x))) for i, x in zip(ix, index.shape)]
        zero = list(ix)
        zero[d] = 0
        aff = vcmp("==", g(*ix), vadd(g(*zero), ix[d]))
        from .prover import valid

        if valid(c, vimplies(vand(*inr), aff))[0] != "proved":
            raise Unsupported("scatter with a non-contiguous index")
        for j in range(a.ndim):
            if j != d:
                need(vcmp("<=", rd(index.shape[j]), rd(a.shape[j])), "scatter size mismatch")
            if is_tensor(src):
                need(vcmp("<=", rd(index.shape[j]), rd(src.shape[j])), "scatter size mismatch")
        v = g(*ix)
        index_obligation(inr, vand(vcmp(">=", v, 0), vcmp("<", v, rd(a.shape[d]))))

        def fn(*ix):
            z = list(ix)
            z[d] = 0
            q = vsub(ix[d], g(*z))
            ok = [vcmp(">=", q, 0), vcmp("<", q, n)]
            for j in range(a.ndim):
                if j != d and index.shape[j] is not a.shape[j]:
                    ok.append(vcmp("<", ix[j], rd(index.shape[j])))
            z[d] = q
            return vite(vand(*ok), h(*z), f(*ix))

        return mk(a.shape, fn, a.dtype)


# ------------------------------------------------------------------ search
@op("searchsorted", method=False)
def searchsorted(seq, v, right=False, side=None, **k):
    if side == "right":
        right = True
    c = ctx()
    v = lift(v)
    fs, fv = seq.snap(), v.snap()
    if seq.ndim != 1:
        nd = seq.ndim

    def fn(*ix):
        x = fv(*ix)
        lead = ix[:seq.ndim - 1]
        n = rd(seq.shape[-1])
        row = lambda k: fs(*(lead + (k,)))  # noqa: E731
        less = "<=" if right else "<"

        def axs(m):
            out = [tz(vand(vcmp(">=", m, 0), vcmp("<=", m, n)))]
            out.append(tz(vimplies(vcmp(">", m, 0), vcmp(less, row(vsub(m, 1)), x))))
            out.append(tz(vimplies(vcmp("<", m, n), vnot(vcmp(less, row(m), x)))))
            return out

        return c.fapp("searchsorted" + ("_r" if right else ""), (vreal(x),), [((n,), row)],
                      sort=I, axioms=axs)

    return mk(v.shape, fn, _t.int64)


FN["bucketize"] = lambda v, b, right=False, **k: searchsorted(b, v, right)
METHODS["bucketize"] = FN["bucketize"]


# ------------------------------------------------------------------ padding etc. (functional)
def pad(a, p, mode="constant", value=None):
    p = [raw(x) for x in p]
    n = len(p) // 2
    r = a
    for k in range(n):
        d = a.ndim - 1 - k
        lo, hi = p[2 * k], p[2 * k + 1]
        if is_num(lo) and lo == 0 and is_num(hi) and hi == 0:
            continue
        r = _pad1(r, d, lo, hi, mode, value)
    return r if r is not a else a.copy()


def _pad1(a, d, lo, hi, mode, value):
    n = rd(a.shape[d])
    f = a.snap()
    shape = list(a.shape)
    tot = simp(vadd(vadd(n, lo), hi))
    if not is_num(tot):
        need(vcmp(">=", tot, 0), "pad: negative output size")
    shape[d] = wrap(tot)
    v = conv(0 if value is None else raw(value), a.dtype)

    def at(ix, i):
        return f(*(ix[:d] + (i,) + ix[d + 1:]))

    if mode == "constant":
        def fn(*ix):
            i = vsub(ix[d], lo)
            return vite(vand(vcmp(">=", i, 0), vcmp("<", i, n)), at(ix, i), v)
    elif mode == "reflect":
        need(vand(vcmp("<", lo, n), vcmp("<", hi, n)), "reflect padding too large")

        def fn(*ix):
            i = vsub(ix[d], lo)
            j = vite(vcmp("<", i, 0), vneg(i),
                     vite(vcmp(">=", i, n), vsub(vmul(2, vsub(n, 1)), i), i))
            return at(ix, j)
    elif mode == "replicate":
        def fn(*ix):
            i = vsub(ix[d], lo)
            j = vite(vcmp("<", i, 0), 0, vite(vcmp(">=", i, n), vsub(n, 1), i))
            return at(ix, j)
    else:
        raise Unsupported(f"pad mode {mode}")
    return mk(shape, fn, a.dtype)


def F_unfold(x, kernel_size, dilation=1, padding=0, stride=1):
    """torch.nn.functional.unfold for (N, C, H, W) with kernel (1, kw), dilation (1, dw)"""
    if x.ndim != 4:
        raise Unsupported("unfold of a non 4-d tensor")

    def pair(v):
        return v if isinstance(v, (tuple, list)) else (v, v)

    kh, kw = [raw(v) for v in pair(kernel_size)]
    dh, dw = [raw(v) for v in pair(dilation)]
    sh, sw = [raw(v) for v in pair(stride)]
    ph, pw = [raw(v) for v in pair(padding)]
    if not (is_zero(ph) and is_zero(pw)) or kh != 1:
        raise Unsupported("unfold configuration")
    N, C, H, W = [rd(d) for d in x.shape]
    span = vadd(vmul(dw, vsub(kw, 1)), 1)
    need(vand(vcmp(">", kw, 0), vcmp(">", dw, 0), vcmp(">", sw, 0)), "unfold: kernel size etc > 0")
    need(vcmp(">=", W, span), "unfold: calculated shape of the array of sliding blocks too small")
    lw = vadd(vfloordiv(vsub(W, span), sw), 1)
    if not (is_num(H) and H == 1):
        raise Unsupported("unfold H != 1")
    f = x.snap()

    def fn(n, ck, l):
        # channel-major: ck = c*kw + k
        c_ = _fdiv2(ck, kw)
        k = _fmod2(ck, kw)
        return f(n, c_, 0, vadd(vmul(l, sw), vmul(k, dw)))

    t = mk((x.shape[0], wrap(simp(vmul(C, kw))), wrap(simp(lw))), fn, x.dtype)
    return t


def _fdiv2(a, b):
    s = _split_multiple(a, b)
    return s[0] if s is not None else vfloordiv(a, b)


def _fmod2(a, b):
    s = _split_multiple(a, b)
    return s[1] if s is not None else vmod(a, b)


# ------------------------------------------------------------------ fft
def _last(a, dim):
    d = normdim(dim, a.ndim)
    return d


def _row(f, ix, d):
    return lambda k: f(*(ix[:d] + (k,) + ix[d + 1:]))


def _fitrow(row, have, n):
    """zero-pad / truncate a row of length `have` to n"""
    if n is None:
        return row, have
    e = vcmp("==", n, have)
    if e is True or (not isinstance(e, bool) and ctx().implied(e) is True):
        return row, have
    lt = vcmp("<=", n, have)
    if lt is True or (not isinstance(lt, bool) and ctx().implied(lt) is True):
        return row, n
    zero = lambda k: Fraction(0)  # noqa: E731
    return (lambda k: vite(vcmp("<", k, have), row(k), Fraction(0))), n


def _pull(c, n, row):
    """row == co * row' with co independent of the position: (co, row'), else (None, row)"""
    from . import funcs

    c.bvdepth += 1
    bv = z3.Const(f"bv!{c.bvdepth}!0", I)
    try:
        body = c.scoped([vcmp(">=", bv, 0), vcmp("<", bv, n)], lambda: row(bv))
    finally:
        c.bvdepth -= 1
    if isinstance(body, Cx) or is_num(body):
        return None, row
    body = z3.simplify(tz(body))
    c.keep.append((body, bv))
    bid = bv.get_id()
    if body.sort() != R or not funcs.direct_only(c, body, bid, {}):
        return None, row
    zero = z3.RealVal(0)

    def isz(e):
        return z3.is_rational_value(e) and e.numerator_as_long() == 0

    def times(fs, t):
        for f in fs:
            t = f if t is None else t * f
        return t

    def common(parts):
        """[(factors, inner)] -> (shared factors, inners with the rest multiplied back)"""
        live = [p for p in parts if not isz(p[1])]
        if not live:
            return [], [p[1] for p in parts]
        shared = []
        rest = [list(p[0]) for p in live]
        for f in live[0][0]:
            if all(any(f.eq(g) for g in r) for r in rest):
                shared.append(f)
                for r in rest:
                    del r[next(i for i, g in enumerate(r) if f.eq(g))]
        out, it = [], iter(rest)
        for p in parts:
            out.append(p[1] if isz(p[1]) else times(next(it), p[1]))
        return shared, out

    def go(e):
        """(factors independent of the position, rest)"""
        if z3.is_div(e):
            f, t = go(e.arg(0))
            if bid in c.free_bvs(e.arg(1)):
                return f, t / e.arg(1)
            return f + [1 / e.arg(1)], t
        if z3.is_mul(e):
            fs, ts = [], []
            for ch in e.children():
                if bid in c.free_bvs(ch):
                    f, t = go(ch)
                    fs += f
                    ts.append(t)
                else:
                    fs.append(ch)
            return fs, times(ts, None) if ts else z3.RealVal(1)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            fs, (x, y) = common([go(e.arg(1)), go(e.arg(2))])
            return fs, z3.If(e.arg(0), x, y)
        if z3.is_add(e):
            fs, ts = common([go(ch) for ch in e.children()])
            t = ts[0]
            for u in ts[1:]:
                t = t + u
            return fs, t
        return ([], e) if bid in c.free_bvs(e) or isz(e) else ([e], z3.RealVal(1))

    if bid not in c.free_bvs(body):
        return None, row
    co, t = go(body)
    if not co:
        return None, row
    k = times(co, None)
    c.keep.append((t, k, zero))
    return k, lambda i: z3.substitute(t, (bv, tz(i)))


def dft(kind, n, k, row, inverse=False):
    """uninterpreted spectrum coefficient k of a length-n row; linear in the row
    (scalar factors independent of the position are pulled out)"""
    c = ctx()
    co, row = _pull(c, n, row)
    if co is not None:
        r = dft(kind, n, k, row)
        return Cx(vmul(co, r.re), vmul(co, r.im))
    re = c.fapp(kind + "_re", (k,), [((n,), row)])
    im = c.fapp(kind + "_im", (k,), [((n,), row)])
    return Cx(re, im)


def rfft(a, n=None, dim=-1, norm=None, axis=None):
    d = _last(a, dim if axis is None else axis)
    f = a.snap()
    have = rd(a.shape[d])
    nn = raw(n) if n is not None else have
    shape = list(a.shape)
    shape[d] = wrap(simp(vadd(vfloordiv(nn, 2), 1)))
    if cat_of(a.dtype) == 3:
        raise RuntimeError("rfft expects a real input tensor")
    dt = r2c(a.dtype)

    def fn(*ix):
        row, ln = _fitrow(_row(f, ix, d), have, nn)
        r = dft("rfft", ln, ix[d], row)
        if norm is None or norm == "backward":
            return r
        if norm == "forward":
            return vdiv(r, ln)
        raise Unsupported("fft norm")

    t = mk(shape, fn, dt)
    t.spec_of = (a, n, d)
    return t


def irfft(a, n=None, dim=-1, norm=None, axis=None):
    d = _last(a, dim if axis is None else axis)
    f = a.snap()
    have = rd(a.shape[d])
    nn = raw(n) if n is not None else vmul(2, vsub(have, 1))
    shape = list(a.shape)
    shape[d] = wrap(simp(nn))
    dt = c2r(a.dtype) if cat_of(a.dtype) == 3 else a.dtype
    need(vcmp(">", nn, 0), "Invalid number of data points")

    def fn(*ix):
        half = simp(vadd(vfloordiv(nn, 2), 1))
        row, ln = _fitrow(_row(f, ix, d), have, half)
        co, row = _pull(ctx(), ln, row)
        r = ctx().fapp("irfft", (nn, ix[d]), [((ln,), row)])
        if co is not None:
            r = vmul(co, r)
        if norm in (None, "backward"):
            return r
        if norm == "forward":
            return vmul(r, nn)
        raise Unsupported("fft norm")

    return mk(shape, fn, dt)


def cfft(kind):
    def g(a, n=None, dim=-1, norm=None, axis=None):
        d = _last(a, dim if axis is None else axis)
        f = a.snap()
        have = rd(a.shape[d])
        nn = raw(n) if n is not None else have
        shape = list(a.shape)
        shape[d] = wrap(simp(nn))
        dt = a.dtype if cat_of(a.dtype) == 3 else r2c(a.dtype)
        if norm not in (None, "backward"):
            raise Unsupported("fft norm")

        def fn(*ix):
            row, ln = _fitrow(_row(f, ix, d), have, nn)
            return dft(kind, ln, ix[d], row)

        return mk(shape, fn, dt)

    return g


def rfftfreq(n, d=1.0, dtype=None, device=None):
    nn, dd = raw(n), vreal(raw(d))
    return mk((wrap(simp(vadd(vfloordiv(nn, 2), 1))),),
              lambda k: vdiv(vreal(k), vmul(dd, nn)), dtype or _t.float32)


def fftfreq(n, d=1.0, dtype=None, device=None):
    nn, dd = raw(n), vreal(raw(d))
    half = vfloordiv(vadd(nn, 1), 2)
    return mk((wrap(nn),), lambda k: vdiv(
        vreal(vite(vcmp("<", k, half), k, vsub(k, nn))), vmul(dd, nn)), dtype or _t.float32)


def _shift(sgn):
    def g(a, dim=None):
        ds = range(a.ndim) if dim is None else (dim if isinstance(dim, (tuple, list)) else (dim,))
        r = a
        for d in ds:
            n = rd(a.shape[normdim(d, a.ndim)])
            h = vfloordiv(n, 2)
            r = roll(r, wrap(h if sgn > 0 else vneg(h)), d)
        return r

    return g


def hann_window(n, periodic=True, dtype=None, device=None, **k):
    nn = raw(n)
    c = ctx()

    def fn(i):
        e, _ = funcs._ap("hann_p" if periodic else "hann_s", nn, i)
        return funcs._lem(e, [e >= 0, e <= 1])

    return mk((wrap(nn),), fn, dtype or _t.float32)


FN["hann_window"] = hann_window


def opaque_tensor_op(kind, args, params, shape, dt):
    """result element = functional of whole argument tensors (extensional)"""
    snaps = [(tuple(rd(d) for d in a.shape), a.snap()) for a in args]

    def fn(*ix):
        if cat_of(dt) == 3:
            return Cx(ctx().fapp(kind + "_re", tuple(params) + tuple(ix), snaps),
                      ctx().fapp(kind + "_im", tuple(params) + tuple(ix), snaps))
        return ctx().fapp(kind, tuple(params) + tuple(ix), snaps)

    return mk(shape, fn, dt)


def F_interpolate(x, size=None, scale_factor=None, mode="nearest", align_corners=None, **k):
    nd = x.ndim - 2
    if size is None:
        raise Unsupported("interpolate by scale factor")
    if not isinstance(size, (tuple, list)):
        size = (size,) * nd
    if len(size) != nd:
        raise ValueError("Input and output must have the same number of spatial dimensions")
    f = x.snap()
    sp = [rd(d) for d in x.shape[2:]]
    szs = [raw(s) for s in size]
    for s in szs:
        need(vcmp(">", s, 0), "Input and output sizes should be greater than 0")

    def fn(*ix):
        b, c_ = ix[0], ix[1]
        if mode == "nearest" and align_corners is None:
            return f(b, c_, *[vfloordiv(vmul(i, n), m)
                              for i, n, m in zip(ix[2:], sp, szs)])
        return ctx().fapp(f"interp_{mode}_{align_corners}", tuple(szs) + tuple(ix[2:]),
                          [(tuple(sp), lambda *r: f(b, c_, *r))])

    return mk(list(x.shape[:2]) + [wrap(s) for s in szs], fn, x.dtype)


def conv_out(n, k, s, p, d):
    num = vsub(vsub(vadd(n, vmul(2, p)), vmul(d, vsub(k, 1))), 1)
    return simp(vadd(vfloordiv(num, s), 1)), num


def F_convnd(nd):
    def g(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
        def tup(v):
            return [raw(i) for i in v] if isinstance(v, (tuple, list)) else [raw(v)] * nd

        st, dl = tup(stride), tup(dilation)
        if padding == "same":
            tot = [vmul(dl[j], vsub(rd(w.shape[2 + j]), 1)) for j in range(nd)]
            lo = [vfloordiv(t, 2) for t in tot]
            hi = [vsub(t, l) for t, l in zip(tot, lo)]
            pp = []
            for j in reversed(range(nd)):
                pp += [wrap(lo[j]), wrap(hi[j])]
            x = pad(x, pp)
            pd = [0] * nd
        elif padding == "valid":
            pd = [0] * nd
        else:
            pd = tup(padding)
        unb = x.ndim == nd + 1
        if unb:
            x = unsqueeze(x, 0)
        G = raw(groups)
        cin, cout = rd(x.shape[1]), rd(w.shape[0])
        need(vcmp("==", cin, vmul(rd(w.shape[1]), G)), "conv: channel mismatch")
        need(vcmp("==", vmod(cout, G), 0) if not (is_num(G) and G == 1) else True,
             "conv: groups must divide out channels")
        outs = []
        for j in range(nd):
            o, num = conv_out(rd(x.shape[2 + j]), rd(w.shape[2 + j]), st[j], pd[j], dl[j])
            need(vcmp(">=", num, 0), "Kernel size can't be greater than actual input size")
            outs.append(o)
        f, h = x.snap(), w.snap()
        fb = bias.snap() if bias is not None else None
        cpg = rd(w.shape[1])
        sp = [rd(d) for d in x.shape[2:]]

        def fn(*ix):
            b, o = ix[0], ix[1]
            grp = 0 if is_num(G) and G == 1 else vfloordiv(o, vfloordiv(cout, G))

            def term(c_, *ks):
                pos, ok = [], []
                for j in range(nd):
                    p_ = vsub(vadd(vmul(ix[2 + j], st[j]), vmul(ks[j], dl[j])), pd[j])
                    pos.append(p_)
                    if not is_zero(pd[j]):
                        ok += [vcmp(">=", p_, 0), vcmp("<", p_, sp[j])]
                v = vmul(f(b, vadd(vmul(grp, cpg), c_), *pos), h(o, c_, *ks))
                return vite(vand(*ok), v, Fraction(0)) if ok else v

            r = nsum([cpg] + [rd(w.shape[2 + j]) for j in range(nd)], term)
            return vadd(r, fb(o)) if fb is not None else r

        r = mk([x.shape[0], w.shape[0]] + [wrap(o) for o in outs], fn, x.dtype)
        return squeeze(r, 0) if unb else r

    return g


def F_convtranspose1d(x, w, bias=None, stride=1, padding=0, output_padding=0, groups=1,
                      dilation=1):
    one = lambda v: raw(v[0]) if isinstance(v, (tuple, list)) else raw(v)
    s, p, q, dl, G = one(stride), one(padding), one(output_padding), one(dilation), raw(groups)
    unb = x.ndim == 2
    if unb:
        x = unsqueeze(x, 0)
    cin, opg, K = [rd(d) for d in w.shape]
    need(vcmp("==", rd(x.shape[1]), cin), "conv_transpose: channel mismatch")
    need(vcmp("==", vmod(cin, G), 0), "conv_transpose: groups must divide in channels")
    L = rd(x.shape[2])
    cpg = cin if is_num(G) and G == 1 else vfloordiv(cin, G)
    n = simp(vadd(vadd(vsub(vmul(vsub(L, 1), s), vmul(2, p)), vadd(vmul(dl, vsub(K, 1)), q)), 1))
    need(vcmp(">", n, 0), "conv_transpose: empty output")
    f, h = x.snap(), w.snap()
    fb = bias.snap() if bias is not None else None

    def fn(b, o, t):
        grp = 0 if is_num(G) and G == 1 else vfloordiv(o, opg)
        oo = o if is_num(G) and G == 1 else vmod(o, opg)

        def term(c_, k):
            # the input sample reaching output t through tap k
            num = vsub(vadd(t, p), vmul(k, dl))
            l = vfloordiv(num, s)
            ok = vand(vcmp("==", vmod(num, s), 0), vcmp(">=", num, 0), vcmp("<", l, L))
            ci = vadd(vmul(grp, cpg), c_)
            return vite(ok, vmul(f(b, ci, l), h(ci, oo, k)), Fraction(0))

        r = nsum([cpg, K], term)
        return vadd(r, fb(o)) if fb is not None else r

    r = mk([x.shape[0], wrap(simp(vmul(opg, G))), wrap(n)], fn, x.dtype)
    return squeeze(r, 0) if unb else r


def F_group_norm(x, groups, weight=None, bias=None, eps=1e-5):
    G = raw(groups)
    C = rd(x.shape[1])
    need(vcmp("==", vmod(C, G), 0), "Expected number of channels in input to be divisible by num_groups")
    P = vfloordiv(C, G)
    f = x.snap()
    sp = [rd(d) for d in x.shape[2:]]
    fw = weight.snap() if weight is not None else None
    fb = bias.snap() if bias is not None else None
    N = P
    for d in sp:
        N = vmul(N, d)

    def fn(*ix):
        b, c_ = ix[0], ix[1]
        g = vfloordiv(c_, P)
        at = lambda p, *r: f(b, vadd(vmul(g, P), p), *r)
        mean = vdiv(nsum([P] + sp, at), N)
        var = vsub(vdiv(nsum([P] + sp, lambda *q: vmul(at(*q), at(*q))), N), vmul(mean, mean))
        y = vdiv(vsub(f(*ix), mean), funcs.vsqrt(vadd(var, vreal(raw(eps)))))
        y = vmul(y, fw(c_)) if fw is not None else y
        return vadd(y, fb(c_)) if fb is not None else y

    return mk(list(x.shape), fn, x.dtype)


def F_maxpool(nd):
    """maximum over windows: uninterpreted in its values, exact in its shape"""
    def g(x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False):
        def tup(v):
            return [raw(i) for i in v] if isinstance(v, (tuple, list)) else [raw(v)] * nd

        if ceil_mode:
            raise Unsupported("max pooling with ceil_mode")
        k, p, d = tup(kernel_size), tup(padding), tup(dilation)
        s = tup(stride) if stride is not None else k
        sp = [rd(v) for v in x.shape[2:]]
        outs = []
        for j in range(nd):
            o, num = conv_out(sp[j], k[j], s[j], p[j], d[j])
            need(vcmp(">=", num, 0), "max pooling: output size is too small")
            outs.append(o)
        f = x.snap()

        def fn(*ix):
            return ctx().fapp(f"maxpool{nd}", (*k, *s, *p, *d, *ix[2:]),
                              [(tuple(sp), lambda *r: f(ix[0], ix[1], *r))])

        return mk(list(x.shape[:2]) + [wrap(o) for o in outs], fn, x.dtype)

    return g


def F_avg_to_one(nd):
    def g(x, output_size):
        o = output_size if isinstance(output_size, (tuple, list)) else (output_size,) * nd
        if any(not (isinstance(v, int) and v == 1) for v in o):
            raise Unsupported("adaptive pooling to more than one value")
        f = x.snap()
        sp = [rd(v) for v in x.shape[-nd:]]
        N = 1
        for d in sp:
            N = vmul(N, d)
        return mk(list(x.shape[:-nd]) + [1] * nd, lambda *ix: vdiv(
            nsum(sp, lambda *r: f(*ix[:-nd], *r)), N), x.dtype)

    return g


def F_linear(x, w, b=None):
    r = matmul(x, transpose(w, 0, 1))
    return r if b is None else r + b


def F_relu(x, inplace=False):
    return elementwise(lambda v: vmax(v, Fraction(0)), x)


def unique_unsupported(*a, **k):
    raise Unsupported("torch.unique")


FN["unique"] = unique_unsupported


@op("gradient", method=False)
def gradient(a, *, spacing=1, dim=None, edge_order=1):
    """central differences inside, one-sided at both ends; scalar spacing"""
    if isinstance(spacing, (tuple, list)) or is_tensor(spacing) and spacing.ndim or edge_order != 1:
        raise Unsupported("torch.gradient with coordinates")
    h = vreal(rd(spacing._dv_scalar()) if is_tensor(spacing) else raw(spacing))
    dims = range(a.ndim) if dim is None else [dim] if isinstance(dim, int) else dim
    out = []
    for d in dims:
        d = normdim(d, a.ndim)
        n, f = rd(a.shape[d]), a.snap()
        need(vcmp(">=", n, 2), "torch.gradient expected each dimension size to be at least 2")

        def fn(*ix, d=d, n=n):
            at = lambda k: f(*(ix[:d] + (k,) + ix[d + 1:]))  # noqa: E731
            lo, hi = vcmp("==", ix[d], 0), vcmp("==", ix[d], vsub(n, 1))
            i0 = vite(lo, ix[d], vsub(ix[d], 1))
            i1 = vite(hi, ix[d], vadd(ix[d], 1))
            return vdiv(vsub(at(i1), at(i0)), vmul(vite(vor(lo, hi), 1, 2), h))

        out.append(mk(a.shape, fn, a.dtype))
    return tuple(out)


@op("stft", method=True)
def stft(x, n_fft, hop_length=None, win_length=None, window=None, center=True,
         pad_mode="reflect", normalized=False, onesided=None, return_complex=None):
    nn, hop = raw(n_fft), raw(hop_length)
    if win_length is not None and not same(win_length, n_fft):
        raise Unsupported("stft win_length")
    if center:
        h = wrap(vfloordiv(nn, 2))
        x = pad(x, (h, h), mode=pad_mode)
    n = rd(x.shape[-1])
    need(vand(vcmp(">", nn, 0), vcmp("<=", nn, n)), "stft: expected 0 < n_fft <= len")
    frames = vadd(vfloordiv(vsub(n, nn), hop), 1)
    f = x.snap()
    fw = window.snap() if window is not None else (lambda i: Fraction(1))
    if window is not None:
        need(vcmp("==", rd(window.shape[0]), nn), "stft: window size")
    shape = list(x.shape[:-1]) + [wrap(simp(vadd(vfloordiv(nn, 2), 1))), wrap(simp(frames))]

    def fn(*ix):
        lead, k, t = ix[:-2], ix[-2], ix[-1]
        row = lambda j: vmul(f(*(lead + (vadd(vmul(t, hop), j),))), fw(j))  # noqa: E731
        r = dft("rfft", nn, k, row)
        if normalized:
            r = vdiv(r, funcs.vsqrt(vreal(nn)))
        return r

    return mk(shape, fn, r2c(x.dtype))


@op("logspace", method=False)
def logspace(start, end, steps, base=10.0, dtype=None, device=None):
    lin = linspace(start, end, steps)
    return elementwise(lambda v: funcs.vpow(raw(base), v), lin, dtype=dtype or _t.float32)


def linalg_solve(A, Bm):
    """X with A X = B for an invertible A: the entries of the inverse are uninterpreted
    functionals of A, so X = A^-1 B, row by row and batch by batch"""
    if A.ndim != 2:
        raise Unsupported("solve with a batch of matrices")
    n = rd(A.shape[0])
    need(vcmp("==", n, rd(A.shape[1])), "linalg.solve: A must be square")
    vec = Bm.ndim == 1
    ax = Bm.ndim - 1 if vec else Bm.ndim - 2
    need(vcmp("==", n, rd(Bm.shape[ax])), "linalg.solve: Incompatible shapes")
    fa, fb = A.snap(), Bm.snap()

    def inv(i, j):
        return ctx().fapp("matinv", (i, j), [((n, n), lambda p, q: fa(p, q))])

    def fn(*ix):
        return funcs.vsum(n, lambda k: vmul(inv(ix[ax], k), fb(*ix[:ax], k, *ix[ax + 1:])))

    return mk(Bm.shape, fn, Bm.dtype)


def linalg_inv(A):
    return linalg_solve(A, eye(A.shape[0], dtype=A.dtype))
