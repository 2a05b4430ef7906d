"""Core of the deductive verifier: symbolic scalars, path exploration,
obligations and the prover.

Scalars in element terms are: python int / bool / Fraction, z3 expressions,
or Cx (a pair of real scalars).  Floats of the subject program are modelled as
mathematical reals.
"""
import sys
import time
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """The verifier cannot express something (never a verdict on the code)."""


class StopPath(BaseException):
    """End the current symbolic path (assumption false / loop body closed)."""


class OutOfTime(BaseException):
    pass


class SubjectError(Exception):
    """Raised by a trusted operation contract when its real counterpart raises."""


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- raw scalars
def is_num(v):
    return isinstance(v, (int, Fraction)) or isinstance(v, bool)


class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re, self.im = re, im

    def __repr__(self):
        return f"Cx({self.re},{self.im})"


def rv(q):
    q = Fraction(q)
    return z3.Q(q.numerator, q.denominator)


def tz(v):
    """raw scalar -> z3 expression"""
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return rv(v)
    if isinstance(v, Sym):
        return tz(v.v)
    if isinstance(v, float):
        return rv(Fraction(v))
    raise Unsupported(f"to z3: {type(v)}")


def tzr(v):
    e = tz(v)
    if z3.is_bool(e):
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    if e.sort() == z3.IntSort():
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def fold(e):
    """collapse z3 literals"""
    if isinstance(e, z3.ExprRef):
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return e


def _b2i(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def _is_int(v):
    return (isinstance(v, int)) or (
        isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort()
    )


def _mix(a, b):
    """z3 operands with compatible sorts"""
    a, b = tz(a), tz(b)
    if a.sort() != b.sort():
        a, b = tzr(a), tzr(b)
    return a, b


def vadd(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(vadd(a.re, b.re), vadd(a.im, b.im))
    a, b = _b2i(a), _b2i(b)
    if is_num(a) and is_num(b):
        return a + b
    if is_num(a) and a == 0:
        return b if _is_int(a) or not _is_int(b) else z3.ToReal(b)
    if is_num(b) and b == 0:
        return a if _is_int(b) or not _is_int(a) else z3.ToReal(a)
    x, y = _mix(a, b)
    return x + y


def vneg(a):
    if isinstance(a, Cx):
        return Cx(vneg(a.re), vneg(a.im))
    a = _b2i(a)
    return -a


def vsub(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(vsub(a.re, b.re), vsub(a.im, b.im))
    a, b = _b2i(a), _b2i(b)
    if is_num(a) and is_num(b):
        return a - b
    if is_num(b) and b == 0:
        return vadd(a, b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return 0 if _is_int(a) else Fraction(0)
    x, y = _mix(a, b)
    return x - y


def cx(a):
    return a if isinstance(a, Cx) else Cx(a, Fraction(0))


def is_zero(a):
    return is_num(a) and a == 0


def vmul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        if isinstance(a, Cx) and isinstance(b, Cx):
            return Cx(
                vsub(vmul(a.re, b.re), vmul(a.im, b.im)),
                vadd(vmul(a.re, b.im), vmul(a.im, b.re)),
            )
        if isinstance(b, Cx):
            a, b = b, a
        return Cx(vmul(a.re, b), vmul(a.im, b))
    if isinstance(a, (bool, z3.BoolRef)) and not isinstance(b, (bool, z3.BoolRef)):
        return vite(a, b, 0 if _is_int(b) else Fraction(0))
    if isinstance(b, (bool, z3.BoolRef)) and not isinstance(a, (bool, z3.BoolRef)):
        return vite(b, a, 0 if _is_int(a) else Fraction(0))
    a, b = _b2i(a), _b2i(b)
    if is_num(a) and is_num(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            if x == 0:
                return 0 if _is_int(x) and _is_int(y) else Fraction(0)
            if x == 1:
                return y if _is_int(x) or not _is_int(y) else z3.ToReal(y)
    x, y = _mix(a, b)
    return x * y


def vdiv(a, b):
    if isinstance(b, Cx):
        d = vadd(vmul(b.re, b.re), vmul(b.im, b.im))
        return vdiv(vmul(cx(a), Cx(b.re, vneg(b.im))), d)
    if isinstance(a, Cx):
        return Cx(vdiv(a.re, b), vdiv(a.im, b))
    a, b = _b2i(a), _b2i(b)
    if is_num(b):
        if b == 0:
            c = ctx()
            return c.undef("div0")
        if is_num(a):
            return Fraction(a) / Fraction(b)
        if b == 1:
            return tzr(a)
        return vmul(tzr(a), Fraction(1) / Fraction(b))
    if is_num(a) and a == 0:
        return Fraction(0)
    return tzr(a) / tzr(b)


def vfloordiv(a, b):
    a, b = _b2i(a), _b2i(b)
    if is_num(a) and is_num(b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return a // b
    if _is_int(a) and _is_int(b):
        if is_num(b):
            if b == 1:
                return a
            if b > 0:
                sp = const_split(a, b)
                if sp is not None:
                    q, r = sp
                    return q if r is None else q + vfloordiv(r, b)
                return tz(a) / tz(b)
            return (-tz(a)) / tz(-b)
        return ctx().int_divmod(a, b)[0]
    q = tzr(a) / tzr(b)
    return vfloor(q)


def vmod(a, b):
    a, b = _b2i(a), _b2i(b)
    if is_num(a) and is_num(b):
        return a % b
    if _is_int(a) and _is_int(b):
        if is_num(b):
            if b == 1:
                return 0
            if b > 0:
                return tz(a) % tz(b)
            return -((-tz(a)) % tz(-b))
        return ctx().int_divmod(a, b)[1]
    return vsub(a, vmul(b, vfloordiv(a, b)))


def vcmp(op, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        e = vand(vcmp("==", a.re, b.re), vcmp("==", a.im, b.im))
        return e if op == "==" else vnot(e)
    ab = isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef))
    if ab and op in ("==", "!="):
        if isinstance(a, bool) and isinstance(b, bool):
            r = a == b
        else:
            r = tz(a) == tz(b)
        return r if op == "==" else vnot(r)
    a, b = _b2i(a), _b2i(b)
    if is_num(a) and is_num(b):
        return {
            "<": a < b, "<=": a <= b, ">": a > b,
            ">=": a >= b, "==": a == b, "!=": a != b,
        }[op]
    x, y = _mix(a, b)
    if x.eq(y):
        return op in ("<=", ">=", "==")
    if op == "<":
        r = x < y
    elif op == "<=":
        r = x <= y
    elif op == ">":
        r = x > y
    elif op == ">=":
        r = x >= y
    elif op == "==":
        r = x == y
    else:
        r = x != y
    return r


def vnot(a):
    a = vbool(a)
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def vbool(a):
    if isinstance(a, Sym):
        a = a.v
    if isinstance(a, (bool, z3.BoolRef)):
        return a
    return vcmp("!=", a, 0)


def vand(*xs):
    out = []
    for x in xs:
        x = vbool(x)
        if isinstance(x, bool):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def vor(*xs):
    out = []
    for x in xs:
        x = vbool(x)
        if isinstance(x, bool):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def vimplies(a, b):
    return vor(vnot(a), b)


def vite(c, a, b):
    c = vbool(c)
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(vite(c, a.re, b.re), vite(c, a.im, b.im))
    if is_num(a) and is_num(b) and type(a) is type(b) and a == b:
        return a
    x, y = tz(a), tz(b)
    if x.sort() != y.sort():
        if z3.is_bool(x):
            x = tz(_b2i(x))
        if z3.is_bool(y):
            y = tz(_b2i(y))
        if x.sort() != y.sort():
            x, y = tzr(x), tzr(y)
    if x.eq(y):
        return a
    return z3.If(c, x, y)


def vmin(a, b):
    return vite(vcmp("<=", a, b), a, b)


def vmax(a, b):
    return vite(vcmp(">=", a, b), a, b)


def vabs(a):
    if is_num(a):
        return abs(a)
    return vite(vcmp(">=", a, 0), a, vneg(a))


def vtrunc(a):
    """int(x): truncation toward zero"""
    if isinstance(a, (bool, int)):
        return int(a)
    if isinstance(a, Fraction):
        return int(a)
    if _is_int(a):
        return a
    if isinstance(a, z3.BoolRef):
        return _b2i(a)
    # ToInt(ToReal(i)) = i
    if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
        return a.arg(0)
    v = floor_ratio(a, exact=True)
    if v is not None:
        return v
    return vite(vcmp(">=", a, 0), vfloor(a), vneg(vfloor(-a)))


def vfloor(a):
    if isinstance(a, (bool, int)):
        return int(a)
    if isinstance(a, Fraction):
        return a.__floor__()
    if _is_int(a):
        return a
    if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
        return a.arg(0)
    v = floor_ratio(a)
    return z3.ToInt(a) if v is None else v


def vceil(a):
    return vneg(vfloor(vneg(a)))


def vreal(a):
    if isinstance(a, (bool, int)):
        return Fraction(int(a))
    if isinstance(a, (Fraction, Cx)):
        return a
    return tzr(a)


# ---------------------------------------------------------------- uninterpreted
_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


R = z3.RealSort()
I = z3.IntSort()  # noqa: E741
B = z3.BoolSort()

# ---------------------------------------------------------------- Sym wrappers


def wrap(v):
    """raw scalar -> python-level value of the subject program"""
    v = fold(v)
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return SymReal(v)
    if isinstance(v, z3.BoolRef):
        return SymBool(v)
    if isinstance(v, Cx):
        return SymComplex(v)
    if v.sort() == I:
        return SymInt(v)
    return SymReal(v)


def raw(x):
    """python-level value -> raw scalar"""
    if isinstance(x, Sym):
        return x.v
    if isinstance(x, (bool, int, Fraction)):
        return x
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float constant")
        return Fraction(repr(x))
    if isinstance(x, complex):
        return Cx(Fraction(repr(x.real)), Fraction(repr(x.imag)))
    if isinstance(x, (z3.ExprRef, Cx)):
        return x
    if hasattr(x, "_dv_scalar"):
        return x._dv_scalar()
    if type(x).__module__ == "numpy" and hasattr(x, "item") and x.ndim == 0:
        return raw(x.item())
    raise Unsupported(f"raw scalar from {type(x)}")


def _isnumlike(x):
    return isinstance(x, (Sym, int, float, Fraction, bool, complex))


class Sym:
    __slots__ = ("v",)
    __array_priority__ = 1000

    def __init__(self, v):
        self.v = v

    def _bin(self, o, f, swap=False):
        if not _isnumlike(o):
            return NotImplemented
        a, b = self.v, raw(o)
        if swap:
            a, b = b, a
        return wrap(f(a, b))

    def __add__(self, o):
        return self._bin(o, vadd)

    def __radd__(self, o):
        return self._bin(o, vadd, True)

    def __sub__(self, o):
        return self._bin(o, vsub)

    def __rsub__(self, o):
        return self._bin(o, vsub, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return self._bin(o, vmul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isnumlike(o):
            ctx().check_div(raw(o))
        return self._bin(o, vdiv)

    def __rtruediv__(self, o):
        ctx().check_div(self.v)
        return self._bin(o, vdiv, True)

    def __floordiv__(self, o):
        if _isnumlike(o):
            ctx().check_div(raw(o))
        return self._bin(o, vfloordiv)

    def __rfloordiv__(self, o):
        ctx().check_div(self.v)
        return self._bin(o, vfloordiv, True)

    def __mod__(self, o):
        if _isnumlike(o):
            ctx().check_div(raw(o))
        return self._bin(o, vmod)

    def __rmod__(self, o):
        ctx().check_div(self.v)
        return self._bin(o, vmod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        from . import funcs

        if not _isnumlike(o):
            return NotImplemented
        return wrap(funcs.vpow(self.v, raw(o)))

    def __rpow__(self, o):
        from . import funcs

        return wrap(funcs.vpow(raw(o), self.v))

    def __neg__(self):
        return wrap(vneg(self.v))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(vabs(self.v))

    def _cmp(self, o, op):
        if not _isnumlike(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            big = o > 0
            return {"<": big, "<=": big, ">": not big, ">=": not big,
                    "==": False, "!=": True}[op]
        return wrap(vcmp(op, self.v, raw(o)))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if not _isnumlike(o):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if not _isnumlike(o):
            return True
        return self._cmp(o, "!=")

    __hash__ = None

    def __bool__(self):
        return ctx().decide_fork(vbool(self.v))

    def __repr__(self):
        return f"<{type(self).__name__} {self.v}>"

    def __format__(self, spec):
        return f"<{self.v}>"

    def item(self):
        return self


class SymInt(Sym):
    __slots__ = ()

    def __index__(self):
        raise Unsupported("symbolic integer used where a concrete one is needed")

    def __int__(self):
        raise Unsupported("native int() of a symbolic integer")

    def bit_length(self):
        raise Unsupported("bit_length")

    def is_integer(self):
        return True


class SymReal(Sym):
    __slots__ = ()

    def __float__(self):
        if isinstance(self.v, Fraction):
            return float(self.v)
        raise Unsupported("native float() of a symbolic real")

    def __int__(self):
        if isinstance(self.v, Fraction):
            return int(self.v)
        raise Unsupported("native int() of a symbolic real")

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported("round with digits")
        f = vfloor(self.v)
        d = vsub(self.v, f)
        h = Fraction(1, 2)
        up = vor(vcmp(">", d, h), vand(vcmp("==", d, h), vcmp("==", vmod(f, 2), 1)))
        return wrap(vite(up, vadd(f, 1), f))

    def is_integer(self):
        return wrap(vcmp("==", self.v, vfloor(self.v)))


class SymComplex(Sym):
    __slots__ = ()

    @property
    def real(self):
        return wrap(self.v.re)

    @property
    def imag(self):
        return wrap(self.v.im)

    def conjugate(self):
        return wrap(Cx(self.v.re, vneg(self.v.im)))

    def __abs__(self):
        from . import funcs

        return wrap(funcs.vabsc(self.v))


class SymBool(Sym):
    __slots__ = ()

    def __and__(self, o):
        return wrap(vand(self.v, raw(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrap(vor(self.v, raw(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrap(vnot(self.v))


# ---------------------------------------------------------------- obligations
def int_poly(e):
    """int term -> {monomial (sorted tuple of atom ids): coefficient}, atoms by id"""
    atoms = {}

    def go(x):
        if z3.is_int_value(x):
            v = x.as_long()
            return {(): v} if v else {}
        if z3.is_add(x):
            r = {}
            for ch in x.children():
                for m, v in go(ch).items():
                    r[m] = r.get(m, 0) + v
            return {m: v for m, v in r.items() if v}
        if z3.is_sub(x):
            ch = x.children()
            r = dict(go(ch[0]))
            for y in ch[1:]:
                for m, v in go(y).items():
                    r[m] = r.get(m, 0) - v
            return {m: v for m, v in r.items() if v}
        if z3.is_app_of(x, z3.Z3_OP_UMINUS):
            return {m: -v for m, v in go(x.arg(0)).items()}
        if z3.is_mul(x):
            r = {(): 1}
            for ch in x.children():
                g = go(ch)
                if len(r) * len(g) > 400:
                    raise Unsupported("integer polynomial too large")
                n = {}
                for m1, v1 in r.items():
                    for m2, v2 in g.items():
                        m = tuple(sorted(m1 + m2))
                        n[m] = n.get(m, 0) + v1 * v2
                r = {m: v for m, v in n.items() if v}
            return r
        atoms[x.get_id()] = x
        return {(x.get_id(),): 1}

    return go(z3.simplify(e)), atoms


def build_poly(p, at):
    t = None
    for m, v in p.items():
        e = None
        for x in m:
            e = at[x] if e is None else e * at[x]
        e = z3.IntVal(v) if e is None else (e if v == 1 else z3.IntVal(v) * e)
        t = e if t is None else t + e
    return z3.IntVal(0) if t is None else t


def const_split(a, b):
    """(Q, rest or None) with a == b*Q + rest, Q the terms whose coefficient b divides;
    None when there is no such term"""
    try:
        p, at = int_poly(tz(a))
    except Unsupported:
        return None
    q = {m: v // b for m, v in p.items() if v % b == 0}
    if not q:
        return None
    rest = {m: v for m, v in p.items() if v % b}
    if rest:
        # leave a remainder that is a plain constant to the constant
        r = build_poly(rest, at)
        if z3.is_int_value(r):
            c = r.as_long()
            return vadd(build_poly(q, at), c // b), None
        return build_poly(q, at), r
    return build_poly(q, at), None


def int_ratio(a):
    """real term -> (N, D, atoms): a == N/D, N an integer polynomial, D an integer monomial
    {m: v}; None when it has another form"""
    atoms = {}

    def mul(p, q):
        if len(p) * len(q) > 200:
            raise Unsupported("large")
        r = {}
        for m1, v1 in p.items():
            for m2, v2 in q.items():
                m = tuple(sorted(m1 + m2))
                r[m] = r.get(m, 0) + v1 * v2
        return {m: v for m, v in r.items() if v}

    def go(x):
        if z3.is_rational_value(x):
            n, d = x.numerator_as_long(), x.denominator_as_long()
            return ({(): n} if n else {}), {(): d}
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            p, at = int_poly(x.arg(0))
            atoms.update(at)
            return p, {(): 1}
        if z3.is_add(x) or z3.is_sub(x):
            n, d = go(x.arg(0))
            for y in x.children()[1:]:
                n2, d2 = go(y)
                if z3.is_sub(x):
                    n2 = {m: -v for m, v in n2.items()}
                if d == d2:
                    r = dict(n)
                    for m, v in n2.items():
                        r[m] = r.get(m, 0) + v
                    n = {m: v for m, v in r.items() if v}
                else:
                    a1, a2 = mul(n, d2), mul(n2, d)
                    for m, v in a2.items():
                        a1[m] = a1.get(m, 0) + v
                    n, d = {m: v for m, v in a1.items() if v}, mul(d, d2)
            return n, d
        if z3.is_app_of(x, z3.Z3_OP_UMINUS):
            n, d = go(x.arg(0))
            return {m: -v for m, v in n.items()}, d
        if z3.is_mul(x):
            n, d = {(): 1}, {(): 1}
            for y in x.children():
                n2, d2 = go(y)
                n, d = mul(n, n2), mul(d, d2)
            return n, d
        if z3.is_div(x):
            n, d = go(x.arg(0))
            n2, d2 = go(x.arg(1))
            if len(n2) != 1:
                raise Unsupported("denominator")
            (_, v), = n2.items()
            n, d = mul(n, d2), mul(d, n2)
            if v < 0:
                n, d = {m: -v for m, v in n.items()}, {m: -v for m, v in d.items()}
            return n, d
        raise Unsupported("form")

    try:
        n, d = go(a)
    except Unsupported:
        return None
    # cancel common factors (the caller makes sure that D is not zero)
    (dm, dv), = d.items()
    import math

    g = dv
    for v in n.values():
        g = math.gcd(g, v)
    common = list(dm)
    keepd = []
    ms = {m: list(m) for m in n}
    for x in common:
        if n and all(x in l for l in ms.values()):
            for l in ms.values():
                l.remove(x)
        else:
            keepd.append(x)
    n2 = {}
    for m, v in n.items():
        k = tuple(sorted(ms[m]))
        n2[k] = n2.get(k, 0) + v // g
    return n2, {tuple(sorted(keepd)): dv // g}, {tuple(sorted(dm)): dv}, atoms


def floor_ratio(a, exact=False):
    """floor of a ratio of integer polynomials as an integer term, or None"""
    r = int_ratio(a)
    if r is None:
        return None
    n, d, full, at = r
    (dm, dv), = d.items()
    if exact and (dm or dv != 1):
        return None
    D = build_poly(full, at)
    if not z3.is_int_value(D) and ctx().implied(D > 0) is not True:
        return None
    N = build_poly(n, at)
    if not dm and dv == 1:
        return N
    return vfloordiv(N, dv if not dm else build_poly(d, at))


def poly_split(a, b):
    """(Q, rest) with a == b*Q + rest, for a single-monomial b; None if no monomial of a
    is divisible. rest None means zero"""
    try:
        pa, aa = int_poly(a)
        pb, ab = int_poly(b)
    except Unsupported:
        return None
    if len(pb) != 1:
        return None
    (mb, cb), = pb.items()
    if not mb:
        return None
    q, rest = {}, {}
    for m, v in pa.items():
        mm = list(m)
        ok = v % cb == 0
        for x in mb:
            if x in mm:
                mm.remove(x)
            else:
                ok = False
                break
        (q.__setitem__(tuple(mm), v // cb) if ok else rest.__setitem__(m, v))
    at = {**aa, **ab}

    def build(p):
        if not p:
            return None
        t = None
        for m, v in p.items():
            e = None
            for x in m:
                e = at[x] if e is None else e * at[x]
            e = z3.IntVal(v) if e is None else (e if v == 1 else z3.IntVal(v) * e)
            t = e if t is None else t + e
        return t

    if not q:
        # 0 <= a < b?
        return (None, build(rest)) if rest else None
    return build(q), build(rest)


class Obligation:
    __slots__ = ("name", "status", "backend", "time", "model", "goal", "definite", "note", "asrt")

    def __init__(self, name):
        self.name = name
        self.status = "unknown"
        self.backend = ""
        self.time = 0.0
        self.model = None
        self.goal = ""
        self.definite = False
        self.note = ""
        self.asrt = None


class FApp:
    """application of an uninterpreted functional to rows (extensional)"""

    __slots__ = ("kind", "params", "rows", "const", "depth")

    def __init__(self, kind, params, rows, const, depth):
        self.kind, self.params, self.rows, self.const = kind, params, rows, const
        self.depth = depth


class SymCtx:
    """state of one symbolic path"""

    symbolic = True

    def __init__(self, decisions, timeout_ms=8000, deadline=None):
        self.decisions = list(decisions)
        self.dpos = 0
        self.trace = []  # (branch taken, has_alternative)
        self.pc = []
        self.axioms = []
        self.obls = []
        self.fresh_n = {}
        self.fapps = {}  # const id -> FApp
        self.fkey = {}
        self.keep = []  # keep asts alive (ids are reused otherwise)
        self.timeout = timeout_ms
        self.deadline = deadline
        self.inputs = {}  # name -> descriptor, for replay
        self.divcache = {}
        self.bvdepth = 0
        self.effects = []
        self.cleanup = []
        self.loops_done = 0
        self.ranges = {}  # random function name -> (low, high, closed-high?)
        self.solver = z3.Solver()
        self.solver.set("timeout", 2000)
        self.n_solver = 0
        self.t_solver = 0.0
        self.trusted = set()
        self.nested = 0
        self.sides = []
        self._dec_cache = {}
        self.deps = {}  # const id -> ids of bound variables it depends on
        self._fb = {}

    def free_bvs(self, e):
        if not isinstance(e, z3.ExprRef):
            return frozenset()
        k = e.get_id()
        if k in self._fb:
            return self._fb[k][0]
        if e.num_args() == 0:
            if k in self.deps:
                r = self.deps[k]
            elif z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                    and e.decl().name().startswith("bv!"):
                r = frozenset([k])
            else:
                r = frozenset()
                if e.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                    return r
        else:
            r = frozenset()
            for ch in e.children():
                r = r | self.free_bvs(ch)
        self._fb[k] = (r, e)
        return r

    # -- fresh symbols
    def fresh(self, name, sort):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        return z3.Const(f"{name}" if n == 0 else f"{name}!{n}", sort)

    def fresh_fun(self, name, *sorts):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        return z3.Function(f"{name}" if n == 0 else f"{name}!{n}", *sorts)

    def undef(self, why):
        return self.fresh(f"undef_{why}", R)

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime()

    # -- assumptions
    def assume(self, c, check=True):
        c = vbool(raw(c) if isinstance(c, Sym) else c)
        if isinstance(c, bool):
            if not c:
                raise StopPath()
            return
        self.pc.append(c)
        self.solver.add(c)
        self._dec_cache.clear()
        if check and self._sat() == z3.unsat:
            raise StopPath()

    def axiom(self, c):
        c = vbool(c)
        if isinstance(c, bool):
            return
        self.axioms.append(c)
        self.solver.add(c)

    def _sat(self, *extra):
        self.check_time()
        t = time.time()
        if extra and self.__dict__.get("lemmas"):
            from .prover import lemmas_for

            extra = list(extra) + lemmas_for(self, extra)
        r = self.solver.check(*extra)
        self.t_solver += time.time() - t
        self.n_solver += 1
        return r

    def implied(self, c):
        """True / False / None: is c decided by the path condition"""
        c = vbool(c)
        if isinstance(c, bool):
            return c
        k = c.get_id()
        if k in self._dec_cache:
            return self._dec_cache[k][0]
        r = None
        if self._sat(z3.Not(c)) == z3.unsat:
            r = True
        elif self._sat(c) == z3.unsat:
            r = False
        self._dec_cache[k] = (r, c)
        return r

    def decide_fork(self, c):
        c = vbool(c)
        if isinstance(c, bool):
            return c
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return True
        if z3.is_false(cs):
            return False
        if self.nested:
            r = self.implied(c)
            if r is None:
                raise Unsupported("branch on a symbolic value inside an element function")
            return r
        if self.dpos < len(self.decisions):
            b, alt = self.decisions[self.dpos]
            self.dpos += 1
            self.trace.append((b, alt))
            self._push(c if b else z3.Not(c))
            return b
        self.dpos += 1
        can_t = self._sat(c) != z3.unsat
        can_f = self._sat(z3.Not(c)) != z3.unsat
        if not can_t and not can_f:
            raise StopPath()
        if can_t and can_f:
            self.trace.append((True, True))
            self._push(c)
            return True
        self.trace.append((can_t, False))
        self._push(c if can_t else z3.Not(c))
        return can_t

    def fork(self, n=2):
        """non-deterministic choice 0..n-1 (no condition)"""
        for i in range(n - 1):
            if self.dpos < len(self.decisions):
                b, alt = self.decisions[self.dpos]
            else:
                b, alt = True, True
            self.dpos += 1
            self.trace.append((b, alt))
            if b:
                return i
        return n - 1

    def _push(self, c):
        self.pc.append(c)
        self.solver.add(c)
        self._dec_cache.clear()

    # -- integer division by a symbolic divisor
    def int_divmod(self, a, b):
        a, b = tz(a), tz(b)
        # exact quotients of syntactic multiples
        sa = z3.simplify(a, som=True)
        key = (sa.get_id(), b.get_id())
        if key in self.divcache:
            return self.divcache[key][:2]
        pos = self.implied(b > 0)
        if pos is None and not self.nested:
            pos = bool(wrap(b > 0))
        # a == b*Q + rest with Q a polynomial: divide only the rest
        sp = poly_split(a, b)
        if sp is not None:
            Q, rest = sp
            if rest is None:
                self.divcache[key] = (Q, 0, sa, b)
                self.keep.append((sa, a, b))
                return Q, 0
            if pos and self.implied(z3.And(rest >= 0, rest < b)) is True:
                q, r = z3.IntVal(0), rest
            elif z3.is_int_value(rest) or Q is not None:
                q, r = self.int_divmod(rest, b)
            else:
                q = None
            if q is not None:
                q = vadd(Q, q) if Q is not None else q
                if is_num(q) is False and z3.is_int_value(q):
                    q = q.as_long()
                self.divcache[key] = (q, r, sa, b)
                self.keep.append((sa, a, b, q, r))
                return q, r
        q = self.fresh("q", I)
        r = self.fresh("r", I)
        fb = self.free_bvs(a) | self.free_bvs(b)
        if fb:
            self.deps[q.get_id()] = fb
            self.deps[r.get_id()] = fb
            self.keep.append((q, r))
        self.axiom(a == q * b + r)
        if pos:
            self.axiom(z3.And(r >= 0, r < b))
            self.axiom(z3.Implies(a >= 0, q >= 0))
            self.axiom(z3.Implies(z3.And(a >= 0), q <= a))
        elif pos is False:
            self.axiom(z3.Implies(b < 0, z3.And(r <= 0, r > b)))
        else:
            self.axiom(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
            self.axiom(z3.Implies(b < 0, z3.And(r <= 0, r > b)))
        self.divcache[key] = (q, r, sa, b)
        self.keep.append((sa, a, b))
        self.divs = getattr(self, "divs", [])
        self.divs.append((a, b, q, r))
        return q, r

    def check_div(self, d):
        if is_num(d):
            if d == 0:
                raise ZeroDivisionError("division by zero")
            return
        if isinstance(d, Cx):
            return
        if self.decide_fork(vcmp("==", d, 0)):
            raise ZeroDivisionError("division by zero")

    # -- functionals
    def scoped(self, conds, thunk):
        """evaluate thunk() with extra facts available to `implied`"""
        cs = [c for c in (vbool(x) for x in conds) if not isinstance(c, bool)]
        self.solver.push()
        saved, self._dec_cache = self._dec_cache, {}
        n_ax = len(self.axioms)
        self.nested += 1
        try:
            for c in cs:
                self.solver.add(c)
            return thunk()
        finally:
            self.nested -= 1
            self.solver.pop()
            for ax in self.axioms[n_ax:]:
                self.solver.add(ax)
            self._dec_cache = saved

    def fapp(self, kind, params, rows, sort=R, axioms=None):
        """rows: list of (dims, fn); fn(*idx)->raw real scalar"""
        keys = [kind]
        for p in params:
            if isinstance(p, (z3.ExprRef,)):
                p = z3.simplify(p, som=True)
                self.keep.append(p)
                keys.append(("z", p.get_id()))
            else:
                keys.append(("c", p))
        free = frozenset()
        for p in params:
            free = free | self.free_bvs(p)
        self.bvdepth += 1
        if self.bvdepth > 12:
            raise Unsupported("functional nesting too deep")
        try:
            for dims, fn in rows:
                vs = [z3.Const(f"bv!{self.bvdepth}!{i}", I) for i in range(len(dims))]
                body = self.scoped(
                    [vand(vcmp(">=", v, 0), vcmp("<", v, d)) for v, d in zip(vs, dims)],
                    lambda: fn(*vs))
                parts = [body.re, body.im] if isinstance(body, Cx) else [body]
                own = frozenset(v.get_id() for v in vs)
                self.keep.append(vs)
                for t in list(dims) + parts:
                    t = z3.simplify(tz(t), som=True)
                    self.keep.append(t)
                    keys.append(t.get_id())
                    free = free | (self.free_bvs(t) - own)
        finally:
            self.bvdepth -= 1
        key = tuple(keys)
        if key in self.fkey:
            return self.fkey[key]
        c = self.fresh(f"F_{kind}", sort)
        f = FApp(kind, tuple(params), tuple(rows), c, self.bvdepth)
        self.fapps[c.get_id()] = f
        self.keep.append(c)
        self.fkey[key] = c
        if free:
            self.deps[c.get_id()] = free
        if axioms is not None:
            for ax in axioms(c):
                self.axiom(ax)
        return c

    # -- obligations
    def oblige(self, name, goal, assume_after=True, lhs=None, rhs=None):
        from . import prover

        self.check_time()
        g = vbool(raw(goal) if isinstance(goal, Sym) else goal)
        o = Obligation(name)
        t = time.time()
        prover.discharge(self, o, g)
        o.time = time.time() - t
        self.obls.append(o)
        if assume_after and not isinstance(g, bool):
            self.pc.append(g)
            self.solver.add(g)
            self._dec_cache.clear()
        elif g is False and assume_after:
            raise StopPath()
        return o.status == "proved"


def explore(fn, max_paths=400, timeout_ms=8000, deadline=None):
    """run fn(ctx) over all feasible paths; returns list of (ctx, outcome)"""
    results = []
    pending = [[]]
    err, n_unsup = None, 0
    while pending:
        if len(results) >= max_paths:
            return results, f"unsupported: more than {max_paths} paths"
        dec = pending.pop()
        c = SymCtx(dec, timeout_ms, deadline)
        set_ctx(c)
        outcome = "ok"
        try:
            fn(c)
        except StopPath:
            outcome = "stopped"
        except Unsupported as e:
            outcome = "unsupported"
            import traceback

            err = err or f"unsupported: {e} @ " + " < ".join(
                f"{f.name}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-6:]))
            n_unsup += 1
        except OutOfTime:
            return results + [(c, "timeout")], "time budget exhausted"
        finally:
            for f in c.cleanup:
                f()
            set_ctx(None)
        if n_unsup > 12:
            return results + [(c, outcome)], err
        # schedule alternatives
        for i in range(len(dec), len(c.trace)):
            b, alt = c.trace[i]
            if alt:
                pending.append(c.trace[:i] + [(False, False)])
        results.append((c, outcome))
    return results, err
