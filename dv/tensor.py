"""Symbolic tensors: concrete number of axes, symbolic extents, element
functions, views with aliasing, in-place writes."""
from fractions import Fraction

import torch as _t
import z3

from . import core, funcs
from .core import (
    Cx, I, R, B, Sym, SymBool, SymInt, SymReal, Unsupported, ctx, cx, is_num, raw, tz,
    tzr, vadd, vand, vabs, vbool, vceil, vcmp, vdiv, vfloor, vfloordiv, vite, vmax, vmin,
    vmod, vmul, vneg, vnot, vor, vreal, vsub, vtrunc, wrap, fold, _is_int,
)

FLOATS = (_t.float16, _t.bfloat16, _t.float32, _t.float64)
CPLX = (_t.complex64, _t.complex128)
INTS = (_t.int8, _t.int16, _t.int32, _t.int64, _t.uint8)


def cat_of(dt):
    if dt is _t.bool:
        return 0
    if dt in INTS:
        return 1
    if dt in FLOATS:
        return 2
    return 3


def c2r(dt):
    return _t.float64 if dt is _t.complex128 else _t.float32


def r2c(dt):
    return _t.complex128 if dt is _t.float64 else _t.complex64


class Size(tuple):
    def numel(self):
        r = 1
        for d in self:
            r = r * d
        return r

    def __getitem__(self, i):
        if isinstance(i, Sym):
            raise Unsupported("symbolic shape index")
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Size(tuple(self) + tuple(o))

    def __radd__(self, o):
        return Size(tuple(o) + tuple(self))

    def __eq__(self, o):
        if not isinstance(o, (tuple, list)):
            return False
        if len(o) != len(self):
            return False
        r = True
        for a, b in zip(self, o):
            r = vand(r, vcmp("==", raw(a), raw(b)))
        return wrap(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrap(vnot(raw(r)))

    __hash__ = None


def rd(d):
    """raw dim"""
    return raw(d)


def prod(ds):
    r = 1
    for d in ds:
        r = vmul(r, rd(d))
    return r


def simp(v):
    if isinstance(v, z3.ExprRef):
        return fold(z3.simplify(v))
    return v


SERIAL, BARRIER = [0], [0]
WLOG = []  # serial numbers of the storages written in place, in order


class Storage:
    __slots__ = ("fn", "shape", "writes", "name", "serial", "group", "poison")

    def __init__(self, fn, shape, name=""):
        SERIAL[0] += 1
        self.serial = SERIAL[0]
        self.group, self.poison = None, False
        self.fn, self.shape, self.writes, self.name = fn, tuple(shape), 0, name


def memo(fn):
    cache = {}
    keep = []

    def g(*idx):
        k = tuple(i.get_id() if isinstance(i, z3.ExprRef) else ("c", i) for i in idx)
        r = cache.get(k)
        if r is None:
            r = fn(*idx)
            cache[k] = r
            keep.append(idx)
        return r

    return g


def need(cond, name, exc=RuntimeError):
    """precondition of a trusted operation: on the failing side the real
    operation raises, so fork"""
    c = vbool(raw(cond) if isinstance(cond, Sym) else cond)
    if not ctx().decide_fork(c):
        raise exc(name)


def same(a, b):
    """are two dims equal (decided, forking only if undetermined)"""
    c = vcmp("==", rd(a), rd(b))
    if isinstance(c, bool):
        return c
    return ctx().decide_fork(c)


def broadcast(shapes):
    n = max(len(s) for s in shapes)
    out = [1] * n
    maps = [[True] * n for _ in shapes]
    for ax in range(n):
        cur = 1
        for s in shapes:
            j = ax - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if is_num(rd(d)) and rd(d) == 1:
                continue
            if is_num(rd(cur)) and rd(cur) == 1:
                cur = d
            elif not same(cur, d):
                if same(cur, 1):
                    cur = d
                elif same(d, 1):
                    pass
                else:
                    raise RuntimeError(
                        f"The size of tensor a ({cur}) must match the size of tensor b ({d})"
                    )
        out[ax] = cur
    mappers = []
    for s in shapes:
        off = n - len(s)
        flags = []
        for j, d in enumerate(s):
            o = out[off + j]
            one = is_num(rd(d)) and rd(d) == 1
            if not one and not (is_num(rd(o)) and rd(o) == 1) and d is not o:
                # d may be a symbolic extent equal to 1
                e = vcmp("==", rd(d), rd(o))
                one = not (e is True or ctx().implied(e) is True)
            flags.append(one)

        def mp(idx, off=off, flags=tuple(flags)):
            return tuple(0 if f else idx[off + j] for j, f in enumerate(flags))

        mappers.append(mp)
    return Size(out), mappers


def normdim(d, n):
    if isinstance(d, Sym):
        raise Unsupported("symbolic axis")
    if d < -max(n, 1) or d >= max(n, 1):
        raise IndexError(
            f"Dimension out of range (expected to be in range of [{-n}, {n - 1}], but got {d})"
        )
    return d % n if n else 0


class TensorMeta(type):
    pass


class SymTensor(metaclass=TensorMeta):
    __array_priority__ = 2000
    device = _t.device("cpu")
    requires_grad = False
    is_cuda = False

    def __new__(cls, *a, **k):
        if a or k:
            if isinstance(a[0], (list, tuple, SymTensor, Sym)) or hasattr(a[0], "__array__"):
                from . import shim

                return shim.Tensor_ctor(*a, **k)
        return object.__new__(cls)

    @staticmethod
    def make(shape, fn, dtype, axes=None, storage=None):
        t = object.__new__(SymTensor)
        t.shape = Size(wrap(simp(rd(d))) if isinstance(d, Sym) else d for d in shape)
        t.dtype = dtype
        if storage is None:
            storage = Storage(memo(fn), t.shape)
            axes = [("ax", i, 0, 1) for i in range(len(t.shape))]
        t.storage = storage
        t.axes = axes  # per base axis: ('fix', v) | ('ax', view_axis, start, step); or callable
        return t

    # ------------------------------------------------------------ element access
    def base_idx(self, idx):
        if callable(self.axes):
            return self.axes(*idx)
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                v = idx[a[1]]
                if a[3] != 1:
                    v = vmul(v, a[3])
                out.append(vadd(v, a[2]))
        return tuple(out)

    def snap(self):
        """element function, frozen at this moment"""
        if self.storage.poison:
            raise Unsupported("read of a tensor whose reshaped alias was written in place")
        fn = self.storage.fn
        if not callable(self.axes) and self.is_identity():
            return fn
        me = self

        def g(*idx):
            return fn(*me.base_idx(idx))

        return g

    def is_identity(self):
        if callable(self.axes):
            return False
        if len(self.axes) != len(self.shape):
            return False
        return all(
            a[0] == "ax" and a[1] == i and is_num(a[2]) and a[2] == 0 and a[3] == 1
            for i, a in enumerate(self.axes)
        ) and all(
            (x is y) or (rd(x) is rd(y)) or (is_num(rd(x)) and is_num(rd(y)) and rd(x) == rd(y))
            or (isinstance(rd(x), z3.ExprRef) and isinstance(rd(y), z3.ExprRef) and rd(x).eq(rd(y)))
            for x, y in zip(self.shape, self.storage.shape)
        )

    def at(self, *idx):
        """raw element"""
        return self.snap()(*[raw(i) for i in idx])

    def get(self, *idx):
        return wrap(self.at(*idx))

    def _dv_scalar(self):
        if len(self.shape) == 0:
            return self.at()
        if all(is_num(rd(d)) and rd(d) == 1 for d in self.shape):
            return self.at(*([0] * len(self.shape)))
        raise Unsupported("non-scalar tensor used as a scalar")

    def view_of(self, shape, axes):
        return SymTensor.make(shape, None, self.dtype, axes, self.storage)

    def copy(self, dtype=None):
        f = self.snap()
        return SymTensor.make(self.shape, f, dtype or self.dtype)

    # ------------------------------------------------------------ basic props
    @property
    def ndim(self):
        return len(self.shape)

    def dim(self):
        return len(self.shape)

    def size(self, d=None):
        if d is None:
            return self.shape
        return self.shape[normdim(d, self.ndim)]

    def numel(self):
        return self.shape.numel()

    nelement = numel

    def __len__(self):
        d = self.shape[0]
        if isinstance(d, Sym):
            raise Unsupported("native len() of a symbolic extent")
        return d

    def __bool__(self):
        v = self._dv_scalar()
        return ctx().decide_fork(vbool(v))

    def __index__(self):
        v = simp(self._dv_scalar())
        if isinstance(v, int):
            return v
        raise Unsupported("symbolic 0-d tensor as index")

    def __float__(self):
        v = simp(self._dv_scalar())
        if is_num(v):
            return float(v)
        raise Unsupported("native float() of symbolic tensor")

    def __int__(self):
        v = simp(self._dv_scalar())
        if is_num(v):
            return int(v)
        raise Unsupported("native int() of symbolic tensor")

    def __repr__(self):
        return f"SymTensor(shape={tuple(self.shape)}, dtype={self.dtype})"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        n = self.shape[0]
        if isinstance(n, Sym):
            raise Unsupported("iteration over a symbolic axis")
        return iter([self[i] for i in range(n)])

    def item(self):
        v = simp(self._dv_scalar())
        return wrap(v)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        n = self.shape[0]
        if isinstance(n, Sym):
            from .pyshim import SymSeq

            return SymSeq(n, lambda i: self[wrap(i)].tolist())
        return [self[i].tolist() for i in range(n)]

    __hash__ = object.__hash__

    # ------------------------------------------------------------ in-place
    def write(self, fn, touched=None):
        """self[...] = fn (function of view index); touched: extra view-index condition"""
        st = self.storage
        if st.serial <= BARRIER[0]:
            raise Unsupported("symbolic loop writes to a tensor from before the iteration")
        if callable(self.axes):
            raise Unsupported("in-place write through a reshaped view")
        if st.poison:
            raise Unsupported("write to a tensor whose reshaped alias was written in place")
        old = st.fn
        axes = self.axes
        shape = self.shape
        mapped = {}
        for b, a in enumerate(axes):
            if a[0] == "ax":
                if a[1] in mapped:
                    raise Unsupported("write through a diagonal view")
                mapped[a[1]] = b
        for v, d in enumerate(shape):
            if v not in mapped and not (is_num(rd(d)) and rd(d) == 1):
                if not same(d, 1):
                    raise RuntimeError("in-place write to an expanded tensor")
        full = self.is_identity() and touched is None

        def new(*base):
            cond = []
            idx = [0] * len(shape)
            for b, a in enumerate(axes):
                if a[0] == "fix":
                    cond.append(vcmp("==", base[b], a[1]))
                else:
                    v = vsub(base[b], a[2])
                    if a[3] != 1:
                        cond.append(vcmp("==", vmod(v, a[3]), 0))
                        v = vfloordiv(v, a[3])
                    if not (is_num(a[2]) and a[2] == 0):
                        cond.append(vcmp(">=", v, 0))
                    cond.append(vcmp("<", v, rd(shape[a[1]])))
                    idx[a[1]] = v
            if touched is not None:
                cond.append(touched(*idx))
            return vite(vand(*cond), fn(*idx), old(*base))

        if full:
            st.fn = memo(fn)
        else:
            st.fn = memo(new)
        st.writes += 1
        WLOG.append(st.serial)
        if st.group:
            for o in st.group:
                if o is not st:
                    o.poison = True
                    o.writes += 1
        return self

    def _inplace(self, o, f):
        from . import shim

        r = f(self, o)
        if cat_of(r.dtype) > cat_of(self.dtype):
            raise RuntimeError(f"result type {r.dtype} can't be cast to {self.dtype}")
        if len(r.shape) != len(self.shape):
            raise RuntimeError("output with shape doesn't match the broadcast shape")
        for a, b in zip(r.shape, self.shape):
            if not same(a, b):
                raise RuntimeError("output with shape doesn't match the broadcast shape")
        return self.write(r.snap())

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, lambda a, b: a / b)

    def __ipow__(self, o):
        return self._inplace(o, lambda a, b: a ** b)

    def __setitem__(self, key, val):
        from . import shim

        shim.setitem(self, key, val)

    def __getitem__(self, key):
        from . import shim

        return shim.getitem(self, key)

    def __getattr__(self, name):
        from . import shim

        m = shim.METHODS.get(name)
        if m is None:
            if name.startswith("__"):
                raise AttributeError(name)
            # in-place variants
            if name.endswith("_") and name[:-1] in shim.METHODS:
                f = shim.METHODS[name[:-1]]

                def g(*a, **k):
                    r = f(self, *a, **k)
                    return self._inplace(None, lambda x, _: r)

                return g
            raise Unsupported(f"Tensor.{name}")
        if m in shim.PROPS.values():
            return m(self)
        return lambda *a, **k: m(self, *a, **k)


def is_tensor(x):
    return isinstance(x, SymTensor)


def const_tensor(v, dtype):
    return SymTensor.make((), lambda: v, dtype)
