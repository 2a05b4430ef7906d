"""Python-level shims: builtins over symbolic values, symbolic sequences, and
the mechanical extraction (AST transform + execution) of the subject modules."""
import ast
import builtins
import collections.abc
import math as _math
import os
import types
from fractions import Fraction

import torch as _t
import z3

from . import core, funcs
from .core import (
    I, R, Cx, StopPath, Sym, SymBool, SymComplex, SymInt, SymReal, Unsupported, ctx, is_num, raw, tz,
    vabs, vadd, vand, vbool, vceil, vcmp, vdiv, vfloor, vimplies, vite, vmax, vmin, vmul, vnot,
    vor, vreal, vsub, vtrunc, wrap,
)
from .tensor import Size, SymTensor, is_tensor, simp


class SymSeq:
    """sequence of symbolic length n with element function fn(raw index) -> value"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __iter__(self):
        raise Unsupported("iteration over a sequence of symbolic length")

    def __len__(self):
        raise Unsupported("native len of a symbolic sequence")

    def __getitem__(self, k):
        n = raw(self.n)
        if isinstance(k, slice):
            from .shim import norm_slice

            st, ln, sp = norm_slice(k, n)
            f = self.fn
            return mkseq(wrap(ln), lambda i: f(simp(vadd(st, vmul(i, sp)))))
        v = raw(k)
        from .tensor import need

        need(vand(vcmp("<", v, n), vcmp(">=", v, -n if is_num(n) else -tz(n))),
             "list index out of range", IndexError)
        v = vite(vcmp("<", v, 0), vadd(v, n), v)
        return self.fn(simp(v))


def mkseq(n, fn):
    n = wrap(simp(raw(n)))
    if isinstance(n, int):
        return [fn(i) for i in range(n)]
    return SymSeq(n, fn)


class SymRange(SymSeq):
    def __init__(self, n, start=0, step=1):
        super().__init__(n, lambda i: wrap(simp(vadd(raw(start), vmul(i, raw(step))))))
        self.start, self.step = start, step


# ------------------------------------------------------------------ builtins
def s_len(x):
    if is_tensor(x):
        if x.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return x.shape[0]
    if isinstance(x, SymSeq):
        return x.n
    if hasattr(type(x), "__len__") and getattr(type(x), "_dv_subject", False):
        return type(x).__len__(x)
    try:
        return builtins.len(x)
    except TypeError:
        f = getattr(type(x), "__len__", None)
        if f is not None:
            return f(x)
        raise


def s_range(*a):
    if builtins.all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    a = [x.item() if is_tensor(x) else x for x in a]
    for x in a:
        if isinstance(x, (SymReal, float)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    start, stop, step = 0, None, 1
    if builtins.len(a) == 1:
        stop = a[0]
    elif builtins.len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    d = vsub(raw(stop), raw(start))
    st = raw(step)
    if is_num(st) and st == 1:
        n = d
    else:
        n = wrap(vceil(vdiv(vreal(d), st))).v if not is_num(vceil(vdiv(vreal(d), st))) else vceil(
            vdiv(vreal(d), st))
    r = ctx().implied(vcmp(">=", n, 0))
    if r is not True:
        if not ctx().decide_fork(vcmp(">", n, 0)):
            return builtins.range(0)
    n = simp(n)
    if isinstance(n, int):
        return [wrap(simp(vadd(raw(start), vmul(i, st)))) for i in builtins.range(n)]
    return SymRange(wrap(n), start, step)


def s_int(x=0, *a):
    if is_tensor(x):
        x = x.item()
    if isinstance(x, Sym):
        return wrap(simp(vtrunc(x.v)))
    if isinstance(x, Fraction):
        return int(x)
    return builtins.int(x, *a)


def s_float(x=0.0):
    if is_tensor(x):
        x = x.item()
    if isinstance(x, Sym):
        return wrap(vreal(x.v))
    if isinstance(x, (int, Fraction)):
        return SymReal(Fraction(x))
    if isinstance(x, str):
        try:
            return SymReal(Fraction(x))
        except ValueError:
            return builtins.float(x)
    return builtins.float(x)


def s_round(x, nd=None):
    if is_tensor(x):
        x = x.item()
    if isinstance(x, Sym):
        if isinstance(x, SymInt):
            return x
        r = x.__round__(nd) if nd is not None else x.__round__()
        return wrap(simp(raw(r)))
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def _mm(name, pick):
    native = getattr(builtins, name)

    def f(*a, **k):
        if builtins.len(a) == 1:
            a = a[0]
            if is_tensor(a):
                a = list(a)
            if isinstance(a, SymSeq):
                raise Unsupported(f"{name} of a symbolic sequence")
            a = list(a)
        if k.get("key") is None and builtins.any(isinstance(x, Sym) or is_tensor(x) for x in a):
            if builtins.any(is_tensor(x) for x in a):
                a = [x.item() if is_tensor(x) else x for x in a]
            r = raw(a[0])
            for x in a[1:]:
                if isinstance(x, float) and x in (float("inf"), float("-inf")):
                    if (x > 0) == (name == "min"):
                        continue
                    raise Unsupported("inf in min/max")
                r = pick(r, raw(x))
            return wrap(simp(r))
        if not a and "default" in k:
            return k["default"]
        k.pop("default", None)
        return native(a, **k)

    return f


s_min, s_max = _mm("min", vmin), _mm("max", vmax)


def s_abs(x):
    return builtins.abs(x)


def s_sum(it, start=0):
    if isinstance(it, SymSeq):
        probe = it.fn(z3.Int("probe!"))
        if is_tensor(probe):
            raise Unsupported("sum of tensors over a symbolic sequence")
        r = funcs.vsum(raw(it.n), lambda i: raw(it.fn(i)))
        return wrap(vadd(raw(start), r))
    r = start
    for x in it:
        r = r + x
    return r


def _anyall(kind):
    native = getattr(builtins, kind)

    def f(it):
        if is_tensor(it):
            from .shim import FN

            return builtins.bool(FN[kind](it))
        if isinstance(it, SymSeq):
            from .shim import FN, mk

            t = mk((it.n,), lambda i: vbool(raw(it.fn(i))), _t.bool)
            return builtins.bool(FN[kind](t))
        return native(it)

    return f


def s_isinstance(x, T):
    ts = T if isinstance(T, tuple) else (T,)
    flat = []
    for t in ts:
        if isinstance(t, types.UnionType):
            flat += list(t.__args__)
        else:
            flat.append(t)
    for t in flat:
        if t is s_int or t is int:
            if isinstance(x, (int, SymInt, SymBool)):
                return True
        elif t is s_float or t is float:
            if isinstance(x, (float, Fraction)) or isinstance(x, SymReal):
                return True
        elif t is bool or t is s_bool:
            if isinstance(x, (bool, SymBool)):
                return True
        elif t is list or t is s_list:
            if isinstance(x, (list, SymSeq)) and not isinstance(x, SymRange):
                return True
        elif t is tuple or t is s_tuple:
            if isinstance(x, tuple):
                return True
        elif t is set or t is s_set:
            if isinstance(x, set):
                return True
        elif t in (collections.abc.Sequence, collections.abc.Iterable,
                   collections.abc.Collection) and isinstance(x, SymSeq):
            return True
        elif t is complex:
            if isinstance(x, (complex, SymComplex)):
                return True
        elif isinstance(t, type):
            try:
                if isinstance(x, t):
                    return True
            except TypeError:
                pass
        elif hasattr(t, "_dv_isinstance"):
            if t._dv_isinstance(x):
                return True
    return False


def s_zip(*its, strict=False):
    if builtins.any(isinstance(x, SymSeq) for x in its):
        its = [x if isinstance(x, SymSeq) else list(x) for x in its]
        n = None
        for x in its:
            m = s_len(x)
            n = m if n is None else s_min(n, m)
        if strict:
            for x in its:
                if not builtins.bool(wrap(vcmp("==", raw(s_len(x)), raw(n)))):
                    raise ValueError("zip() arguments have different lengths")

        def get(x, i):
            return x.fn(i) if isinstance(x, SymSeq) else x[i]

        return mkseq(n, lambda i: tuple(get(x, i) for x in its))
    return builtins.zip(*its, strict=strict)


def s_enumerate(it, start=0):
    if isinstance(it, SymSeq):
        return mkseq(it.n, lambda i: (wrap(simp(vadd(i, raw(start)))), it.fn(i)))
    return builtins.enumerate(it, start)


def s_map(f, *its):
    if builtins.any(isinstance(x, SymSeq) for x in its):
        z = s_zip(*its)
        return mkseq(z.n, lambda i: f(*z.fn(i)))
    return builtins.map(f, *its)


def s_list(it=()):
    if isinstance(it, SymSeq):
        return it
    return builtins.list(it)


def s_tuple(it=()):
    if isinstance(it, SymSeq):
        return it
    return builtins.tuple(it)


def s_set(it=()):
    it = builtins.list(it)
    if builtins.any(isinstance(x, Sym) for x in it):
        raise Unsupported("set of symbolic values")
    return builtins.set(it)


def s_sorted(it, **k):
    it = builtins.list(it)
    return builtins.sorted(it, **k)


def s_bool(x=False):
    return builtins.bool(x)


def s_reversed(x):
    if isinstance(x, SymSeq):
        n = raw(x.n)
        return SymSeq(x.n, lambda i: x.fn(simp(vsub(vsub(n, 1), i))))
    return builtins.reversed(x)


def s_str(*a):
    return builtins.str(*a)


def s_divmod(a, b):
    return a // b, a % b


def s_pow(a, b, mod=None):
    return __pow(a, b)


def __flt(s):
    return SymReal(Fraction(s))


def __div(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return SymReal(Fraction(a) / Fraction(b))
    if isinstance(a, float) and isinstance(b, Sym) or isinstance(b, float) and isinstance(a, Sym):
        return wrap(vdiv(raw(a), raw(b)))
    return a / b


def __pow(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        if isinstance(b, int) and b >= 0:
            return a ** b
        return wrap(funcs.vpow(Fraction(a), b))
    return a ** b


def __cplx(s):
    c = complex(s)
    return SymComplex(Cx(Fraction(repr(c.real)), Fraction(repr(c.imag))))


def __issym(it):
    return isinstance(it, SymSeq)


def _snap_closure(f):
    """f with the variables it closes over fixed at their present values (a comprehension is
    evaluated when it is written; its symbolic counterpart is evaluated on demand)"""
    if not f.__closure__:
        return f
    import types

    cells = []
    for c in f.__closure__:
        try:
            cells.append(types.CellType(c.cell_contents))
        except ValueError:
            cells.append(c)
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))


def __comp(f, it):
    if is_tensor(it) and isinstance(it.shape[0], Sym):
        t = it
        it = SymSeq(t.shape[0], lambda i: t[wrap(i)])
    if isinstance(it, SymSeq):
        g = it.fn
        f = _snap_closure(f)
        from . import tensor

        born, nw = tensor.SERIAL[0], len(tensor.WLOG)

        def elem(i):
            if any(s <= born for s in tensor.WLOG[nw:]):
                raise Unsupported("in-place write after a comprehension over a symbolic range")
            return f(g(i))

        return mkseq(it.n, elem)
    return [f(x) for x in it]


def __gen(f, it):
    if isinstance(it, SymSeq) or is_tensor(it):
        return __comp(f, it)
    return (f(x) for x in it)


def __for(it, carried, effects):
    """iteration protocol of a subject `for` loop"""
    if is_tensor(it):
        t = it
        if t.ndim and isinstance(t.shape[0], Sym):
            it = SymSeq(t.shape[0], lambda i: t[wrap(i)])
        else:
            return iter(it)
    if not isinstance(it, SymSeq):
        return iter(it)
    if effects or carried:
        # tolerated only when carried variables are always (re)assigned first;
        # `carried` lists variables read before assignment in the body
        raise Unsupported(f"loop over a symbolic range carries state {carried or 'effects'}")
    return _one(it)


def _one(seq):
    c = ctx()
    if c.fork(2) == 0:
        k = c.fresh("iter", I)
        c.assume(vand(vcmp(">=", k, 0), vcmp("<", k, raw(seq.n))))
        c.__dict__.setdefault("iters", []).append((k, raw(seq.n)))
        # tensors that exist before the iteration may not be written by it
        from . import tensor

        old = tensor.BARRIER[0]
        tensor.BARRIER[0] = tensor.SERIAL[0]
        c.cleanup.append(lambda: tensor.BARRIER.__setitem__(0, old))
        yield seq.fn(k)
        tensor.BARRIER[0] = old
        raise StopPath()
    # loop finished / not entered
    c.loops_done = c.__dict__.get("loops_done", 0) + 1
    return


def __extend(lst, seq):
    if isinstance(seq, list):
        return lst + seq
    if len(lst) == 0:
        return seq
    n0 = len(lst)
    raise Unsupported("append to a non-empty list in a symbolic loop")


def itertools_product(*its, repeat=1):
    """odometer order, last factor fastest (documented contract of itertools.product)"""
    import itertools

    its = [x if isinstance(x, SymSeq) else list(x) for x in its] * repeat
    if not builtins.any(isinstance(x, SymSeq) for x in its):
        return itertools.product(*its)
    ns = [raw(s_len(x)) for x in its]
    total = 1
    for n in ns:
        total = vmul(total, n)

    def get(i):
        out = []
        for x, n in reversed(list(builtins.zip(its, ns))):
            if n is ns[0] and builtins.len(out) == builtins.len(its) - 1:
                r = i  # i < product of all lengths
            else:
                r, i = core.vmod(i, n), core.vfloordiv(i, n)
            out.append(x.fn(simp(r)) if isinstance(x, SymSeq) else x[raw(r)])
        return tuple(out[::-1])

    return mkseq(wrap(simp(total)), get)


SHIMS = {
    "len": s_len, "range": s_range, "int": s_int, "float": s_float, "round": s_round,
    "min": s_min, "max": s_max, "abs": s_abs, "sum": s_sum, "any": _anyall("any"),
    "all": _anyall("all"), "isinstance": s_isinstance, "zip": s_zip, "enumerate": s_enumerate,
    "map": s_map, "list": s_list, "tuple": s_tuple, "set": s_set, "sorted": s_sorted,
    "bool": s_bool, "reversed": s_reversed, "divmod": s_divmod, "pow": s_pow,
    "dv__flt": __flt, "dv__div": __div, "dv__pow": __pow, "dv__cplx": __cplx,
    "dv__issym": __issym, "dv__comp": __comp, "dv__gen": __gen, "dv__for": __for,
    "dv__extend": __extend,
}


# ------------------------------------------------------------------ AST transform
class _Names(ast.NodeVisitor):
    def __init__(self):
        self.reads, self.writes = set(), set()

    def visit_Name(self, n):
        (self.reads if isinstance(n.ctx, ast.Load) else self.writes).add(n.id)


def _rw(nodes):
    v = _Names()
    for n in nodes:
        v.visit(n)
    return v.reads, v.writes


def _carried(body):
    """variables that may be read before being assigned in an iteration and are
    assigned somewhere in the body (loop-carried)"""
    _, writes = _rw(body)
    assigned = set()
    carried = set()

    def stmt(s):
        if isinstance(s, ast.Assign):
            r, _ = _rw([s.value])
            carried.update((r & writes) - assigned)
            for t in s.targets:
                rr, ww = _rw([t])
                carried.update((rr & writes) - assigned)
                assigned.update(ww)
        elif isinstance(s, ast.AugAssign):
            r, _ = _rw([s.value])
            carried.update((r & writes) - assigned)
            _, w = _rw([s.target])
            carried.update(w - assigned)
        elif isinstance(s, (ast.If,)):
            r, _ = _rw([s.test])
            carried.update((r & writes) - assigned)
            base = set(assigned)
            for x in s.body:
                stmt(x)
            a1 = set(assigned)
            assigned.clear()
            assigned.update(base)
            for x in s.orelse:
                stmt(x)
            a2 = set(assigned)
            assigned.clear()
            assigned.update(a1 & a2)
        elif isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
            base = set(assigned)
            if isinstance(s, ast.For):
                r, _ = _rw([s.iter])
                carried.update((r & writes) - assigned)
                _, w = _rw([s.target])
                assigned.update(w)
            if isinstance(s, ast.With):
                for it in s.items:
                    r, _ = _rw([it.context_expr])
                    carried.update((r & writes) - assigned)
                    if it.optional_vars is not None:
                        _, w = _rw([it.optional_vars])
                        assigned.update(w)
                for x in s.body:
                    stmt(x)
                return
            for x in s.body:
                stmt(x)
            assigned.clear()
            assigned.update(base)
        else:
            r, w = _rw([s])
            carried.update((r & writes) - assigned)
            assigned.update(w)

    for s in body:
        stmt(s)
    return carried


def _has_effects(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(
                    getattr(n, "ctx", None), (ast.Store, ast.Del)):
                return True
            if isinstance(n, ast.AugAssign) and not isinstance(n.target, ast.Name):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "insert", "pop", "update", "add", "remove"):
                return True
            if isinstance(n, (ast.Break, ast.Return)):
                return True
    return False


class Xform(ast.NodeTransformer):
    """the mechanical extraction: what it drops or replaces is exactly this"""

    def __init__(self):
        self.n = 0

    def _fn(self, node):
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        if node.args.vararg:
            node.args.vararg.annotation = None
        if node.args.kwarg:
            node.args.kwarg.annotation = None
        node.returns = None
        self.generic_visit(node)
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        self.generic_visit(node)
        return ast.copy_location(ast.Assign([node.target], node.value), node)

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            import sys

            s = self.src.get((node.lineno, node.col_offset, node.end_col_offset)) or repr(node.value)
            s = s.replace("_", "")
            if node.value in (float("inf"),):
                return node
            return ast.copy_location(ast.Call(
                ast.Name("dv__flt", ast.Load()), [ast.Constant(s)], []), node)
        if isinstance(node.value, complex):
            return ast.copy_location(ast.Call(
                ast.Name("dv__cplx", ast.Load()), [ast.Constant(str(node.value))], []), node)
        return node

    def visit_JoinedStr(self, node):
        # messages are not part of any contract
        return ast.copy_location(ast.Constant("<message>"), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        nm = {ast.Div: "dv__div", ast.Pow: "dv__pow"}.get(type(node.op))
        if nm:
            return ast.copy_location(ast.Call(
                ast.Name(nm, ast.Load()), [node.left, node.right], []), node)
        return node

    def _comp(self, node, nm):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].ifs or node.generators[0].is_async:
            return node
        g = node.generators[0]
        if isinstance(g.target, ast.Name):
            arg = g.target.id
            lam = ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), node.elt)
        else:
            # tuple target: unpack through a comprehension over a one-element list
            self.n += 1
            arg = f"dv__x{self.n}"
            inner = ast.ListComp(node.elt, [ast.comprehension(
                g.target, ast.List([ast.Name(arg, ast.Load())], ast.Load()), [], 0)])
            lam = ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []),
                             ast.Subscript(inner, ast.Constant(0), ast.Load()))
        return ast.copy_location(ast.Call(ast.Name(nm, ast.Load()), [lam, g.iter], []), node)

    def visit_ListComp(self, node):
        return self._comp(node, "dv__comp")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "dv__gen")

    def visit_For(self, node):
        carried = sorted(_carried(node.body))
        # append pattern
        app = None
        last = node.body[-1]
        if (isinstance(last, ast.Expr) and isinstance(last.value, ast.Call)
                and isinstance(last.value.func, ast.Attribute)
                and last.value.func.attr == "append"
                and isinstance(last.value.func.value, ast.Name)
                and not carried and not _has_effects(node.body[:-1]) and not node.orelse
                and not any(isinstance(n, (ast.Yield, ast.Continue)) for s in node.body
                            for n in ast.walk(s))):
            app = last
        eff = _has_effects(node.body)
        self.generic_visit(node)
        loop = ast.copy_location(ast.For(
            node.target,
            ast.Call(ast.Name("dv__for", ast.Load()),
                     [node.iter, ast.Constant(tuple(carried)), ast.Constant(eff)], []),
            node.body, node.orelse), node)
        if app is None:
            return loop
        self.n += 1
        fn, itn, arg = f"dv__b{self.n}", f"dv__it{self.n}", f"dv__a{self.n}"
        app = node.body[-1]
        name = app.value.func.value.id
        body = [ast.Assign([node.target], ast.Name(arg, ast.Load()))] + list(node.body[:-1]) + [
            ast.Return(app.value.args[0])]
        fdef = ast.FunctionDef(fn, ast.arguments([], [ast.arg(arg)], None, [], [], None, []),
                               body, [], None, type_params=[])
        ext = ast.Assign([ast.Name(name, ast.Store())], ast.Call(
            ast.Name("dv__extend", ast.Load()),
            [ast.Name(name, ast.Load()), ast.Call(ast.Name("dv__comp", ast.Load()), [
                ast.Name(fn, ast.Load()), ast.Name(itn, ast.Load())], [])], []))
        loop.iter.args[0] = ast.Name(itn, ast.Load())
        import copy

        return [
            ast.copy_location(ast.Assign([ast.Name(itn, ast.Store())], node.iter), node),
            ast.copy_location(ast.If(
                ast.Call(ast.Name("dv__issym", ast.Load()), [ast.Name(itn, ast.Load())], []),
                [copy.deepcopy(fdef), ext], [loop]), node),
        ]

    src = {}


def transform(text, path):
    tree = ast.parse(text, path)
    x = Xform()
    x.src = {}
    lines = text.split("\n")
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, float) and n.lineno == n.end_lineno:
            ln = lines[n.lineno - 1].encode()
            x.src[(n.lineno, n.col_offset, n.end_col_offset)] = ln[
                n.col_offset:n.end_col_offset].decode()
    tree = x.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")


class Permissive:
    """stand-in for typing-only objects"""

    def __init__(self, name="x"):
        self.__name__ = name

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __call__(self, *a, **k):
        return a[0] if len(a) == 1 and callable(a[0]) else self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Permissive(n)


class PermissiveModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Permissive(n)


class World:
    """the extracted subject: modules of /repo executed over the shims"""

    def __init__(self, repo="/repo", overrides=None, extra=None):
        from . import torchns

        self.repo = repo
        self.mods = {}
        self.overrides = overrides or {}
        self.shims = torchns.modules()
        self.shims.update(extra or {})
        self.sources = {}

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            parts = parts[: len(parts) - (level - 1)]
            name = ".".join(parts + ([name] if name else []))
        root = name.split(".")[0]
        if root == "ml4gw":
            m = self.load(name)
            if not fromlist:
                return self.load("ml4gw")
            for f in fromlist:
                if not hasattr(m, f) and self._path(name + "." + f):
                    setattr(m, f, self.load(name + "." + f))
            return m
        if name in self.shims:
            return self.shims[name] if fromlist or "." not in name else self.shims[root]
        if root in self.shims:
            m = self.shims[root]
            if not fromlist:
                return m
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        return __import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self._path(name)
        if p is None:
            raise ImportError(name)
        m = types.ModuleType(name)
        self.mods[name] = m
        m.__file__ = p
        pk = p.endswith("__init__.py")
        m.__package__ = name if pk else name.rpartition(".")[0]
        if pk:
            m.__path__ = [os.path.dirname(p)]
        if pk or name in ("ml4gw.types", "ml4gw.constants_"):
            if pk:
                # packages: sub-modules are loaded on demand
                m.__getattr__ = self._lazy(name, p)
                if "." in name:
                    setattr(self.load(name.rpartition(".")[0]), name.rpartition(".")[2], m)
                return m
            mm = PermissiveModule(name)
            self.mods[name] = mm
            return mm
        if name == "ml4gw.waveforms.cbc.phenom_d_data":
            return self._load_data(name, m, p)
        text = open(p).read()
        self.sources[name] = p
        b = dict(vars(builtins))
        b.update(SHIMS)
        b["__import__"] = self._import
        m.__dict__["__builtins__"] = b
        old = core.CTX
        if old is None:
            core.set_ctx(core.SymCtx([]))
        try:
            exec(transform(text, p), m.__dict__)
        finally:
            core.set_ctx(old)
        for k, v in self.overrides.items():
            mod, _, attr = k.partition(":")
            if mod == name:
                setattr(m, attr, v)
        if "." in name:
            setattr(self.load(name.rpartition(".")[0]), name.rpartition(".")[2], m)
        return m

    def _load_data(self, name, m, p):
        import importlib.util

        sp = importlib.util.spec_from_file_location("dv_data", p)
        real = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(real)
        for k, v in vars(real).items():
            if isinstance(v, _t.Tensor):
                from .shim import from_table
                from .core import raw as _r

                # abstract table: values uninterpreted, shape exact
                n = core.uf(f"table_{k}", *([I] * v.ndim + [R]))
                setattr(m, k, SymTensor.make(tuple(v.shape), (
                    lambda n: lambda *i: n(*[tz(x) for x in i]))(n), v.dtype))
        return m

    def _lazy(self, name, p):
        """attribute access on a package: follow its __init__ re-exports"""
        text = open(p).read() if os.path.exists(p) else ""
        table = {}
        for node in ast.parse(text).body:
            if isinstance(node, ast.ImportFrom) and node.level:
                base = name.split(".")
                base = base[: len(base) - (node.level - 1)]
                src = ".".join(base + ([node.module] if node.module else []))
                for a in node.names:
                    table[a.asname or a.name] = (src, a.name)

        def get(attr):
            if attr in table:
                src, nm = table[attr]
                if self._path(src + "." + nm):
                    return self.load(src + "." + nm)
                return getattr(self.load(src), nm)
            if self._path(name + "." + attr):
                return self.load(name + "." + attr)
            raise AttributeError(f"{name}.{attr}")

        return get

    def get(self, ref):
        mod, _, attr = ref.partition(":")
        m = self.load(mod)
        if not attr:
            return m
        o = m
        for a in attr.split("."):
            o = getattr(o, a)
        return o
