"""Dual-mode contract harness: the same contract is a set of proof obligations
over symbolic inputs (verifier) and an executable check over concrete inputs of
the real, imported code (replay of counterexamples, cross-check)."""
import importlib
import itertools
import math
import random
import sys
import traceback
from fractions import Fraction

import torch as _t
import z3

from . import core
from .core import (
    I, R, B, Sym, SymReal, StopPath, OutOfTime, Unsupported, raw, tz, vand, vbool, vcmp, vimplies, vnot,
    vor, wrap, vite, vreal, Cx, cx,
)
from .tensor import SymTensor, is_tensor, rd, cat_of, memo, Size

REG = {}  # property -> list of Contract


class Contract:
    def __init__(self, prop, name, fn, cases, targets, bounded, opts):
        self.prop, self.name, self.fn, self.cases = prop, name, fn, cases
        self.targets, self.bounded, self.opts = targets, bounded, opts


def contract(prop, targets, cases=None, name=None, bounded=None, **opts):
    """register a contract; `bounded` = text of the bound when it is a bounded
    stand-in (never counted as proved)"""

    def d(f):
        c = Contract(prop, name or f.__name__, f, cases or [{}], list(targets), bounded, opts)
        REG.setdefault(prop, []).append(c)
        return f

    return d


class Reject(Exception):
    """concrete sample outside the precondition"""


class Outcome:
    def __init__(self, val=None, exc=None, tb=""):
        self.val, self.exc, self.tb = val, exc, tb

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types or Exception)

    def __repr__(self):
        return f"Outcome({self.val!r}, {self.exc!r})"


_ENGINE_ERR = (TypeError, AttributeError, KeyError, NameError, AssertionError, RecursionError,
               NotImplementedError)


def classify(e):
    """engine-internal failure (not a behaviour of the subject)?"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    f = last.tb_frame.f_code.co_filename if last else ""
    if isinstance(e, z3.Z3Exception):
        return True
    if "/verif/dv/" in f or "/dv/" in f and f.endswith(".py") and "ml4gw" not in f:
        # deliberate errors of the shim are raised by an explicit raise statement; anything
        # else (an out-of-range tuple index, ...) is a failure of the engine itself
        import linecache

        line = linecache.getline(f, last.tb_lineno).strip()
        return isinstance(e, _ENGINE_ERR) or not (
            line.startswith("raise") or isinstance(e, StopIteration))
    if "/z3/" in f or "/torch/" in f or "numpy" in f:
        return True
    if "contracts/" in f:
        return True
    return isinstance(e, (RecursionError,)) or (
        isinstance(e, (AttributeError, TypeError, NameError)) and (
            "Sym" in str(e) or "Missing" in str(e) or "NS" in str(e) or "Permissive" in str(e)
            or "Fraction" in str(e)))


def opaque_module(obj):
    """a module of another library: every row of the input (its last axis) is mapped to an
    output by a functional that is unspecified beyond its arguments and the module's settings"""
    from .shim import mk
    from .torchns import Module
    from .core import ctx

    key = f"{type(obj).__qualname__}({sorted((k, str(v)) for k, v in obj.__dict__.items() if not k.startswith('_') and not callable(v))})"

    class Opaque(Module):
        def forward(self, x):
            n = rd(x.shape[-1])
            if not isinstance(n, int):
                raise Unsupported("row of unknown length")
            tail = tuple(obj(_t.zeros(n)).shape)
            f = x.snap()
            k = x.ndim - 1

            def fn(*ix):
                return ctx().fapp(key, tuple(ix[k:]), [((n,), lambda j: f(*ix[:k], j))])

            return mk(tuple(x.shape[:-1]) + tail, fn, x.dtype)

    m = Opaque()
    m.real = obj
    return m


# ====================================================================== symbolic
class SymH:
    sym = True

    def __init__(self, c, world):
        self.c, self.world = c, world
        self.inputs = c.inputs
        self.stubs = []

    @property
    def torch(self):
        return self.world.shims["torch"]

    @property
    def math(self):
        return self.world.shims["math"]

    pi = property(lambda self: self.world.shims["math"].pi)

    def fn(self, ref):
        return self.world.get(ref)

    def stub(self, ref, spec):
        """modular step: within this contract the callee `ref` is replaced by its contract
        `spec` (checked on the real callee by a contract of its own). The run is undecided
        when the code under contract does not call it."""
        mod, _, attr = ref.partition(":")
        m = self.world.get(mod)
        *cls, attr = attr.split(".")
        for x in cls:
            m = getattr(m, x, None)
        if not hasattr(m, attr):
            raise Unsupported(f"no {ref}")
        calls = []

        def f(*a, **k):
            calls.append((a, k))
            try:
                return spec(*a, **k)
            except (TypeError, IndexError) as e:
                raise Unsupported(f"call of {ref} does not fit its contract: {e}")

        setattr(m, attr, f)
        self.stubs.append((ref, calls))
        return calls

    def native(self, ref):
        """the real, imported object (for concrete configurations)"""
        return ConcH.fn(self, ref)

    def graft(self, obj):
        """an object of the extracted subject with the state of the real `obj`, which the real
        constructor built for a concrete configuration: its methods are then under proof for
        all inputs. Modules of other libraries become row-wise uninterpreted functionals."""
        from .torchns import ModuleList
        from .shim import from_real

        def lift(v):
            if isinstance(v, _t.nn.ModuleList):
                return ModuleList([lift(x) for x in v])
            if isinstance(v, _t.nn.Module) or type(v).__module__.startswith("ml4gw"):
                return self.graft(v)
            if isinstance(v, _t.Tensor):
                return from_real(v.detach())
            if isinstance(v, _t.Size):
                return Size(v)
            if isinstance(v, (list, tuple)):
                return type(v)(lift(x) for x in v)
            if isinstance(v, dict):
                return {k: lift(x) for k, x in v.items()}
            if isinstance(v, float) and math.isfinite(v):
                return SymReal(Fraction(v))
            return v

        mod, name = type(obj).__module__, type(obj).__qualname__
        if not mod.startswith("ml4gw"):
            return opaque_module(obj)
        cls = self.world.get(mod + ":" + name)
        new = cls.__new__(cls)
        d = dict(obj.__dict__)
        if isinstance(obj, _t.nn.Module):
            from .torchns import Module

            Module.__init__(new)
            new.training = obj.training
            for k, b in obj._buffers.items():
                new.register_buffer(k, None if b is None else from_real(b))
            for k, m in obj._modules.items():
                setattr(new, k, lift(m))
            if obj._parameters:
                raise Unsupported("graft of parameters")
            d = {k: v for k, v in d.items() if not k.startswith("_") and k != "training"}
        for k, v in d.items():
            setattr(new, k, lift(v))
        return new

    def opaque(self, name, args, params, shape):
        """a tensor whose elements are unspecified functionals of the argument tensors"""
        from .shim import opaque_tensor_op

        return opaque_tensor_op(name, list(args), tuple(raw(p) for p in params), tuple(shape),
                                _t.float32)

    def used(self):
        for ref, calls in self.stubs:
            if not calls:
                raise Unsupported(f"{ref} not called")

    def int(self, name, lo=None, hi=None, **k):
        v = self.c.fresh(name, I)
        self.inputs[name] = ("int", v)
        if lo is not None:
            self.c.assume(v >= tz(raw(lo)), check=False)
        if hi is not None:
            self.c.assume(v <= tz(raw(hi)), check=False)
        return wrap(v)

    def real(self, name, lo=None, hi=None, open=False, pos=None, any=None, **k):
        v = self.c.fresh(name, R)
        if pos:
            lo, open = 0, True
        self.inputs[name] = ("real", v)
        if lo is not None:
            self.c.assume(v > tz(raw(lo)) if open else v >= tz(raw(lo)), check=False)
        if hi is not None:
            self.c.assume(v < tz(raw(hi)) if open else v <= tz(raw(hi)), check=False)
        return wrap(v)

    def bool(self, name):
        return self.choice(name, [True, False])

    def choice(self, name, options):
        i = self.c.fork(len(options))
        self.inputs[name] = ("choice", i)
        return options[i]

    def tensor(self, name, shape, dtype=None, lo=None, hi=None, pos=None, any=None, **k):
        """pos, any: the range of concrete draws of a value that is only positive, or not
        constrained at all"""
        from .shim import fresh_tensor

        dtype = dtype or _t.float64
        t = fresh_tensor(name, tuple(shape), dtype, 0 if pos else lo, hi, lo_strict=bool(pos))
        self.inputs[name] = ("tensor", t, tuple(shape))
        return t

    def assume(self, cond):
        self.c.assume(raw(cond) if isinstance(cond, Sym) else cond)

    def assume_all(self, shape, fn):
        """assume fn(*idx) for every index (quantified)"""
        vs = [z3.Const(f"av!{self.c.fresh_n.get('av', 0)}!{i}", I) for i in range(len(shape))]
        self.c.fresh_n["av"] = self.c.fresh_n.get("av", 0) + 1
        rng = vand(*[vand(vcmp(">=", v, 0), vcmp("<", v, rd(d))) for v, d in zip(vs, shape)])
        body = vbool(raw(fn(*[wrap(v) for v in vs])))
        if isinstance(body, bool):
            if not body:
                self.c.assume(vnot(rng))
            return
        self.c.assume(z3.ForAll(vs, z3.Implies(tz(rng), tz(body))), check=False)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except (Unsupported, core.StopPath, core.OutOfTime):
            raise
        except Exception as e:
            if classify(e):
                import os as _os
                if _os.environ.get("DV_TB"):
                    traceback.print_exc()
                raise Unsupported(f"engine: {type(e).__name__}: {e} @ "
                                  + traceback.format_exc().strip().split("\n")[-3].strip()) from e
            return Outcome(None, e, traceback.format_exc())

    # obligations
    def ok(self, name, cond, note=""):
        return self.c.oblige(name, raw(cond) if isinstance(cond, Sym) else
                             (cond._dv_scalar() if is_tensor(cond) else cond))

    def must(self, name, out):
        """the call may not raise"""
        if not out.ok:
            o = core.Obligation(name + f" [no exception; raised {type(out.exc).__name__}: "
                                f"{str(out.exc)[:160]}]")
            self._path_refute(o)
            raise StopPath()
        self.c.oblige(name + " [no exception]", True)
        return out.val

    def _path_refute(self, o):
        """reaching this point at all violates the contract (if path feasible)"""
        self.c.oblige(o.name, False, assume_after=False)
        ob = self.c.obls[-1]
        s = z3.Solver()
        s.set("timeout", self.c.timeout)
        from .prover import lemmas_for, asms_of, definite

        base = asms_of(self.c)
        s.add(*(base + lemmas_for(self.c, base)))
        r = s.check()
        if r == z3.unsat:
            ob.status, ob.backend = "proved", "z3"
        elif r == z3.sat:
            ob.status, ob.model = "refuted", s.model()
            ob.definite = definite(self.c, True)
            ob.asrt = list(s.assertions())
        else:
            ob.status = "unknown"

    def eq(self, name, a, b, tol=None):
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            if not isinstance(a, (tuple, list)) or not isinstance(b, (tuple, list)):
                return self._fail(name + " (sequence expected)")
            if len(a) != len(b):
                return self._fail(name + " (length)")
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq(f"{name}[{i}]", x, y, tol)
            return
        if is_tensor(a) or is_tensor(b):
            return self.teq(name, a, b, tol)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return self.ok(name, a is b or a == b)
        return self.c.oblige(name, vcmp("==", raw(a), raw(b)))

    close = eq

    def _fail(self, name):
        o = core.Obligation(name)
        self._path_refute(o)

    def shape_eq(self, name, t, shape):
        if not is_tensor(t):
            self._fail(name + ": not a tensor")
            raise StopPath()
        if t.ndim != len(shape):
            self._fail(name + f": has {t.ndim} axes, expected {len(shape)}")
            raise StopPath()
        self.c.oblige(name + ": shape", vand(*[vcmp("==", rd(a), raw(b))
                                               for a, b in zip(t.shape, shape)]))

    def teq(self, name, a, b, tol=None):
        from .shim import lift

        if not is_tensor(a):
            a = lift(a)
        if not is_tensor(b):
            b = lift(b)
        self.shape_eq(name, a, b.shape)
        fa, fb = a.snap(), b.snap()
        return self._each(name, b.shape, lambda *i: vcmp("==", fa(*i), fb(*i)))

    def each(self, name, shape, fn, limit=None):
        """forall index: fn(*idx) (fn gets python-level indices)"""
        return self._each(name, shape, lambda *i: self._rb(fn(*[wrap(x) for x in i])))

    def _rb(self, v):
        if is_tensor(v):
            v = v._dv_scalar()
        return vbool(raw(v) if isinstance(v, Sym) else v)

    def _each(self, name, shape, f):
        ks, rng = [], []
        for d in shape:
            d = rd(d)
            if isinstance(d, int) and d == 1:
                ks.append(0)
                continue
            k = self.c.fresh("ix", I)
            ks.append(k)
            rng += [k >= 0, k < tz(d)]
        n = len(self.c.pc)
        self.c.solver.push()
        self.c._dec_cache.clear()
        n_ax = len(self.c.axioms)
        for r in rng:
            self.c.pc.append(r)
            self.c.solver.add(r)
        try:
            if any(isinstance(rd(d), int) and rd(d) == 0 for d in shape):
                return self.c.oblige(name, True, assume_after=False)
            # small concrete axes: enumerate (better terms)
            conc = [i for i, d in enumerate(shape) if isinstance(rd(d), int) and 1 < rd(d) <= 6]
            combos = list(itertools.product(*[range(rd(shape[i])) for i in conc]))
            if conc and len(combos) <= 36:
                res = True
                for cb in combos:
                    kk = list(ks)
                    for i, v in zip(conc, cb):
                        kk[i] = v
                    g = self.c.scoped([], lambda: f(*kk))
                    res = self.c.oblige(f"{name} @{list(cb)}", g, assume_after=False) and res
                return res
            g = self.c.scoped([], lambda: f(*ks))
            return self.c.oblige(name, g, assume_after=False)
        finally:
            del self.c.pc[n:]
            self.c.solver.pop()
            for ax in self.c.axioms[n_ax:]:
                self.c.solver.add(ax)
            self.c._dec_cache.clear()

    def at(self, t, *idx):
        return wrap(t.snap()(*[raw(i) for i in idx]))

    def tab(self, shape, fn, dtype=None):
        from .shim import conv

        dt = dtype or _t.float64
        return SymTensor.make(shape, lambda *i: conv(raw(fn(*[wrap(x) for x in i])), dt), dt)

    def sum(self, n, fn):
        from .funcs import vsum

        return wrap(vsum(raw(n), lambda k: raw(fn(wrap(k)))))

    def ite(self, c, a, b):
        a, b = (a() if callable(a) else a), (b() if callable(b) else b)
        return wrap(vite(vbool(raw(c)), raw(a), raw(b)))

    def div(self, a, b):
        return wrap(core.vdiv(raw(a), raw(b)))

    def implies(self, a, b):
        return wrap(vimplies(vbool(raw(a)), vbool(raw(b))))

    def and_(self, *xs):
        return wrap(vand(*[raw(x) for x in xs]))

    def or_(self, *xs):
        return wrap(vor(*[raw(x) for x in xs]))

    def not_(self, x):
        return wrap(vnot(raw(x)))

    def le(self, a, b, tol=0):
        return wrap(vcmp("<=", raw(a), raw(b)))

    def ge(self, a, b, tol=0):
        return wrap(vcmp(">=", raw(a), raw(b)))

    def same(self, a, b, tol=None):
        return wrap(vcmp("==", raw(a), raw(b)))

    def support(self, name, t, lo, hi):
        """every element of t is a free draw from exactly {lo, .., hi-1}: distinct
        elements are distinct draws of a generator call with that range"""
        ks, rng = [], []
        for d in t.shape:
            k = self.c.fresh("ix", I)
            ks.append(k)
        e = t.snap()(*ks)
        if not (z3.is_expr(e) and z3.is_app(e) and e.decl().name() in self.c.ranges):
            raise Unsupported(f"{name}: not a direct random draw: {e}")
        kind, l, h, strict, *_ = self.c.ranges[e.decl().name()]
        if l is None:
            raise Unsupported(f"{name}: not a uniform draw")
        args = [a.get_id() for a in e.children()]
        self.ok(name + ": each element its own draw",
                all(k.get_id() in args or wrap(vcmp("==", rd(d), 1)) is True
                    for k, d in zip(ks, t.shape)))
        self.ok(name + ": lower end of the range", vcmp("==", raw(l), raw(lo)))
        self.ok(name + ": upper end of the range", vcmp("==", raw(h), raw(hi)))

    def draw_funs(self, want, *idx):
        """the last `want` random arrays drawn, read at idx (trailing indices dropped when
        the draw has fewer axes)"""
        out = []
        for nm, info in list(self.c.ranges.items())[-want:]:
            out.append(wrap(info[4](*[raw(i) for i in idx[:info[5]]])))
        if len(out) < want:
            raise Unsupported("fewer random draws than the contract expects")
        return out

    def draws(self, v):
        """the random draws (generator outputs) a value depends on"""
        from .prover import collect

        return [wrap(x) for x in collect(self.c, [tz(raw(v))])
                if z3.is_app(x) and x.decl().name() in self.c.ranges]

    def drive(self, name, gen, n, fn):
        """the iterator yields exactly n items; fn(i, item) for each"""
        import itertools as it

        mark = len(self.c.__dict__.get("iters", []))
        for i in it.count():
            out = self.call(next, gen)
            if out.raised(StopIteration):
                if len(self.c.__dict__.get("iters", [])) == mark:
                    if i == 0 and self.c.loops_done:
                        return  # symbolic loop: the exit path, nothing further is yielded
                    self.ok(name + ": number of items", vcmp("==", i, raw(n)))
                return
            item = self.must(name + ": next item", out)
            its = self.c.__dict__.get("iters", [])
            if len(its) > mark:
                if len(its) > mark + 1:
                    raise Unsupported("nested symbolic iteration")
                k, m = its[-1]
                self.ok(name + ": number of items", vcmp("==", m, raw(n)))
                fn(wrap(k), item)
                return
            fn(i, item)
            if i > 64:
                raise Unsupported("iterator does not end")

    def perm(self, name, n):
        """the single random permutation drawn so far, of {0..n-1}"""
        ps = [e for e in self.c.effects if e[0] == "perm"]
        if len(ps) != 1:
            raise Unsupported(f"{name}: {len(ps)} random permutations drawn")
        self.ok(name + ": permutes all of them", vcmp("==", ps[0][2], raw(n)))
        return ps[0][1]

    def shapeof(self, t):
        return t.shape

    def freeze(self, t):
        return (t, t.storage.writes, t.snap(), tuple(t.shape))

    def frame(self, name, fr):
        t, w, f, sh = fr
        if t.storage.writes == w:
            self.c.oblige(name + " [frame: not written]", True)
            return
        g = t.snap()
        self._each(name + " [frame]", sh, lambda *i: vcmp("==", g(*i), f(*i)))

    def require_def(self, cond):
        self.assume(cond)

    def num(self, x):
        return x

    def sqrt(self, x):
        return self.world.shims["math"].sqrt(x)

    def exp(self, x):
        return self.world.shims["math"].exp(x)

    def log(self, x):
        return self.world.shims["math"].log(x)

    def sin(self, x):
        return self.world.shims["math"].sin(x)

    def cos(self, x):
        return self.world.shims["math"].cos(x)

    def floor(self, x):
        return wrap(core.vfloor(raw(x)))

    def trunc(self, x):
        return wrap(core.vtrunc(raw(x)))

    def const(self, s):
        return SymReal(Fraction(s))


# ====================================================================== concrete
class Failure:
    def __init__(self, name, detail):
        self.name, self.detail = name, detail


class StopConc(Exception):
    pass


class ConcH:
    sym = False
    torch = _t
    math = math
    pi = math.pi

    def __init__(self, seed, preset=None, rtol=1e-4, atol=1e-6, tpreset=None):
        self.rng = random.Random(seed)
        self.seed = seed
        self.preset = preset or {}
        self.tpreset = tpreset or {}
        self.values = {}
        self.fails = []
        self.count = 0
        self.rtol, self.atol = rtol, atol
        self.inputs = {}
        self.mode = self.rng.choice(["real", "real", "lo", "hi", "mix"])
        self.tseed = self.rng.getrandbits(31)

    def stub(self, ref, spec):
        return []

    def used(self):
        pass

    def native(self, ref):
        return self.fn(ref)

    def graft(self, obj):
        return obj

    def fn(self, ref):
        mod, _, attr = ref.partition(":")
        m = importlib.import_module(mod)
        o = m
        if attr:
            for a in attr.split("."):
                o = getattr(o, a)
        return o

    def int(self, name, lo=None, hi=None, draw=None, span=12, **k):
        if name in self.preset:
            v = int(self.preset[name])
        elif draw is not None:
            v = draw(self.rng)
        else:
            l = 0 if lo is None else int(lo)
            if lo is None and hi is not None:
                l = int(hi) - span
            h = int(hi) if hi is not None else l + span
            if h < l:
                raise Reject()
            u = self.rng.random()
            if u < 0.15:
                v = l
            elif u < 0.25 and hi is not None:
                v = h
            else:
                v = self.rng.randint(l, min(h, l + span) if self.rng.random() < 0.8 else h)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject()
        self.values[name] = v
        return v

    def real(self, name, lo=None, hi=None, open=False, draw=None, grid=None, pos=None, any=None,
             **k):
        lo, hi = pos or any or (lo, hi)
        if name in self.preset:
            v = float(self.preset[name])
        elif draw is not None:
            v = draw(self.rng)
        else:
            l = -3.0 if lo is None else float(lo)
            h = l + 6.0 if hi is None else float(hi)
            v = self.rng.uniform(l, h)
            if not open and self.rng.random() < 0.08:
                v = l if lo is not None else v
            if grid and self.tseed % 2:
                # ties with other values on the same grid
                v = round(v / grid) * grid
        if lo is not None and (v < lo or open and v <= lo):
            raise Reject()
        if hi is not None and (v > hi or open and v >= hi):
            raise Reject()
        self.values[name] = v
        return v

    def bool(self, name):
        return self.choice(name, [True, False])

    def choice(self, name, options):
        i = self.preset.get(name)
        i = self.rng.randrange(len(options)) if i is None else int(i)
        self.values[name] = i
        return options[i]

    def tensor(self, name, shape, dtype=None, lo=None, hi=None, distinct=False, scale=1.0,
               grid=None, pos=None, any=None, **k):
        lo, hi = pos or any or (lo, hi)
        dtype = dtype or _t.float64
        shape = tuple(int(s) for s in shape)
        if math.prod(shape) > 3_000_000:
            raise Reject()
        g = _t.Generator().manual_seed(self.tseed + hash_name(name))
        if name in self.tpreset:
            try:
                v = _t.tensor(self.tpreset[name], dtype=dtype).reshape(shape)
                return v
            except Exception:
                pass
        if dtype == _t.bool:
            v = _t.rand(shape, generator=g) < 0.5
        elif cat_of(dtype) == 1:
            l = -5 if lo is None else int(lo)
            h = l + 10 if hi is None else int(hi)
            if h < l:
                if math.prod(shape) == 0:
                    return _t.zeros(shape, dtype=dtype)
                raise Reject()
            v = _t.randint(l, h + 1, shape, generator=g).to(dtype)
        elif cat_of(dtype) == 3:
            v = _t.randn(shape, generator=g, dtype=_t.float64) + 1j * _t.randn(
                shape, generator=g, dtype=_t.float64)
            v = v.to(dtype)
        elif lo is not None or hi is not None:
            l = float(lo) if lo is not None else float(hi) - 6
            h = float(hi) if hi is not None else l + 6
            v = (l + (h - l) * _t.rand(shape, generator=g, dtype=_t.float64)).to(dtype)
        else:
            v = (scale * _t.randn(shape, generator=g, dtype=_t.float64)).to(dtype)
        if grid and self.tseed % 2:
            v = (v / grid).round() * grid
        return v

    def assume(self, cond):
        if not bool(cond):
            raise Reject()

    def assume_all(self, shape, fn):
        for ix in itertools.product(*[range(int(d)) for d in shape]):
            if not bool(fn(*ix)):
                raise Reject()

    def call(self, f, *a, **k):
        _t.manual_seed(self.tseed)
        import numpy as np

        np.random.seed(self.tseed % (2 ** 31))
        random.seed(self.tseed)
        with DemonicRNG(self.mode, self.tseed):
            try:
                r = f(*a, **k)
                if hasattr(r, "__next__"):
                    pass
                return Outcome(r)
            except Reject:
                raise
            except Exception as e:
                return Outcome(None, e, traceback.format_exc())

    def _fail(self, name, detail=""):
        self.fails.append(Failure(name, str(detail)[:1500]))

    def ok(self, name, cond, note=""):
        self.count += 1
        if not bool(cond):
            self._fail(name, note)
        return bool(cond)

    def must(self, name, out):
        self.count += 1
        if not out.ok:
            self._fail(name + " [no exception]", f"raised {type(out.exc).__name__}: {out.exc}\n"
                       + out.tb[-1200:])
            raise StopConc()
        return out.val

    def same(self, a, b, tol=None):
        if isinstance(a, _t.Tensor):
            a = a.item()
        if isinstance(b, _t.Tensor):
            b = b.item()
        if isinstance(a, bool) or isinstance(b, bool):
            return bool(a) == bool(b)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if a == b:
            return True
        tol = self.rtol if tol is None else tol
        d = abs(a - b)
        return d <= self.atol + tol * max(abs(a), abs(b))

    def eq(self, name, a, b, tol=None):
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            if not isinstance(a, (tuple, list)) or not isinstance(b, (tuple, list)) \
                    or len(a) != len(b):
                self.count += 1
                return self._fail(name, f"sequence mismatch: {type(a)} {type(b)}")
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq(f"{name}[{i}]", x, y, tol)
            return
        if isinstance(a, _t.Tensor) and a.ndim or isinstance(b, _t.Tensor) and b.ndim:
            return self.teq(name, a, b, tol)
        self.count += 1
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if not (a is b or a == b):
                self._fail(name, f"{a!r} != {b!r}")
            return
        if not self.same(a, b, tol):
            self._fail(name, f"got {a!r}, contract says {b!r}")

    close = eq

    def shape_eq(self, name, t, shape):
        self.count += 1
        if not isinstance(t, _t.Tensor):
            self._fail(name + ": not a tensor", repr(t)[:300])
            raise StopConc()
        if tuple(t.shape) != tuple(int(s) for s in shape):
            self._fail(name + ": shape", f"got {tuple(t.shape)}, contract says {tuple(shape)}")
            raise StopConc()

    def teq(self, name, a, b, tol=None):
        a = a if isinstance(a, _t.Tensor) else _t.as_tensor(a)
        b = b if isinstance(b, _t.Tensor) else _t.as_tensor(b)
        self.shape_eq(name, a, b.shape)
        if a.numel() == 0:
            return
        a, b = a.detach(), b.detach()
        if a.dtype == _t.bool or not (a.is_floating_point() or a.is_complex()
                                      or b.is_floating_point() or b.is_complex()):
            bad = a.to(_t.int64) != b.to(_t.int64)
        else:
            ct = _t.complex128 if a.is_complex() or b.is_complex() else _t.float64
            x, y = a.to(ct), b.to(ct)
            scale = max(float(y.abs().max()) if _t.isfinite(y.abs()).all() else 0.0, 0.0)
            tol = self.rtol if tol is None else tol
            lim = self.atol * min(1.0, max(scale, 1e-300)) + tol * _t.maximum(
                y.abs(), _t.full_like(y.abs(), 0.01 * scale))
            bad = ~((x - y).abs() <= lim)
            bad &= ~((x == y) | (_t.isnan(x.real) & _t.isnan(y.real)))
        if bad.any():
            ix = tuple(int(v) for v in _t.nonzero(bad)[0])
            self._fail(name, f"{int(bad.sum())} of {bad.numel()} elements differ, first at {ix}: "
                       f"got {a[ix].item()}, contract says {b[ix].item()}")

    def each(self, name, shape, fn, limit=400):
        self.count += 1
        shape = [int(s) for s in shape]
        n = math.prod(shape)
        limit = limit or 400
        if n <= limit:
            it = itertools.product(*[range(s) for s in shape])
        else:
            it = (tuple(self.rng.randrange(s) for s in shape) for _ in range(limit))
        for ix in it:
            if not bool(fn(*ix)):
                self._fail(name, f"fails at index {ix}")
                return

    def at(self, t, *idx):
        return t[tuple(int(i) for i in idx)].item()

    def tab(self, shape, fn, dtype=None):
        dt = dtype or _t.float64
        shape = tuple(int(s) for s in shape)
        if math.prod(shape) > 60000:
            raise Reject()
        vals = [fn(*ix) for ix in itertools.product(*[range(s) for s in shape])]
        return _t.tensor(vals, dtype=dt).reshape(shape)

    def sum(self, n, fn):
        return sum(fn(k) for k in range(int(n)))

    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def div(self, a, b):
        return a / b

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def le(self, a, b, tol=1e-6):
        return a <= b + tol * max(1.0, abs(a), abs(b))

    def ge(self, a, b, tol=1e-6):
        return a >= b - tol * max(1.0, abs(a), abs(b))

    def support(self, name, t, lo, hi):
        self.ok(name + ": in range", bool(((t >= lo) & (t < hi)).all()),
                f"draws in [{t.min()}, {t.max()}], contract says [{lo}, {hi})")

    def drive(self, name, gen, n, fn):
        i = 0
        it = self.must(name + ": iterate", self.call(lambda: list(itertools.islice(gen, 5000))))
        for i, item in enumerate(it):
            fn(i, item)
        self.ok(name + ": number of items", len(it) == n, f"{len(it)} items, contract says {n}")

    def shapeof(self, t):
        return tuple(t.shape)

    def freeze(self, t):
        return (t, t.clone())

    def frame(self, name, fr):
        t, old = fr
        self.count += 1
        if t.shape != old.shape or not bool(((t == old) | ((t != t) & (old != old))).all()):
            self._fail(name + " [frame]", "input tensor was modified")

    def require_def(self, cond):
        self.assume(cond)

    def num(self, x):
        return float(x)

    sqrt = staticmethod(math.sqrt)
    exp = staticmethod(math.exp)
    log = staticmethod(math.log)
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    floor = staticmethod(math.floor)
    trunc = staticmethod(math.trunc)

    def const(self, s):
        return float(Fraction(s))


def hash_name(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


class DemonicRNG:
    """concrete runs also exercise extreme draws of torch's generators (all draws
    stay inside the ranges the real generators guarantee)"""

    def __init__(self, mode, seed):
        self.mode, self.seed = mode, seed

    def __enter__(self):
        self.saved = None
        if self.mode in ("real",):
            return self
        real_randint = _t.randint
        rng = random.Random(self.seed)
        mode = self.mode

        def randint(*a, **k):
            out = real_randint(*a, **k)
            lo = k.get("low")
            hi = k.get("high")
            pos = [x for x in a if isinstance(x, int) and not isinstance(x, bool)]
            if hi is None:
                if len(pos) == 1:
                    hi = pos[0]
                elif len(pos) >= 2:
                    lo, hi = pos[0], pos[1]
            if lo is None:
                lo = 0
            if hi is None:
                return out
            m = mode if mode != "mix" else rng.choice(["lo", "hi", "real"])
            if m == "lo":
                return _t.full_like(out, lo)
            if m == "hi":
                return _t.full_like(out, hi - 1)
            return out

        self.saved = real_randint
        _t.randint = randint
        return self

    def __exit__(self, *a):
        if self.saved is not None:
            _t.randint = self.saved
        return False
