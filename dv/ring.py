"""Exact identities of rational functions over atoms.

A z3 real term is normalised to num / prod(den_i^e_i) where num is a Laurent
polynomial over atoms with Fraction coefficients.  Atoms: constants,
uninterpreted applications (arguments compared after recursive normalisation),
ITEs, ToReal terms.  sin^2 -> 1 - cos^2, sqrt(x)^2 -> x (assuming x >= 0, the
domain precondition), fractional powers split over factors known to be
nonnegative (|x| for even powers of the others).
Sound for points where the denominators do not vanish.
"""
import time
from fractions import Fraction

import z3

from .core import Cx, tz


class TooBig(Exception):
    pass


LIMIT = 60000


class Poly(dict):
    """dict: monomial (tuple of (atom, Fraction exp) sorted) -> Fraction"""


def padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT * 20:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        if len(b) > 50 and time.time() > CLOCK[0]:
            raise TooBig()
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


def const(q):
    q = Fraction(q)
    return {(): q} if q else {}


def _vec(ms):
    """monomials as exponent vectors in a common lexicographic order"""
    atoms = sorted(set(a for m in ms for a, _ in m))
    return {m: tuple(dict(m).get(a, Fraction(0)) for a in atoms) for m in ms}


def pquot(n, q, steps=400):
    """n / q if it is a polynomial, else None"""
    if len(q) < 2 or len(n) < len(q):
        return None
    atoms = sorted(set(a for p in (n, q) for m in p for a, _ in m))

    def v(m):
        d = dict(m)
        return tuple(d.get(a, Fraction(0)) for a in atoms)

    lq, tq = max(q, key=v), min(q, key=v)
    low = tuple(x - y for x, y in zip(v(min(n, key=v)), v(tq)))
    inv = tuple((a, -e) for a, e in lq)
    out, r = {}, dict(n)
    while r:
        steps -= 1
        if steps < 0:
            return None
        m = max(r, key=v)
        w = mmul(m, inv)
        if v(w) < low:
            return None
        cf = r[m] / q[lq]
        out[w] = cf
        for b, c in q.items():
            k = mmul(b, w)
            x = r.get(k, 0) - c * cf
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return out


def psqrt(q, steps=30):
    """r with r * r == q, else None"""
    if len(q) < 3 or len(q) > 60:
        return None
    from .funcs import isq

    atoms = sorted(set(a for m in q for a, _ in m))

    def v(m):
        d = dict(m)
        return tuple(d.get(a, Fraction(0)) for a in atoms)

    m = max(q, key=v)
    c0 = isq(q[m])
    if c0 is None or any(e.denominator != 1 or e % 2 for _, e in m):
        return None
    lead = tuple((a, e / 2) for a, e in m)
    inv = tuple((a, -e) for a, e in lead)
    low = tuple(e / 2 for e in v(min(q, key=v)))
    r = {lead: c0}
    rest = padd(q, pmul(r, r), -1)
    while rest:
        steps -= 1
        if steps < 0:
            return None
        m = max(rest, key=v)
        w = mmul(m, inv)
        if v(w) < low or w in r or any(e.denominator != 1 for _, e in w):
            return None
        t = {w: rest[m] / (2 * c0)}
        rest = padd(rest, padd(pmul({k: 2 * x for k, x in r.items()}, t), pmul(t, t)), -1)
        r = padd(r, t)
    return r


def key(p):
    return tuple(sorted(p.items()))


LINEAR = {"sum", "rfft_re", "rfft_im", "fft_re", "fft_im", "irfft"}
BUDGET = 12.0


CLOCK = [0.0]  # when the current normalisation is to be given up


class Norm:
    """trig: expand sin/cos of sums; deep: indicator form of ITEs, functionals normalised
    through their rows (linear ones distributed over the terms of the row)"""

    def __init__(self, c=None, trig=False, deep=False, asms=(), hide=0):
        self.c, self.trig, self.deep = c, trig, deep
        self.asms = list(asms)
        self.atoms = {}  # key -> atom id
        self.info = []
        self.terms = []  # atom id -> z3 term or None
        self.adeps = []  # atom id -> bound variables it depends on
        self.sign = {}
        self.cache = {}
        self.dens = {}  # key -> poly
        self.ranges = []
        self.fdepth = 0
        self.t0 = time.time()
        CLOCK[0] = self.t0 + BUDGET * (3 if hide else 1)
        self.hide = hide
        self.flat = {}

    def plain(self, e):
        """free of circular functions and their inverses"""
        k = e.get_id()
        if k not in self.flat:
            self.flat[k] = (e.decl().name() not in ("sin", "cos", "acos", "atan2") and
                            all(self.plain(x) for x in e.children()), e)
        return self.flat[k][0]

    def cancel(self, x):
        """without the denominators that divide the numerator"""
        n, d = x[0], dict(x[1])
        for k in list(d):
            while d.get(k, 0) > 0:
                w = pquot(n, self.dens[k])
                if w is None:
                    break
                n = w
                d[k] -= 1
            if not d[k]:
                del d[k]
        return n, d

    def hidden(self, x):
        """a sum without circular functions as one atom (identified by its normal form)"""
        x = self.cancel(self.canon(x))
        if len(x[0]) < 2 and not x[1]:
            return x
        if not x[0]:
            return x
        lc = x[0][min(x[0])]
        y = ({m: v / lc for m, v in x[0].items()}, x[1])
        k = ("hid", self.poly_key(y))
        return ({((self.atom(k, k, None, self.rdeps(y)), Fraction(1)),): lc}, {})

    def split(self, e, ch):
        """(children without circular functions, others) of a node that has both"""
        if not self.hide or self.plain(e):
            return [], ch
        return [x for x in ch if self.plain(x)], [x for x in ch if not self.plain(x)]

    def atom(self, k, info, term=None, deps=None):
        if k not in self.atoms:
            self.atoms[k] = len(self.info)
            self.info.append(info)
            self.terms.append(term)
            if deps is None:
                deps = self.c.free_bvs(term) if self.c is not None and term is not None \
                    else frozenset()
            self.adeps.append(deps)
            if time.time() - self.t0 > BUDGET:
                raise TooBig()
        return self.atoms[k]

    def pdeps(self, p):
        r = frozenset()
        for m in p:
            for a, _ in m:
                r = r | self.adeps[a]
        return r

    def rdeps(self, x):
        r = self.pdeps(x[0])
        for k in x[1]:
            r = r | self.pdeps(self.dens[k])
        return r

    def nonneg(self, a):
        """is atom a known to be >= 0 under the path condition"""
        inf = self.info[a]
        if inf[0] in ("prime", "abs", "base", "ind", "exp"):
            return True
        if inf[0] == "lin":
            return inf[1] == "sum" and all(
                c >= 0 and all(e % 2 == 0 or self.nonneg(b) for b, e in m)
                for m, c in inf[2][0].items()) and not inf[2][1]
        if a not in self.sign:
            self.sign[a] = False
            t = self.terms[a]
            if t is not None and self.c is not None:
                from .prover import _check

                if t.sort() == z3.IntSort() or t.sort() == z3.RealSort():
                    r, _, _ = _check(self.c, self.asms + self.ranges, t >= 0, 400)
                    self.sign[a] = r == z3.unsat
        return self.sign[a]

    def reduce(self, p):
        """sin^2 -> 1-cos^2, ind^2 -> ind"""
        hit = False
        for m in p:
            for a, e in m:
                k = self.info[a][0]
                if (k == "sin" and e >= 2) or (k == "ind" and e != 1):
                    hit = True
        if not hit:
            return p
        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            if rounds > 60:
                raise TooBig()
            r = {}
            for m, cf in p.items():
                done = False
                for i, (a, e) in enumerate(m):
                    inf = self.info[a]
                    if inf[0] == "sin" and e >= 2 and e.denominator == 1:
                        rest = mmul(m[:i] + m[i + 1:], ((a, e - 2),) if e > 2 else ())
                        rest = tuple(sorted(rest))
                        co = self.atom(("cos", inf[1]), ("cos", inf[1]), None, self.adeps[a])
                        t = padd(const(1), {((co, Fraction(2)),): Fraction(-1)})
                        r = padd(r, pmul({rest: cf}, t))
                        changed = done = True
                        break
                    if inf[0] == "ind" and e > 0 and e != 1:
                        rest = tuple(sorted(m[:i] + ((a, Fraction(1)),) + m[i + 1:]))
                        r = padd(r, {rest: cf})
                        changed = done = True
                        break
                if not done:
                    v = r.get(m, 0) + cf
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
            p = r
        return p

    def fix(self, x):
        """fold integer powers of primes, bases and moduli"""
        n, d = x
        todo = False
        for m in n:
            for a, e in m:
                k = self.info[a][0]
                if (k in ("prime", "base") and abs(e) >= 1) or (k == "abs" and abs(e) >= 2):
                    todo = True
        if not todo:
            return x
        r = ({}, {})
        for m, cf in n.items():
            mm, extra = [], []
            for a, e in m:
                inf = self.info[a]
                w = int(e)  # toward zero
                if inf[0] == "prime" and w:
                    cf = cf * Fraction(inf[1]) ** w
                    e = e - w
                elif inf[0] == "base" and w:
                    b = inf[1]
                    if w < 0:
                        b = self.rf_inv(b)
                    extra += [b] * abs(w)
                    e = e - w
                elif inf[0] == "abs" and abs(w) >= 2:
                    w = w - w % 2 if w > 0 else -((-w) - (-w) % 2)
                    extra.append(({((inf[1], Fraction(w)),): Fraction(1)}, {}))
                    e = e - w
                if e:
                    mm.append((a, e))
            t = ({tuple(sorted(mm)): cf}, {})
            for b in extra:
                t = self.rf_mul(t, b)
            r = self.rf_add(r, t)
        for k, e in d.items():
            r = self.rf_mul(r, (ONE, {k: e}))
        return self.fix((self.reduce(r[0]), r[1]))

    def canon(self, x):
        x = self.fix((self.reduce(x[0]), x[1]))
        # n / p with n == c * p
        n, d = x
        for k in list(d):
            q = self.dens[k]
            if len(q) == len(n):
                m0 = next(iter(q))
                for m1 in n:
                    sh = mmul(m1, tuple((a, -e) for a, e in m0))
                    cf = n[m1] / q[m0]
                    if {mmul(m, sh): v * cf for m, v in q.items()} == n:
                        d2 = dict(d)
                        d2[k] -= 1
                        if not d2[k]:
                            del d2[k]
                        return self.canon(({sh: cf}, d2))
        return x

    # rational function: (num poly, {denkey: exp})
    def rf_mul(self, x, y):
        d = dict(x[1])
        for k, e in y[1].items():
            d[k] = d.get(k, 0) + e
            if d[k] == 0:
                del d[k]
        return (self.reduce(pmul(x[0], y[0])), d)

    def rf_add(self, x, y, s=1):
        ks = set(x[1]) | set(y[1])
        nx, ny, d = x[0], y[0], {}
        for k in ks:
            ex, ey = x[1].get(k, 0), y[1].get(k, 0)
            e = max(ex, ey)
            if e:
                d[k] = e
            for _ in range(int(e - ex)):
                nx = self.reduce(pmul(nx, self.dens[k]))
            for _ in range(int(e - ey)):
                ny = self.reduce(pmul(ny, self.dens[k]))
        return (padd(nx, ny, s), d)

    def rf_inv(self, x):
        n, d = x
        if not n:
            raise ZeroDivisionError
        # denominators of x go to the numerator
        num = ONE
        for k, e in d.items():
            for _ in range(int(e)):
                num = self.reduce(pmul(num, self.dens[k]))
        if len(n) == 1:
            (m, cf), = n.items()
            inv = {tuple((a, -e) for a, e in m): 1 / cf}
            return (pmul(num, inv), {})
        # make monic & strip monomial content
        ms = list(n)
        atoms = set(a for m in ms for a, _ in m)
        content = {}
        for a in atoms:
            es = [dict(m).get(a, Fraction(0)) for m in ms]
            e = min(es)
            if e:
                content[a] = e
        cm = tuple(sorted(content.items()))
        icm = tuple((a, -e) for a, e in cm)
        q = {mmul(m, icm): cf for m, cf in n.items()}
        lead = min(q, key=lambda m: m)
        lc = q[lead]
        q = {m: cf / lc for m, cf in q.items()}
        mult = 1
        if self.hide:
            r = psqrt(q)
            while r is not None:
                q, mult = r, 2 * mult
                r = psqrt(q)
            l2 = q[min(q, key=lambda m: m)]
            if l2 < 0:
                q = {m: -v for m, v in q.items()}
        k = key(q)
        self.dens[k] = q
        num = pmul(num, {icm: 1 / lc})
        return (num, {k: mult})

    def vanishes(self, p):
        """is the polynomial zero: integer powers of roots are replaced by what they are roots
        of, the latest root first (nonzero common factors are multiplied away)"""
        p = self.reduce(p)
        done = set()
        while p:
            todo = [a for m in p for a, e in m
                    if self.info[a][0] in ("base", "prime", "abs") and a not in done]
            if not todo:
                return not self.reduce(p)
            a = max(todo)
            done.add(a)
            lo = min(dict(m).get(a, Fraction(0)) for m in p)
            up = -(lo.numerator // lo.denominator) if lo < 0 else 0
            step = 2 if self.info[a][0] == "abs" else 1
            up += up % step
            groups = {}
            for m, cf in p.items():
                d = dict(m)
                e = d.pop(a, Fraction(0)) + up
                w = e.numerator // e.denominator
                w -= w % step
                if e - w:
                    d[a] = e - w
                g = groups.setdefault(w // step, {})
                k = tuple(sorted(d.items()))
                g[k] = g.get(k, 0) + cf
            inf = self.info[a]
            if inf[0] == "prime":
                n, den = const(inf[1]), ONE
            elif inf[0] == "abs":
                n, den = {((inf[1], Fraction(2)),): Fraction(1)}, ONE
            else:
                n, den = inf[1][0], ONE
                for k, e in inf[1][1].items():
                    for _ in range(abs(int(e))):
                        if e > 0:
                            den = pmul(den, self.dens[k])
                        else:
                            n = pmul(n, self.dens[k])
            p, dp = {}, ONE
            for w in range(max(groups), -1, -1):
                p = self.reduce(pmul(p, n)) if p else p
                g = {m: v for m, v in groups.get(w, {}).items() if v}
                if g:
                    p = padd(p, self.reduce(pmul(g, dp)))
                if w:
                    dp = self.reduce(pmul(dp, den))
        return True

    def poly_key(self, x):
        return (key(x[0]), tuple(sorted((k, e) for k, e in x[1].items())))

    def norm(self, e):
        """z3 real/int term -> rational function"""
        k = e.get_id()
        if k in self.cache:
            return self.cache[k][0]
        r = self._norm(e)
        self.cache[k] = (r, e)
        return r

    def mono(self, a, e=1):
        return ({((a, Fraction(e)),): Fraction(1)}, {})

    def _norm(self, e):
        if z3.is_int_value(e):
            return (const(e.as_long()), {})
        if z3.is_rational_value(e):
            return (const(Fraction(e.numerator_as_long(), e.denominator_as_long())), {})
        kd = e.decl().kind()
        ch = e.children()
        if kd == z3.Z3_OP_ADD:
            own, ch = self.split(e, ch)
            r = ({}, {})
            for x in own:
                r = self.rf_add(r, self.norm(x))
            r = self.hidden(r) if own else r
            for x in ch:
                r = self.rf_add(r, self.norm(x))
            return r
        if kd == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for x in ch[1:]:
                r = self.rf_add(r, self.norm(x), -1)
            return r
        if kd == z3.Z3_OP_UMINUS:
            return self.rf_mul((const(-1), {}), self.norm(ch[0]))
        if kd == z3.Z3_OP_MUL:
            own, ch = self.split(e, ch)
            r = (ONE, {})
            for x in own:
                r = self.rf_mul(r, self.norm(x))
            r = self.hidden(r) if own else r
            for x in ch:
                r = self.rf_mul(r, self.norm(x))
            return r
        if kd == z3.Z3_OP_DIV:
            return self.rf_mul(self.norm(ch[0]), self.rf_inv(self.norm(ch[1])))
        if kd == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
            n = ch[1].as_long()
            b = self.norm(ch[0])
            r = (ONE, {})
            for _ in range(abs(n)):
                r = self.rf_mul(r, b)
            return r if n >= 0 else self.rf_inv(r)
        if kd == z3.Z3_OP_TO_REAL:
            return self.norm(ch[0])
        if kd == z3.Z3_OP_UNINTERPRETED and ch:
            nm = e.decl().name()
            if nm == "sqrt":
                return self.power(self.norm(ch[0]), Fraction(1, 2))
            if nm == "pow" and z3.is_rational_value(ch[1]):
                q = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
                return self.power(self.norm(ch[0]), q)
            if nm in ("sin", "cos") and self.trig:
                n, d = self.norm(ch[0])
                sc = self.sincos([({m: v}, d) for m, v in sorted(n.items())])
                return sc[0 if nm == "sin" else 1]
            ks = tuple(self.poly_key(self.canon(self.norm(x))) if x.sort() != z3.BoolSort()
                       else ("b", x.get_id()) for x in ch)
            dep = frozenset() if self.c is None else self.c.free_bvs(e)
            if nm in ("sin", "cos"):
                # parity
                n, d = self.norm(ch[0])
                neg = False
                if n:
                    lead = min(n)
                    if n[lead] < 0:
                        neg = True
                        ks = (self.poly_key((padd({}, n, -1), d)),)
                a = self.atom((nm, ks), (nm, ks), None if neg else e, dep)
                r = self.mono(a)
                if neg and nm == "sin":
                    r = self.rf_mul((const(-1), {}), r)
                return r
            if nm in ("acos", "atan2") and self.trig:
                a = self.atom((nm, ks), (nm, [self.canon(self.norm(x)) for x in ch]), e, dep)
                return self.mono(a)
            a = self.atom((nm, ks), (nm, ks), e, dep)
            return self.mono(a)
        if kd == z3.Z3_OP_ITE and self.deep:
            g, neg = ch[0], False
            while z3.is_not(g):
                g, neg = g.arg(0), not neg
            i = self.mono(self.atom(("ind", g.get_id()), ("ind", g),
                                    z3.If(g, z3.RealVal(1), z3.RealVal(0))))
            p, q = self.norm(ch[2 if neg else 1]), self.norm(ch[1 if neg else 2])
            return self.rf_add(q, self.rf_mul(i, self.rf_add(p, q, -1)))
        if kd == z3.Z3_OP_ITE:
            ks = ("ite", ch[0].get_id(), self.poly_key(self.norm(ch[1])),
                  self.poly_key(self.norm(ch[2])))
            a = self.atom(ks, ("ite", e), e)
            return self.mono(a)
        if self.deep and not ch and e.get_id() in self.c.fapps and e.sort() == z3.RealSort():
            r = self.functional(e, self.c.fapps[e.get_id()])
            if r is not None:
                return r
        a = self.atom(("z", e.get_id()), ("z", e), e)
        return self.mono(a)

    def functional(self, e, f):
        c = self.c
        if self.fdepth >= 5:
            return None
        if not all(isinstance(p, (z3.ExprRef, int, str, bool, Fraction)) for p in f.params):
            return None
        pk = tuple(self.poly_key(self.canon(self.norm(p)))
                   if isinstance(p, z3.ExprRef) and p.sort() != z3.BoolSort()
                   else ("c", p.get_id() if isinstance(p, z3.ExprRef) else p) for p in f.params)
        rows = []
        # the depth of the bound variables depends only on what the functional mentions
        saved = c.bvdepth
        c.bvdepth = 1 + max([depth_of(c, i) for i in c.free_bvs(e)] + [0])
        self.fdepth += 1
        free = c.free_bvs(e)
        outer = self.ranges
        self.ranges = [r for r in outer if c.free_bvs(r) <= free]
        own = frozenset()
        try:
            for dims, fn in f.rows:
                vs = [z3.Const(f"bv!{c.bvdepth}!{i}", z3.IntSort()) for i in range(len(dims))]
                c.keep.append(vs)
                own = own | frozenset(v.get_id() for v in vs)
                rng = [z3.And(v >= 0, v < tz(d)) for v, d in zip(vs, dims)]
                self.ranges += rng
                body = c.scoped(list(self.ranges), lambda: fn(*vs))
                dk = tuple(self.poly_key(self.canon(self.norm(tz(d)))) for d in dims)
                parts = [body.re, body.im] if isinstance(body, Cx) else [body]
                ps = []
                for t in parts:
                    t = z3.simplify(tz(t))
                    if t.sort() == z3.BoolSort():
                        t = z3.If(t, z3.RealVal(1), z3.RealVal(0))
                    c.keep.append(t)
                    ps.append(self.canon(self.norm(t)))
                rows.append((dims, dk, ps))
        finally:
            c.bvdepth = saved
            self.fdepth -= 1
            self.ranges = outer
        if f.kind in LINEAR and len(rows) == 1:
            return self.linear(e, f, pk, rows[0], own)
        ks = ("fun", f.kind, pk, tuple((dk, tuple(self.poly_key(x) for x in ps))
                                       for _, dk, ps in rows))
        return self.mono(self.atom(ks, ("fun", e), e, c.free_bvs(e)))

    def linear(self, e, f, pk, row, own):
        dims, dk, ps = row
        pdep = frozenset()
        for p in list(f.params) + list(dims):
            pdep = pdep | self.c.free_bvs(p)
        total = ({}, {})
        for part, (n, d) in enumerate(ps):
            din = {k: v for k, v in d.items() if self.pdeps(self.dens[k]) & own}
            dout = {k: v for k, v in d.items() if k not in din}
            groups = {}
            for m, cf in n.items():
                ins = tuple((a, x) for a, x in m if self.adeps[a] & own)
                outs = tuple((a, x) for a, x in m if not (self.adeps[a] & own))
                g = groups.setdefault(outs, {})
                g[ins] = g.get(ins, 0) + cf
            for outs, g in groups.items():
                for ins, cf in g.items():
                    if not cf:
                        continue
                    if not ins and not din and f.kind == "sum":
                        t = self.norm(tz(dims[0]))
                        for x in dims[1:]:
                            t = self.rf_mul(t, self.norm(tz(x)))
                    else:
                        one = ({ins: Fraction(1)}, din)
                        ks = ("lin", f.kind, pk, dk, part, self.poly_key(one))
                        dep = (self.rdeps(one) - own) | pdep
                        t = self.mono(self.atom(ks, ("lin", f.kind, one), None, dep))
                    total = self.rf_add(total, self.rf_mul(({outs: cf}, dout), t))
        return total

    def sincos(self, parts):
        """(sin, cos) of a sum of monomials, by the addition theorems; multiples of pi/2 are
        evaluated, small integer multiples expanded"""
        if len(parts) > 8:
            raise TooBig()
        s, c = ({}, {}), (ONE, {})
        for (mono, d) in parts:
            (m, v), = mono.items()
            if len(m) == 1 and m[0][1] == 1 and not d and self.is_pi(m[0][0]) and (
                    2 * v).denominator == 1:
                k = int(2 * v) % 4
                s1, c1 = (const((0, 1, 0, -1)[k]), {}), (const((1, 0, -1, 0)[k]), {})
            elif len(m) == 1 and m[0][1] == 1 and not d and abs(v) == 1 and \
                    self.info[m[0][0]][0] in ("acos", "atan2"):
                s1, c1 = self.inverse_trig(self.info[m[0][0]])
                if v < 0:
                    s1 = self.rf_mul((const(-1), {}), s1)
            else:
                reps = abs(int(v)) if v.denominator == 1 and abs(v) <= 4 else 1
                unit = ({m: v / reps if v > 0 else -v / reps}, d)
                ks = (self.poly_key(unit),)
                s1 = self.mono(self.atom(("sin", ks), ("sin", ks)))
                c1 = self.mono(self.atom(("cos", ks), ("cos", ks)))
                s0, c0 = s1, c1
                for _ in range(reps - 1):
                    s1, c1 = self.addition(s1, c1, s0, c0)
                if v < 0:
                    s1 = self.rf_mul((const(-1), {}), s1)
            s, c = self.addition(s, c, s1, c1)
        return s, c

    def inverse_trig(self, info):
        """(sin, cos) of an arc cosine or of the angle of a nonzero vector"""
        if info[0] == "acos":
            x, = info[1]
            return self.power(self.rf_add((ONE, {}), self.rf_mul(x, x), -1), Fraction(1, 2)), x
        y, x = info[1]
        if self.hide > 1 and len(x[0]) + len(y[0]) > 6:
            ks = tuple(self.poly_key(v) for v in (y, x))
            dep = self.rdeps(x) | self.rdeps(y)
            return [self.mono(self.atom((f, ks), (f, ks), None, dep)) for f in ("sin", "cos")]
        r = self.power(self.rf_add(self.rf_mul(x, x), self.rf_mul(y, y)), Fraction(-1, 2))
        return self.rf_mul(y, r), self.rf_mul(x, r)

    def addition(self, s1, c1, s2, c2):
        return (self.rf_add(self.rf_mul(s1, c2), self.rf_mul(c1, s2)),
                self.rf_add(self.rf_mul(c1, c2), self.rf_mul(s1, s2), -1))

    def is_pi(self, a):
        i = self.info[a]
        return i[0] == "z" and i[1].num_args() == 0 and i[1].decl().name() == "pi!"

    def rooted(self, p):
        """a root of the polynomial p (up to a positive factor) is among the atoms"""
        if len(p) < 2 or set.intersection(*(set(dict(m)) for m in p)):
            return False
        lc = p[min(p)]
        return lc > 0 and ("base", self.poly_key(({m: c / lc for m, c in p.items()}, {}))) \
            in self.atoms

    def power(self, x, q):
        """x^q; a fractional power presumes x >= 0 (domain precondition)"""
        x = self.canon(x)
        n, d = x
        if not n:
            return ({}, {})
        if q.denominator == 1:
            b, r = (x if q >= 0 else self.rf_inv(x)), (ONE, {})
            for _ in range(abs(int(q))):
                r = self.rf_mul(r, b)
            return r
        if d and not self.trig:
            y = self.cancel(x)
            if not y[1]:
                n, d = x = y
        if d and all(e == 1 and self.rooted(self.dens[k]) for k, e in d.items()):
            # the roots of the denominators occur already: they are positive
            r = self.power((n, {}), q)
            for k in d:
                r = self.rf_mul(r, self.power((self.dens[k], {}), -q))
            return r
        # content: common factor of the numerator
        ms = list(n)
        content = {}
        for a in set(a for m in ms for a, _ in m):
            ex = min(dict(m).get(a, Fraction(0)) for m in ms)
            if ex:
                content[a] = ex
        single = len(n) == 1 and not d
        lc = n[min(ms)]
        out, keep = [], []
        for a, ex in content.items():
            if ex.denominator != 1 or self.nonneg(a):
                out.append((a, ex * q))
            elif ex % 2 == 0:
                y = ex * q
                if y % 2 == 0:
                    out.append((a, y))
                else:
                    b = self.atom(("abs", a), ("abs", a), None, self.adeps[a])
                    out.append((b, y))
            else:
                keep.append((a, ex))
        if single and len(keep) == 1 and lc > 0:
            a, ex = keep.pop()  # x >= 0 makes the only factor of unknown sign nonnegative
            out.append((a, ex * q))
        r = {tuple(sorted(out)): Fraction(1)}
        for pbase, ex in _factor(abs(lc)):
            a = self.atom(("prime", pbase), ("prime", pbase))
            t = ex * q
            w = int(t)
            r = pmul(r, const(Fraction(pbase) ** w))
            if t - w:
                r = pmul(r, {((a, t - w),): Fraction(1)})
        r = (r, {})
        icm = tuple(sorted((a, -ex) for a, ex in content.items()
                           if (a, ex) not in keep))
        rest = ({mmul(m, icm): cf / abs(lc) for m, cf in n.items()}, d)
        if single and not keep and lc > 0:
            return r
        a = self.atom(("base", self.poly_key(rest)), ("base", rest), None, self.rdeps(rest))
        w = int(q)
        r = self.rf_mul(r, self.mono(a, q - w))
        if w:
            r = self.rf_mul(r, self.power(rest, Fraction(w)))
        return r


def depth_of(c, bid):
    if not hasattr(c, "_bvdepths"):
        c._bvkeep = {(d, i): z3.Const(f"bv!{d}!{i}", z3.IntSort())
                     for d in range(24) for i in range(6)}
        c._bvdepths = {v.get_id(): d for (d, _), v in c._bvkeep.items()}
    return c._bvdepths.get(bid, 23)


def _factor(q):
    out = []
    for n, s in ((abs(q.numerator), 1), (q.denominator, -1)):
        d = 2
        while d * d <= n and d < 100000:
            e = 0
            while n % d == 0:
                n //= d
                e += 1
            if e:
                out.append((d, s * e))
            d += 1
        if n > 1:
            out.append((n, s))
    return out


def equal(c, a, b, asms=None):
    names, deep = set(), False
    st, seen = [a, b], set()
    while st:
        x = st.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            names.add(x.decl().name())
            if x.get_id() in c.fapps or z3.is_app_of(x, z3.Z3_OP_ITE):
                deep = True
            st.extend(x.children())
    trig = bool(names & {"sin", "cos"})
    inv = bool(names & {"acos", "atan2"})
    if inv and trig and (_equal(c, a, b, True, False, asms, 2) or
                         _equal(c, a, b, True, False, asms, 1)):
        return True
    if not (inv and trig) and _equal(c, a, b, False, False, asms):
        return True
    if trig and _equal(c, a, b, True, False, asms):
        return True
    if deep and _equal(c, a, b, False, True, asms):
        return True
    return deep and trig and _equal(c, a, b, True, True, asms)


def _equal(c, a, b, trig, deep, asms, hide=0):
    from .core import Unsupported

    try:
        nm = Norm(c, trig, deep, asms if asms is not None else list(c.pc) + list(c.axioms), hide)
        x = nm.norm(z3.simplify(a))
        y = nm.norm(z3.simplify(b))
        d = nm.rf_add(x, y, -1)
        # only the numerator matters
        return nm.vanishes(d[0])
    except (TooBig, ZeroDivisionError, RecursionError, Unsupported):
        return False


def show(nm, x, depth=0):
    """readable normal form, for debugging"""
    def at(a):
        i = nm.info[a]
        if i[0] in ("z", "fun", "ind", "ite"):
            return f"<{i[0]} {str(i[1])[:60]}>"
        if i[0] == "lin":
            return f"{i[1]}[{show(nm, i[2], depth + 1)}]"
        if i[0] == "base":
            return f"({show(nm, i[1], depth + 1)})"
        if i[0] == "abs":
            return f"|{at(i[1])}|"
        return str(nm.terms[a] if nm.terms[a] is not None else i[0])[:60]

    def poly(p):
        return " + ".join((f"{c} " if c != 1 or not m else "") + " ".join(
            at(a) + (f"^{e}" if e != 1 else "") for a, e in m) for m, c in p.items()) or "0"

    s = poly(x[0])
    if x[1]:
        s = f"({s}) / " + " ".join(f"({poly(nm.dens[k])})^{e}" for k, e in x[1].items())
    return s
