"""Discharge of proof obligations: z3, extensionality lemmas for functionals,
exact rational-function identities (ring), cvc5 as a second opinion."""
import time

import z3

from .core import Cx, I, tz, vcmp, vand, vbool, is_num


def apps(e, out, seen):
    st = [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        out.append(x)
        st.extend(x.children())
    return out


def collect(c, es):
    """all sub-applications of es"""
    seen, out = set(), []
    for e in es:
        apps(e, out, seen)
    return out


def lemmas_for(c, es):
    L = c.__dict__.get("lemmas", {})
    res, seen, todo = [], set(), list(es)
    done = set()
    while todo:
        out = []
        for e in todo:
            apps(e, out, seen)
        todo = []
        for a in out:
            k = a.get_id()
            if k in L and k not in done:
                done.add(k)
                for ax in L[k]:
                    res.append(ax)
                    todo.append(ax)
    return res


def _check(c, asms, goal, timeout, lem=True):
    s = z3.Solver()
    s.set("timeout", int(timeout))
    base = list(asms) + [z3.Not(goal)]
    if lem:
        base = base + lemmas_for(c, base)
    s.add(*base)
    t = time.time()
    r = s.check()
    c.t_solver += time.time() - t
    c.n_solver += 1
    return r, (s.model() if r == z3.sat else None), s


def monotone_hints(c, es, limit=260):
    """instances of: f >= 0, x <= y |- f*x <= f*y (and the integer strict form), for the
    products that occur in the obligation"""
    by, n = {}, 0
    out = []
    for e in collect(c, es):
        if not (z3.is_mul(e) and z3.is_arith(e)):
            continue
        a = [x for x in e.children() if not (z3.is_int_value(x) or z3.is_rational_value(x))]
        if len(a) < 2:
            continue
        for i, f in enumerate(a):
            rest = a[:i] + a[i + 1:]
            o = rest[0]
            for r in rest[1:]:
                o = o * r
            d = by.setdefault(f.get_id(), (f, {}))[1]
            d.setdefault(o.get_id(), (o, f * o))
    for f, d in by.values():
        xs = list(d.values())
        if f.is_int():
            xs.append((z3.IntVal(1), f))
            xs.append((z3.IntVal(0), z3.IntVal(0)))
        for i, (x, fx) in enumerate(xs):
            for y, fy in xs[i + 1:]:
                n += 1
                if n > limit:
                    return out
                out.append(z3.Implies(z3.And(f >= 0, x <= y), fx <= fy))
                out.append(z3.Implies(z3.And(f >= 0, y <= x), fy <= fx))
                if f.is_int() and x.is_int() and y.is_int():
                    out.append(z3.Implies(z3.And(f >= 1, x < y), fx + f <= fy))
                    out.append(z3.Implies(z3.And(f >= 1, y < x), fy + f <= fx))
    return out


def asms_of(c):
    return list(c.pc) + list(c.axioms)


def fapps_in(c, e):
    return [x for x in collect(c, [e]) if x.num_args() == 0 and x.get_id() in c.fapps]


def prove_equal_terms(c, a, b, extra, depth, timeout):
    if isinstance(a, Cx) or isinstance(b, Cx):
        from .core import cx

        a, b = cx(a), cx(b)
        return prove_equal_terms(c, a.re, b.re, extra, depth, timeout) and \
            prove_equal_terms(c, a.im, b.im, extra, depth, timeout)
    g = vcmp("==", a, b)
    return valid(c, g, extra, depth, timeout)[0] == "proved"


def congruent(c, f, g, extra, depth, timeout):
    if f.kind != g.kind or len(f.params) != len(g.params) or len(f.rows) != len(g.rows):
        return False
    for p, q in zip(f.params, g.params):
        if isinstance(p, z3.ExprRef) or isinstance(q, z3.ExprRef) or is_num(p):
            try:
                if not prove_equal_terms(c, p, q, extra, depth + 1, timeout):
                    return False
            except Exception:
                return False
        elif p != q:
            return False
    for (d1, f1), (d2, f2) in zip(f.rows, g.rows):
        if len(d1) != len(d2):
            return False
        for a, b in zip(d1, d2):
            if not prove_equal_terms(c, a, b, extra, depth + 1, timeout):
                return False
        ks = [c.fresh("kx", I) for _ in d1]
        rng = [z3.And(k >= 0, k < tz(d)) for k, d in zip(ks, d1)]
        a, b = c.scoped(list(extra) + rng, lambda: (f1(*ks), f2(*ks)))
        if not prove_equal_terms(c, a, b, extra + rng, depth + 1, timeout):
            return False
    return True


def unroll(c, gs, extra, depth, timeout):
    """F(n+1) == F(n) combined with the n-th term, for pairs of sums / minima / maxima of the
    same sequence whose extents differ by one"""
    from .core import vadd, vite

    fa = [x for x in fapps_in(c, gs) if c.fapps[x.get_id()].kind in ("sum", "min", "max")
          and len(c.fapps[x.get_id()].rows) == 1 and len(c.fapps[x.get_id()].rows[0][0]) == 1]
    L, used = [], set()
    for x in fa:
        for y in fa:
            f, g = c.fapps[x.get_id()], c.fapps[y.get_id()]
            if x.get_id() == y.get_id() or f.kind != g.kind or x.get_id() in used:
                continue
            (n1,), f1 = f.rows[0]
            (n2,), f2 = g.rows[0]
            d = z3.simplify(tz(n1) - tz(n2))
            if not (z3.is_int_value(d) and d.as_long() == 1):
                continue
            k = c.fresh("kx", I)
            rng = [z3.And(k >= 0, k < tz(n2))]
            a, b = c.scoped(list(extra) + rng, lambda: (f1(k), f2(k)))
            if not prove_equal_terms(c, a, b, extra + rng, depth + 1, timeout):
                continue
            if f.kind != "sum" and valid(c, vcmp(">", n2, 0), extra, depth + 1,
                                         timeout)[0] != "proved":
                continue
            last = c.scoped(list(extra), lambda: f1(n2))
            if isinstance(last, Cx):
                continue
            if f.kind == "sum":
                v = vadd(y, last)
            else:
                v = vite(vcmp("<=" if f.kind == "min" else ">=", y, last), y, last)
            L.append(x == tz(v) if not is_num(v) else x == v)
            used.add(x.get_id())
    return L


def valid(c, g, extra=(), depth=0, timeout=None):
    """-> (status, backend, model)"""
    from . import ring

    timeout = timeout or c.timeout
    c.check_time()
    g = vbool(g)
    if isinstance(g, bool):
        return ("proved" if g else "refuted"), "fold", None
    gs = z3.simplify(g)
    if z3.is_true(gs):
        return "proved", "z3-simplify", None
    if z3.is_and(gs) and gs.num_args() <= 40:
        be = ""
        for ch in gs.children():
            st, be, m = valid(c, ch, extra, depth, timeout)
            if st != "proved":
                return st, be, m
        return "proved", be, None
    extra = list(extra)
    asms = asms_of(c) + extra
    fa = fapps_in(c, gs)
    short = 1500
    r, m, s = _check(c, asms, gs, min(short, timeout))
    if r == z3.unsat:
        return "proved", "z3", None
    # extensionality lemmas
    if fa and depth < 6:
        lems = []
        L = []
        if z3.is_eq(gs):
            la = fapps_in(c, gs.arg(0))
            lb = fapps_in(c, gs.arg(1))
            ida, idb = {x.get_id() for x in la}, {x.get_id() for x in lb}
            pairs = [(x, y) for x in la for y in lb
                     if x.get_id() not in idb and y.get_id() not in ida]
            if len(la) and len(lb) == 0 or len(pairs) == 0:
                pairs = [(x, y) for i, x in enumerate(fa) for y in fa[i + 1:]]
        else:
            pairs = [(x, y) for i, x in enumerate(fa) for y in fa[i + 1:]]
        used = set()
        for x, y in pairs[:60]:
            if x.get_id() in used or y.get_id() in used:
                continue
            f, h = c.fapps[x.get_id()], c.fapps[y.get_id()]
            if congruent(c, f, h, extra, depth, timeout):
                L.append(x == y)
                used.add(y.get_id())
        if L:
            asms = asms_of(c) + extra + L
            sub = [(l.arg(1), l.arg(0)) for l in L]
            gs2 = z3.simplify(z3.substitute(gs, *sub))
            if z3.is_true(gs2):
                return "proved", "z3+extensionality", None
            r, m, s = _check(c, asms, gs2, min(short, timeout))
            if r == z3.unsat:
                return "proved", "z3+extensionality", None
            gs = gs2
    # unrolling: reductions over n + 1 and n terms of the same sequence
    if depth < 4:
        L = unroll(c, gs, extra, depth, timeout)
        if L:
            asms = asms + L
            sub = [(l.arg(0), l.arg(1)) for l in L]
            gs = z3.simplify(z3.substitute(gs, *sub))
            if z3.is_true(gs):
                return "proved", "z3+unrolling", None
            r, m, s = _check(c, asms, gs, min(short, timeout))
            if r == z3.unsat:
                return "proved", "z3+unrolling", None
    # rational identity
    if z3.is_eq(gs) and gs.arg(0).sort() == z3.RealSort():
        if ring.equal(c, gs.arg(0), gs.arg(1), asms):
            return "proved", "ring", None
        # case split on ITE conditions, then ring
        st = split_ring(c, gs, asms, timeout)
        if st:
            return "proved", "z3-split+ring", None
    if r == z3.sat:
        return "refuted", "z3", m
    if depth <= 3:
        base = list(asms) + [z3.Not(gs)]
        base = base + lemmas_for(c, base)
        hints = monotone_hints(c, base)
        if hints:
            for nl in (False, True):
                s1 = z3.Solver()
                s1.set("timeout", 3000)
                s1.set("smt.arith.nl", nl)
                s1.add(*base)
                s1.add(*hints)
                t0 = time.time()
                r1 = s1.check()
                c.t_solver += time.time() - t0
                c.n_solver += 1
                if r1 == z3.unsat:
                    return "proved", "z3+monotonicity", None
    if depth <= 1 and short < timeout and try_cvc5(c, s, timeout) == "unsat":
        return "proved", "cvc5", None
    if short < timeout:
        r, m, s = _check(c, asms, gs, timeout)
        if r == z3.unsat:
            return "proved", "z3", None
        if r == z3.sat:
            return "refuted", "z3", m
    if depth == 0 or depth == 1:
        for seed in (7,):
            s2 = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
            s2.set("timeout", int(timeout))
            s2.set("smt.random_seed", seed)
            s2.set("smt.arith.solver", 2)
            s2.add(*s.assertions())
            r = s2.check()
            if r == z3.unsat:
                return "proved", "z3(arith2)", None
            if r == z3.sat:
                return "refuted", "z3", s2.model()
    return "unknown", "z3", None


def ite_conds(g):
    out, seen = [], set()
    st = [g]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            out.append(x.arg(0))
        st.extend(x.children())
    return out


def split_ring(c, g, asms, timeout, depth=0):
    from . import ring

    conds = ite_conds(g)
    if not conds or depth > 7:
        return False
    # innermost condition: one without ITEs
    cond = None
    for k in conds:
        if not ite_conds(k):
            cond = k
            break
    if cond is None:
        return False
    for val in (True, False):
        lit = cond if val else z3.Not(cond)
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*asms)
        s.add(lit)
        if s.check() == z3.unsat:
            continue
        g2 = z3.simplify(z3.substitute(g, (cond, z3.BoolVal(val))))
        if z3.is_true(g2):
            continue
        if not z3.is_eq(g2):
            r, m, _ = _check(c, asms + [lit], g2, timeout)
            if r == z3.unsat:
                continue
            return False
        if ring.equal(c, g2.arg(0), g2.arg(1), asms + [lit]):
            continue
        r, m, _ = _check(c, asms + [lit], g2, 1500)
        if r == z3.unsat:
            continue
        if not split_ring(c, g2, asms + [lit], timeout, depth + 1):
            return False
    return True


def try_cvc5(c, solver, timeout):
    import os
    import subprocess
    import tempfile

    txt = "(set-logic ALL)\n" + solver.to_smt2().replace("(check-sat)", "") + "\n(check-sat)\n"
    if len(txt) > 400000:
        return "unknown"
    txt = txt.replace("!", "_x_")
    fd, p = tempfile.mkstemp(suffix=".smt2")
    t = time.time()
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        r = subprocess.run(
            ["cvc5", f"--tlimit={int(timeout)}", p], capture_output=True, text=True,
            timeout=timeout / 1000 + 5,
        )
        out = r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
    except Exception:
        out = "unknown"
    finally:
        os.unlink(p)
    c.t_solver += time.time() - t
    c.n_solver += 1
    return out


OK_DECLS = {"q", "r"}


def definite(c, goal):
    """is a model of (pc, not goal) a real refutation: only inputs, arithmetic"""
    for x in collect(c, [tz(goal)] + asms_of(c)):
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.get_id() in c.fapps:
                return False
            n = x.decl().name()
            if x.num_args() == 0 and n == "pi!":
                return False
            if n.startswith("undef_"):
                return False
            if x.num_args() > 0 and n not in c.inputs.get("__funs__", ()):
                return False
    return True


def discharge(c, o, g):
    try:
        st, be, m = valid(c, g)
    except RecursionError:
        st, be, m = "unknown", "recursion", None
    o.status, o.backend = st, be
    if st != "proved":
        o.model = m
        o.goal = str(g)[:2000]
        if st == "refuted":
            base = asms_of(c) + ([] if isinstance(g, bool) else [z3.Not(tz(g))])
            o.asrt = base + lemmas_for(c, base)
            o.definite = (not isinstance(g, bool)) and definite(c, g) or isinstance(g, bool)
