"""Driver: verify the contracts of one property, replay counterexamples,
write evidence, print the verdict."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)
REPO = os.environ.get("DV_REPO", "/repo")
sys.setrecursionlimit(20000)


def setup_env():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import torch

    torch.set_num_threads(1)
    import warnings

    warnings.filterwarnings("ignore")


def sym_job(args):
    prop, ci, case_i, budget, timeout_ms = args
    from dv import core, harness
    from dv.pyshim import World

    con = harness.REG[prop][ci]
    case = con.cases[case_i]
    res = {"contract": con.name, "case": case, "obls": [], "paths": 0, "ok_paths": 0,
           "unsupported": None, "models": [], "solver_calls": 0, "solver_s": 0.0, "ci": ci,
           "case_i": case_i, "wall": 0.0}
    t0 = time.time()
    try:
        ov = con.opts.get("overrides")
        world = World(REPO)

        def run(c):
            h = harness.SymH(c, world)
            if ov:
                ov(h, world)
            con.fn(h, **case)

        results, err = core.explore(run, max_paths=con.opts.get("max_paths", 300),
                               timeout_ms=con.opts.get("timeout_ms", timeout_ms),
                               deadline=t0 + budget)
        collect(res, results)
        res["unsupported"] = err
    except core.Unsupported as e:
        res["unsupported"] = f"unsupported: {e}"
        res["tb"] = traceback.format_exc()[-1500:]
    except core.OutOfTime:
        res["unsupported"] = "time budget exhausted"
    except RecursionError:
        res["unsupported"] = "recursion limit"
    except Exception as e:
        res["unsupported"] = f"engine error {type(e).__name__}: {e}"
        res["tb"] = traceback.format_exc()[-2500:]
    finally:
        from dv import core as _c

        _c.set_ctx(None)
    res["wall"] = time.time() - t0
    return res


def collect(res, results):
    for c, outcome in results:
        res["paths"] += 1
        # a path that was stopped still contributes the obligations it generated
        if c.obls:
            res["ok_paths"] += 1
        res["solver_calls"] += c.n_solver
        res["solver_s"] += c.t_solver
        for o in c.obls:
            res["obls"].append((o.name, o.status, o.backend, round(o.time, 3), o.definite,
                                o.goal[:1200]))
            if o.status == "refuted" and len(res["models"]) < 6:
                try:
                    res["models"].append((o.name, o.definite, model_values(c, o)))
                except Exception:
                    res["models"].append((o.name, o.definite, [{}]))


def model_values(c, o):
    """concrete values of the contract's inputs in (small) counter-models"""
    import z3
    from dv.prover import asms_of

    outs = []
    ints = [v[1] for v in c.inputs.values() if isinstance(v, tuple) and v[0] == "int"]
    reals = [v[1] for v in c.inputs.values() if isinstance(v, tuple) and v[0] == "real"]

    def grab(m):
        d = {}
        for n, v in c.inputs.items():
            if not isinstance(v, tuple):
                continue
            if v[0] == "int":
                x = m.eval(v[1], model_completion=True)
                if z3.is_int_value(x):
                    d[n] = x.as_long()
            elif v[0] == "real":
                x = m.eval(v[1], model_completion=True)
                if z3.is_rational_value(x):
                    d[n] = x.numerator_as_long() / x.denominator_as_long()
                elif z3.is_algebraic_value(x):
                    x = x.approx(20)
                    d[n] = x.numerator_as_long() / x.denominator_as_long()
            elif v[0] == "choice":
                d[n] = v[1]
        return d

    # re-solve asking for small integers
    if getattr(o, "model", None) is not None:
        base = getattr(o, "asrt", None)
        for bound in (6, 16, 64, 1000, None):
            if base is None:
                break
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*base)
            if bound is not None:
                for v in ints:
                    s.add(v <= bound, v >= -bound)
                for v in reals:
                    s.add(v <= bound, v >= -bound)
            if s.check() == z3.sat:
                outs.append(grab(s.model()))
                break
        outs.append(grab(o.model))
    return outs


def conc_run(prop, ci, case_i, seed, preset=None, tpreset=None):
    """one concrete evaluation of the contract on the real code.
    returns (status, failures, values, nchecks)"""
    from dv import harness

    con = harness.REG[prop][ci]
    case = con.cases[case_i]
    h = harness.ConcH(seed, preset, tpreset=tpreset, **con.opts.get("tol", {}))
    try:
        con.fn(h, **case)
    except harness.Reject:
        return "rejected", [], h.values, h.count
    except harness.StopConc:
        pass
    return ("fail" if h.fails else "ok"), [(f.name, f.detail) for f in h.fails], h.values, h.count


def conc_job(args):
    prop, ci, case_i, seed0, n, budget, presets = args
    t0 = time.time()
    res = {"ci": ci, "case_i": case_i, "runs": 0, "accepted": 0, "checks": 0, "fails": [],
           "error": None, "distinct": 0, "sample": None}
    seen = set()
    try:
        todo = []
        for p in presets or []:
            for k in range(3):
                todo.append((seed0 * 7919 + k, p))
        i = 0
        while True:
            if todo:
                sd, p = todo.pop(0)
            else:
                if presets is not None and n == 0:
                    break
                if i >= n or time.time() - t0 > budget:
                    break
                sd, p = seed0 * 1000003 + i * 17 + ci * 131 + case_i, None
                i += 1
            st, fails, vals, cnt = conc_run(prop, ci, case_i, sd, p)
            res["runs"] += 1
            if st == "rejected":
                continue
            res["accepted"] += 1
            res["checks"] += cnt
            seen.add(repr(sorted(vals.items())))
            if res["sample"] is None:
                res["sample"] = {k: v for k, v in list(vals.items())[:12]}
            if st == "fail":
                res["fails"].append({"seed": sd, "preset": p, "values": vals, "failed": fails})
                if len(res["fails"]) >= 3:
                    break
    except Exception:
        res["error"] = traceback.format_exc()[-2500:]
    res["distinct"] = len(seen)
    return res


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--nosym", action="store_true")
    ap.add_argument("--noconc", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        import z3

        setup_env()
        for f in sorted(os.listdir(os.path.join(ROOT, "contracts"))):
            if f.startswith("C") and f.endswith(".py"):
                importlib.import_module("contracts." + f[:-3])
        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x < 0)
        assert s.check() == z3.unsat
        from dv import harness

        print("self-test passed:", sum(len(v) for v in harness.REG.values()), "contracts load")
        return
    prop = a.prop
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = a.tier == "thorough"
    setup_env()
    from dv import harness

    importlib.import_module(f"contracts.{prop}")
    cons = harness.REG[prop]
    if a.replay:
        d = json.load(open(a.replay))
        if d.get("kind") == "input":
            st, fails, vals, n = conc_run(prop, d["ci"], d["case_i"], d["seed"], d.get("preset"))
            print(st, json.dumps(vals, default=str))
            for f in fails:
                print("FAILED", f[0], "\n   ", f[1])
            sys.exit(1 if st == "fail" else 0)
        print(json.dumps(d, indent=1))
        sys.exit(0)
    from dv import pool

    nproc = min(8, os.cpu_count() or 4)
    sym_jobs, conc_jobs = [], []
    budget = 600 if thorough else 150
    for ci, con in enumerate(cons):
        if a.only and con.name != a.only:
            continue
        for k in range(len(con.cases)):
            if not con.bounded and not a.nosym:
                sym_jobs.append((prop, ci, k, con.opts.get("budget", budget),
                                 20000 if thorough else 8000))
            if not a.noconc and not con.opts.get("noconc"):
                n = con.opts.get("samples", 150) * (8 if thorough else 1)
                conc_jobs.append((prop, ci, k, seed, n, con.opts.get("conc_s", 12) *
                                  (8 if thorough else 1), None))
    hard = 3600 if thorough else 660  # seconds until the verdict is due

    def no_sym(j):
        return lambda r: {"contract": cons[j[1]].name, "case": cons[j[1]].cases[j[2]], "obls": [],
                          "paths": 0, "ok_paths": 0, "models": [], "solver_calls": 0,
                          "solver_s": 0.0, "ci": j[1], "case_i": j[2], "wall": 0.0,
                          "unsupported": r[1] if r else "no answer within its time"}

    def no_conc(j):
        return lambda r: {"ci": j[1], "case_i": j[2], "runs": 0, "accepted": 0, "checks": 0,
                          "fails": [], "error": r[1] if r else "no answer within its time",
                          "distinct": 0, "sample": None}

    def sjob(j):
        return sym_job, j, j[3] + 10, no_sym(j)

    def cjob(j):
        return conc_job, j, j[5] + 60, no_conc(j)

    out = pool.run([sjob(j) for j in sym_jobs] + [cjob(j) for j in conc_jobs], nproc, t0 + hard)
    sres, cres = out[:len(sym_jobs)], out[len(sym_jobs):]
    # obligations the solvers gave no answer for: once more, with more time
    again = [j for j, r in zip(sym_jobs, sres) if any(o[1] != "proved" for o in r["obls"])
             and not any(d for _, d, _ in r["models"])]
    retried = 0
    if again and time.time() - t0 < hard / 2 and not any(r["fails"] for r in cres):
        rs = pool.run([sjob((*j[:3], 150, 4 * j[4])) for j in again], min(4, nproc),
                      t0 + hard / 2 + 200)
        for j, r in zip(again, rs):
            retried += bool(r["obls"])
            q = sym_jobs.index(j)
            if r["obls"] and not r["unsupported"] and sum(
                    o[1] != "proved" for o in r["obls"]) <= sum(
                    o[1] != "proved" for o in sres[q]["obls"]):
                sres[q] = r
    # replay the verifier's counter-models on the real code
    presets = {}
    for r in sres:
        for name, definite, vals in r["models"]:
            presets.setdefault((r["ci"], r["case_i"]), []).extend(v for v in vals if v)
    undecided, refuted, open_ = [], [], []
    nob = ndis = 0
    backends = {}
    solver_s = 0.0
    solver_calls = 0
    per = {}
    for r in sres:
        key = (r["contract"], json.dumps(r["case"], default=str))
        e = per.setdefault(key, [0, 0, 0])
        solver_s += r["solver_s"]
        solver_calls += r["solver_calls"]
        for (nm, st, be, tm, df, goal) in r["obls"]:
            nob += 1
            e[0] += 1
            if st == "proved":
                ndis += 1
                e[1] += 1
                backends[be] = backends.get(be, 0) + 1
            elif st == "refuted":
                refuted.append((r, nm, df, goal))
            else:
                open_.append((r["contract"], r["case"], nm, "solver gave no answer", goal))
        e[2] += r["paths"]
        if r["unsupported"]:
            undecided.append((r["contract"], r["case"], "-", r["unsupported"], r.get("tb", "")))
        elif not r["obls"]:
            undecided.append((r["contract"], r["case"], "-", "vacuous: no obligation generated", ""))
    failing = []
    cerr = []
    for r in cres:
        failing += [(r["ci"], r["case_i"], f) for f in r["fails"]]
        if r["error"]:
            cerr.append((cons[r["ci"]].name, cons[r["ci"]].cases[r["case_i"]], r["error"]))
        elif r["accepted"] == 0:
            cerr.append((cons[r["ci"]].name, cons[r["ci"]].cases[r["case_i"]],
                         "no concrete sample satisfied the precondition"))
    model_replays = 0
    if (refuted or undecided or open_) and not a.noconc:
        jobs = []
        for ci, con in enumerate(cons):
            if a.only and con.name != a.only:
                continue
            for k in range(len(con.cases)):
                ps = presets.get((ci, k), [])
                bad = any(r["ci"] == ci and r["case_i"] == k for r, *_ in refuted) or any(
                    u[0] == con.name and u[1] == con.cases[k] for u in undecided + open_)
                if bad and not con.opts.get("noconc"):
                    jobs.append((prop, ci, k, seed + 77, 600, 30, ps))
        rr = pool.run([cjob(j) for j in jobs], nproc, t0 + hard + 150)
        for r in rr:
            model_replays += r["runs"]
            failing += [(r["ci"], r["case_i"], f) for f in r["fails"]]
            if r["error"]:
                cerr.append((cons[r["ci"]].name, cons[r["ci"]].cases[r["case_i"]], r["error"]))
        cres = cres + rr
    # verdict
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    violations = []
    kf = {}
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for ci, k, f in failing:
        con = cons[ci]
        names = [x[0] for x in f["failed"]]
        hit = None
        for kn in known:
            if kn["contract"] == con.name and all(
                    any(n.startswith(o) for o in kn["obligations"]) for n in names) and match_vals(
                        kn.get("values", {}), con.cases[k], f["values"]):
                hit = kn
                break
        if hit is not None:
            kf[hit["what"]] = hit
            continue
        violations.append((ci, k, f))
    soft = []
    for r, nm, df, goal in refuted:
        con = cons[r["ci"]]
        hit = None
        for kn in known:
            if kn["contract"] == con.name and any(nm.startswith(o) for o in kn["obligations"]):
                hit = kn
        if hit is not None:
            kf[hit["what"]] = hit
            continue
        if df:
            soft.append((r, nm, goal))
        else:
            open_.append((r["contract"], r["case"], nm,
                          "counter-model over uninterpreted functions", goal))
    rc = 0
    path = os.path.join(ROOT, "replays", f"{prop}.json")
    for kn in kf.values():
        print(f"KNOWN-FINDING: property={prop} {kn['what']}")
    if violations:
        ci, k, f = violations[0]
        json.dump({"kind": "input", "property": prop, "contract": cons[ci].name, "ci": ci,
                   "case_i": k, "case": cons[ci].cases[k], "seed": f["seed"],
                   "preset": f["preset"], "values": f["values"],
                   "failed_obligations": f["failed"], "targets": cons[ci].targets,
                   "verifier_failed": [(r["contract"], r["case"], nm, goal)
                                       for r, nm, df, goal in refuted][:5],
                   "replay_cmd": f"/verif/check {prop} --replay {path}"},
                  open(path, "w"), indent=1, default=str)
        print(f"failing input for contract {cons[ci].name} {cons[ci].cases[k]}: {f['values']}")
        for n, dd in f["failed"][:4]:
            print(f"  obligation violated: {n}: {dd[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif soft or open_:
        # every generated obligation must be accepted: a proof that no longer goes through is
        # reported, with the words that say no input was found
        failed = [(r["contract"], r["case"], nm, "refuted", goal, r["models"])
                  for r, nm, goal in soft] + [(*u, []) for u in open_]
        json.dump({"kind": "obligation", "property": prop, "failed_obligations": failed[:12]},
                  open(path, "w"), indent=1, default=str)
        for f in failed[:4]:
            print(f"obligation not discharged: {f[0]} {f[1]}: {f[2]} ({f[3]})\n   {f[4][:400]}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        rc = 1
    elif sym_jobs and not sres:
        print("no answer: the verification jobs did not finish")
        rc = 2
    undecided += open_
    wall = time.time() - t0
    bounded = [(c.name, c.bounded) for c in cons if c.bounded]
    from dv import trust

    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed,
        "level": "proof" if nob else "exploration",
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": f"/verif/check {prop}",
            "trusted_base": trust.trusted_base(cons),
            "functions_under_contract": sorted({t for c in cons if not c.bounded
                                                for t in c.targets}),
            "bounded_functions": sorted({t for c in cons if c.bounded for t in c.targets}),
            "bounded_stand_ins": bounded,
            "back_ends": backends, "solver_calls": solver_calls,
            "solver_s": round(solver_s, 2),
            "paths": sum(r["paths"] for r in sres),
            "undecided": [{"contract": u[0], "case": u[1], "obligation": u[2], "reason": u[3][:300]}
                          for u in undecided][:40],
            "per_contract": [{"contract": k[0], "case": k[1], "obligations": v[0],
                              "discharged": v[1], "paths": v[2]} for k, v in sorted(per.items())],
            "evaluations": sum(r["runs"] for r in cres),
            "distinct_nontrivial": sum(r["distinct"] for r in cres),
            "rule": "concrete cross-check of the same contracts on the imported code: inputs "
                    "drawn by the contract's own generators from VERIF_SEED; counted when the "
                    "precondition accepts them and the drawn values differ",
            "concrete_checks": sum(r["checks"] for r in cres),
            "counter_model_replays": model_replays, "jobs_retried": retried,
            "samples": [{"contract": cons[r["ci"]].name, "case": cons[r["ci"]].cases[r["case_i"]],
                         "values": r["sample"]} for r in cres if r["sample"]][:6],
        },
        "assumptions": trust.assumptions(cons),
        "wall_s": round(wall, 2), "violations": 1 if rc else 0,
    }
    if cerr:
        ev["coverage"]["concrete_errors"] = [(x[0], x[1], x[2][-600:]) for x in cerr]
    if not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1,
                  default=str)
    print(f"{prop}: obligations={nob} discharged={ndis} undecided={len(undecided)} "
          f"concrete={ev['coverage']['evaluations']} wall={wall:.1f}s solver={solver_s:.1f}s")
    if a.v or undecided:
        for u in undecided[:12]:
            print("  UNDECIDED", u[0], u[1], u[2], u[3])
            if a.v:
                print("      ", u[4])
    if cerr:
        for x in cerr[:6]:
            print("  CONCRETE-ERROR", x[0], x[1], x[2] if a.v else x[2][-200:])
    if a.v:
        for r in sorted(sres, key=lambda r: -r["wall"])[:6]:
            print(f"  t={r['wall']:.1f}s {r['contract']} {r['case']} paths={r['paths']} "
                  f"obls={len(r['obls'])}")
        slow = sorted(((o[3], r["contract"], r["case"], o[0], o[2]) for r in sres
                       for o in r["obls"]), key=lambda x: -x[0])[:6]
        for x in slow:
            if x[0] > 1:
                print("  SLOW", *x)
        for r, nm, df, goal in refuted[:8]:
            print("  REFUTED", r["contract"], r["case"], nm, "definite" if df else "abstract")
            print("      ", goal[:500], r["models"][:1])
    sys.exit(rc)


def match_vals(want, case, vals):
    for k, v in want.items():
        got = case.get(k, vals.get(k))
        if isinstance(v, dict):
            if "eq" in v and got != v["eq"]:
                return False
        elif got != v:
            return False
    return True


if __name__ == "__main__":
    main()
