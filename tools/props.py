"""builds properties.jsonl and MANIFEST.json (run by hand: python3 tools/props.py)"""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, st, over, q, why, files, mech, note, na=None, obs=None):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech,
                  note=note, na=na, obs=obs))


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

COMMON = ("Obligations are generated on every run by executing the functions of /repo's current "
          "source under a symbolic interpretation of Python/torch (all sizes and values symbolic "
          "unless stated) and discharged by z3/cvc5/a polynomial-ring normaliser; real arithmetic "
          "stands for floating point; the torch primitives are trusted through their contracts "
          "(dv/shim.py), which the same contracts run on the real torch test on every run. ")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["st"],
            "quantifier": {"over": x["over"], "text": x["q"]}, "why_tests_cant": x["why"],
            "anchors": {"files": ["ml4gw/" + y for y in x["files"]],
                        "mechanism": [{"name": a, "where": "ml4gw/" + b} for a, b in x["mech"]],
                        "observe_at": x["obs"] or [b.split(":")[-1] for a, b in x["mech"]],
                        "hook_needed": None}}) + "\n")

checks, na = [], []
for x in P:
    if x["na"] or not os.path.exists(os.path.join(ROOT, "contracts", x["id"] + ".py")):
        na.append({"property": x["id"], "reason": x["na"] or "contracts not written yet"})
        continue
    checks.append({
        "property": x["id"], "quick_cmd": f"./check {x['id']} --tier quick",
        "thorough_cmd": f"./check {x['id']} --tier thorough",
        "technique": "contract-based deductive verification of the real functions "
                     "(symbolic VC generation, z3/cvc5/ring back ends; refutations replayed "
                     "on the real code)",
        "level": "proof", "level_note": COMMON + x["note"]})
json.dump({"version": 1, "setup_cmd": "./check --selftest", "checks": checks,
           "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
