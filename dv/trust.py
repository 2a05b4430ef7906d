"""What is trusted, reported in every evidence file."""

BASE = [
    "mechanical extraction dv/pyshim.py: subject modules are parsed from /repo on every run and "
    "executed; dropped: type annotations, f-string message text, docstrings; replaced: builtins "
    "(len, range, int, ...) and torch/numpy/math calls by their contracts in dv/shim.py, "
    "comprehensions and for-loops over symbolic ranges by the arbitrary-iteration rule",
    "contracts assumed for torch/numpy operations (dv/shim.py); cross-checked against the real "
    "library by the concrete evaluations of this run, not proved",
    "z3 5.3 / cvc5 solvers, exact rational normaliser dv/ring.py",
    "floating point treated as exact real arithmetic; integers as mathematical integers",
]


def trusted_base(cons):
    out = list(BASE)
    for c in cons:
        for t in c.opts.get("trusted", []):
            if t not in out:
                out.append(t)
    return out


def assumptions(cons):
    out = ["float rounding, overflow, NaN/inf propagation are not modelled by the proofs",
           "device placement and autograd are not modelled"]
    for c in cons:
        for t in c.opts.get("assumes", []):
            if t not in out:
                out.append(t)
    return out
