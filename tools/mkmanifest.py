"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
NA = {
    "C29": "Convergence of the phase retrieval iteration is a limit over an unbounded number of steps of a nonlinear map; every iterate doubles the nesting of square roots and quotients of its inputs, "
           "and a bounded number of iterations (what C17 decides) says nothing about the limit.",
    "C30": "A limit as the grid is refined without bound: no fixed grid decides it, and two different discretisations differ at every fixed grid by design.",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        na.append(dict(property=i, reason="its check is still being built"))
        continue
    mod = importlib.import_module("checks." + i.lower())
    note = ("Exhaustive over the values of every symbolic input within the bounds, not beyond them: " + mod.BOUNDS + ". "
            "Assumes real arithmetic instead of floating point" + "".join("; " + a for a in getattr(mod, "ASSUMES", ())) + ". "
            "Trusts z3, the polynomial normal forms of sx/num.py and the numpy/scipy stand-ins, which are compared with the real libraries on every explored path's concrete points; "
            "every counterexample is replayed on the real code before it is reported.")
    checks.append(dict(property=i, quick_cmd="./run.py %s --tier quick" % i, thorough_cmd="./run.py %s --tier thorough" % i,
                       technique="symbolic execution of the package's own source on symbolic arrays, claims decided by z3 and polynomial normal forms, counterexamples replayed on the real code",
                       level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: the checks load /repo/pyotf's source with the array library replaced. See DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", [x["property"] for x in na])
