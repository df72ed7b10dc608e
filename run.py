#!/opt/venv/bin/python
"""run.py C11 [--tier quick|thorough] [--case NAME] [-v]   decide one property
run.py --replay FILE                                        run a counterexample on the real code again
"""
import argparse
import importlib
import json
import os
import sys
import time

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from sx import harness, load  # noqa: E402

LEVEL = "model_checking"


def known(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("known: "):
                    d = dict(x.split("=", 1) for x in line.split()[1:4] if "=" in x)
                    if d.get("property") == prop:
                        out.append((d.get("case"), line.split(None, 4)[-1].strip()))
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        mod = importlib.import_module("checks." + d["property"].lower())
        case = {c.name: c for c in mod.cases(d["tier"])}[d["case"]]
        v, detail, _ = harness.run_num(case, {k: harness._parse(x) for k, x in d["env"].items()})
        print(v, detail)
        return 1 if v == "fail" else 0
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    cases = mod.cases(a.tier)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    total = 780 if a.tier == "quick" else 5400
    # everything heavy is imported once, the workers are forks
    harness.real_pkg()

    def log(r):
        if a.v:
            st = r.get("stats", {})
            print("%-46s %s paths=%d claims=%d nf=%d smt=%d valid=%d q=%d %.1fs/%.1fs %s" % (
                r["case"], "ok " if not (r["error"] or r["unresolved"] or r["violations"]) else "!! ", r["paths"], r.get("claims", 0),
                r.get("by_normal_form", 0), r.get("by_solver", 0), r.get("validated", 0), st.get("queries", 0), st.get("solver_time", 0),
                r.get("wall", 0), r["error"] or ""), flush=True)
            for u in r["unresolved"][:6]:
                print("    unresolved", u[:600])
            for u in r.get("validation_failed", [])[:3]:
                print("    encoding mismatch", u[:600])
            for u in r["violations"][:3]:
                print("    violation", str(u)[:900])

    rs = harness.run_cases(cases, seed, total, a.j, log=log)
    viol = [v for r in rs for v in r["violations"]]
    kn = known(prop)
    known_hit = [v for v in viol if any(v["case"] == k for k, _ in kn)]
    viol = [v for v in viol if v not in known_hit]
    for k, text in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    agg = lambda f: sum(r.get(f, 0) for r in rs)
    st = lambda f: sum(r.get("stats", {}).get(f, 0) for r in rs)
    undecided = [r for r in rs if r["error"] or r["unresolved"] or r.get("validation_failed") or (r.get("vacuous", True) and not r["violations"])]
    decided = [r for r in rs if r not in undecided]
    funcs = sorted({f for r in rs for f in r.get("functions", ())})
    cov = dict(
        states=agg("paths"), transitions=agg("decisions"), traces_validated_against_impl=agg("validated"),
        samples=[s for r in rs for s in r.get("samples", ())][:6] or [dict(note="no path completed")],
        explanation=(mod.__doc__ or "").strip(),
        meaning="states = symbolic execution paths explored to the end, each standing for all inputs that satisfy its path "
                "condition; transitions = decisions (branches on symbolic values) taken on them; traces_validated_against_impl = "
                "paths whose symbolic results were compared with the real code at a concrete point of the path",
        bounds=getattr(mod, "BOUNDS", ""), functions_encoded=funcs, cases=len(rs), cases_fully_decided=len(decided),
        claims=agg("claims"), claims_closed_by_normal_form=agg("by_normal_form"), claims_closed_by_solver=agg("by_solver"),
        solver_queries=st("queries"), solver_unsat=st("unsat"), solver_sat=st("sat"), solver_unknown=st("unknown"),
        solver_time_s=round(st("solver_time"), 2), infeasible_or_excluded_paths=agg("aborted"),
        exhaustive=not undecided and not viol,
        undecided=[dict(case=r["case"], why=r["error"] or "; ".join(r["unresolved"][:3] + r.get("validation_failed", [])[:2]) or "no feasible path") for r in undecided][:40],
        case_table=[dict(case=r["case"], paths=r["paths"], claims=r.get("claims", 0), queries=r.get("stats", {}).get("queries", 0),
                         solver_s=round(r.get("stats", {}).get("solver_time", 0), 2), wall_s=round(r.get("wall", 0), 2),
                         notes=r.get("notes", [])) for r in rs])
    ev = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level=LEVEL, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMES", [])) + COMMON, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for r in undecided:
        if not r["violations"]:
            print("INCONCLUSIVE property=%s case=%s %s" % (prop, r["case"], (r["error"] or "; ".join(r["unresolved"][:2] + r.get("validation_failed", [])[:2]) or "no feasible path")[:300]))
    print("property=%s tier=%s cases=%d decided=%d paths=%d claims=%d queries=%d solver=%.1fs wall=%.1fs" % (
        prop, a.tier, len(rs), len(decided), cov["states"], cov["claims"], cov["solver_queries"], cov["solver_time_s"], time.time() - t0))
    if viol:
        v = viol[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", prop + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=a.tier, **v), f, indent=1, default=str)
        print("case %s: %s: %s" % (v["case"], v["label"], v["detail"]))
        print("inputs: %s" % json.dumps(v["env"], default=str)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not decided:
        print("no case could be decided")
        return 2
    return 0


COMMON = [
    "floating point values are treated as real numbers (rounding, overflow and underflow are outside the claims); 64-bit integer overflow is ignored, narrower integer types wrap as numpy does",
    "numpy, scipy and matplotlib behave as their stand-ins in sx/snp.py and sx/shims.py state; the stand-ins are compared with the real libraries at concrete points of the explored paths on every run",
    "divisors and normalisation sums are assumed nonzero where the code divides by them",
]

if __name__ == "__main__":
    sys.exit(main())
