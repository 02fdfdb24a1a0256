"""Writes /verif/evidence/<property>.json from what a run measured."""
import json
import os

from .check import HERE, jsonable

TRUSTED = [
    "z3 4.x (python bindings) and cvc5 1.x answer unsat only for unsatisfiable formulas",
    "vc/xform.py + vc/core.py + vc/arr.py + vc/shim.py: Python and numpy semantics of the generated obligations "
    "(differentially self-tested against CPython/numpy, not proved)",
    "machine arithmetic treated as mathematical: floats as reals (no rounding, overflow, nan unless modelled), "
    "Python ints unbounded, uint8 with wrap-around",
    "axioms of exp, log, pow, sqrt, tanh, atan, asin, sin, cos (vc/solve.py)",
]


def write(prop, tier, seed, scs, nums, proofs, nviol, wall, known):
    evals = sum(r["evals"] for r in nums)
    trials = sum(r["trials"] for r in nums)
    per = []
    obligations = discharged = 0
    by, solver_s = {}, 0.0
    undecided, fns_proved, fns_num = [], set(), set()
    assumptions = set()
    for sc in scs:
        d = dict(scenario=sc.id, functions=list(sc.fns))
        ns = [r for r in nums if r["scenario"] == sc.id]
        d["bounded"] = dict(evaluated_obligations=sum(r["evals"] for r in ns), trials=sum(r["trials"] for r in ns),
                            discarded=sum(r["discarded"] for r in ns), label="bounded stand-in / replay reading, not counted as proved")
        pf = [p for p in proofs if p["scenario"] == sc.id]
        if not sc.sym:
            d["proof"] = dict(status="not attempted", reason=sc.why_num)
            fns_num.update(sc.fns)
        for p in pf:
            ob = p.get("obligations", [])
            ok = [o for o in ob if o["status"] == "discharged"]
            obligations += len(ob)
            discharged += len(ok)
            solver_s += p.get("solver_s", 0.0)
            for o in ok:
                by[o["by"]] = by.get(o["by"], 0) + 1
            assumptions.update(p.get("assumptions", []))
            d["proof"] = dict(status=p.get("status"), mode=p.get("mode"), paths=p.get("paths"), obligations=len(ob), discharged=len(ok),
                              reason=p.get("reason"), undischarged=[o["name"] + ": " + o["status"] for o in ob if o["status"] != "discharged"][:10],
                              functions_executed=p.get("functions", []))
            if p.get("status") == "proved":
                fns_proved.update(p.get("functions", []) or sc.fns)
            else:
                fns_num.update(sc.fns)
                undecided.append(sc.id)
        per.append(d)
    level = LEVELS.get(prop, "exploration")
    samples = []
    for r in nums:
        if r.get("sample") and len(samples) < 3:
            samples.append(dict(scenario=r["scenario"], inputs=jsonable(r["sample"])))
    cov = dict(
        evaluations=trials, distinct_nontrivial=sum(r.get("distinct", 0) for r in nums),
        rule="a case is one draw of all inputs of a scenario that satisfies its precondition; distinct by the hash of the drawn values, "
             "non-trivial if at least one obligation was evaluated on it",
        samples=samples, evaluated_obligations=evals, obligations=obligations, discharged=discharged,
        discharged_by_back_end=by, solver_seconds=round(solver_s, 2),
        checker_cmd=f"cd /verif && VERIF_SEED={seed} ./check {prop} {tier}", trusted_base=TRUSTED,
        functions_proved=sorted(fns_proved), functions_bounded=sorted(fns_num - fns_proved),
        scenarios=per, undecided_scenarios=undecided,
        known_findings=[k[2] for k in known])
    out = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2), violations=nviol,
               assumptions=sorted(assumptions) + TRUSTED[1:])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf8") as f:
        json.dump(out, f, indent=1)
    out["summary"] = (f"{discharged}/{obligations} obligations discharged in {sum(1 for p in proofs if p.get('status') == 'proved')} of "
                      f"{len(scs)} scenarios, {trials} bounded trials, {nviol} violations, {wall:.1f}s")
    return out


LEVELS = {}
try:
    LEVELS = {c["property"]: c["level"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json"), encoding="utf8"))["checks"]}
except (OSError, ValueError, KeyError):
    pass
