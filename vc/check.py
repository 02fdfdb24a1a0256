"""Runs the check of one property:  python -m vc.check C07   (environment: VERIF_SEED, VERIF_TIER)"""
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if TOOLS not in sys.path:
    sys.path.append(TOOLS)      # z3, cvc5 (after the environment of the code under check)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
HAVE_PROVER = os.path.exists(os.path.join(HERE, "vc", "prove.py"))
KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings(prop):
    """[(scenario, obligation, text)] of the recorded (not repaired) findings of a property"""
    out = []
    for line in open(KNOWN, encoding="utf8"):
        line = line.strip()
        if line.startswith("known:"):
            f = dict(p.split("=", 1) for p in [x.strip() for x in line[len("known:"):].split("|")])
            if f["property"] == prop:
                out.append((f["scenario"], f["obligation"], f["what"]))
    return out


def jsonable(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return {"array": v.tolist(), "dtype": str(v.dtype)}
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def write_replay(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(jsonable(data), indent=1, sort_keys=True)
    h = hashlib.sha1(text.encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w", encoding="utf8") as f:
        f.write(text)
    return path


def worker_init():
    from . import num
    num.setup_process(REPO)


def numeric_job(args):
    from . import num
    try:
        return num.run_chunk(args)
    except BaseException:
        return dict(scenario=f"{args[0]}.{args[1]}", error=traceback.format_exc(), trials=0, discarded=0, evals=0, violation=None,
                    seed=args[2], wall=0, size_hint=args[5])


def proof_job(args):
    from . import prove
    try:
        return prove.prove_scenario(*args)
    except BaseException:
        return dict(scenario=f"{args[0]}.{args[1]}", status="error", error=traceback.format_exc(), obligations=[], wall=0)


def tame(vals):
    """model values whose magnitude leaves rounding out of the picture"""
    import numpy as np
    for v in vals.values():
        a = np.asarray(v)
        if a.dtype.kind == "f" and a.size and np.any((np.abs(a) > 1e6) | ((np.abs(a) < 1e-6) & (a != 0))):
            return False
    return True


def replay_job(args):
    """the solver's model against the real code: first as it is, then its scalars with random arrays"""
    prop, name, vals = args
    import numpy as np
    from . import num, ctx
    try:
        sc = num.find(prop, name)
        for k, keep in enumerate([vals] + [{n: v for n, v in vals.items() if not isinstance(v, np.ndarray)}] * 6):
            r = ctx.run_num(sc, 7000 + k, 1, time.time() + 20, values=keep)
            if r["violation"]:
                r["violation"]["seed"] = 7000 + k
                return r["violation"]
    except BaseException:
        return None
    return None


def baseline():
    try:
        return json.load(open(os.path.join(HERE, "vc", "baseline.json"), encoding="utf8"))
    except (OSError, ValueError):
        return {}


def main():
    sys.dont_write_bytecode = True
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    quick = tier == "quick"
    t0 = time.time()
    from . import num, evidence
    num.setup_process(REPO)
    scs = num.load(prop)
    known = known_findings(prop)
    budget = 40 if quick else 600
    chunks = 2 if quick else 24
    jobs = []
    for sc in scs:
        n = sc.trials or 300
        ch = chunks * (2 if sc.slow else 1)
        for c in range(ch):
            jobs.append((prop, sc.name, seed * 1000 + c, n if not sc.slow else max(1, n // 2), budget, None if c % 3 != 2 else 9))
    pctx = mp.get_context("fork")
    nproc = min(8, os.cpu_count() or 1)
    proofs, nums = [], []
    with pctx.Pool(nproc, maxtasksperchild=1) as pool:
        before = set(baseline().get("proved", []))
        pj = [(prop, sc.name, 330 if quick else 900, tier, REPO, False, None, sc.id in before) for sc in scs if sc.sym and HAVE_PROVER]
        pr = [pool.apply_async(proof_job, (j,)) for j in pj]
        nr = [pool.apply_async(numeric_job, (j,)) for j in jobs]
        hard, hard_proof = t0 + (700 if quick else 7200), t0 + (480 if quick else 6000)
        for j, r in zip(jobs, nr):
            try:
                nums.append(r.get(max(1, hard - time.time())))
            except mp.TimeoutError:
                nums.append(dict(scenario=f"{j[0]}.{j[1]}", error="time limit", trials=0, discarded=0, evals=0, violation=None, seed=j[2],
                                 wall=0, size_hint=j[5]))
        for j, r in zip(pj, pr):
            try:
                proofs.append(r.get(max(1, hard_proof - time.time())))
            except mp.TimeoutError:
                proofs.append(dict(scenario=f"{j[0]}.{j[1]}", status="time limit", obligations=[], wall=0))
        rp = [(p, nm, vals, goal, pool.apply_async(replay_job, ((prop, p["scenario"].split(".", 1)[1], vals),)))
              for p in proofs for nm, vals, goal in p.get("refuted", []) if vals is not None and tame(vals)]
        for p, nm, vals, goal, r in rp:
            try:
                v = r.get(max(1, min(60, hard - time.time())))
            except mp.TimeoutError:
                v = None
            if v:
                p.setdefault("violations", []).append(dict(kind="solver model replayed on the real code", concrete=True, scenario=p["scenario"],
                                                           name=v["name"], obligation=nm, negated_goal=goal, detail=v["detail"],
                                                           inputs=v["inputs"], seed=v["seed"]))
        pool.terminate()
    found = {r["violation"]["scenario"] for r in nums if r.get("violation")}
    for p in proofs:
        ref = p.get("failed", [])
        if ref and p["scenario"] in before and not p.get("violations") and p["scenario"] not in found:
            p["violations"] = [dict(kind="failed obligation, no input found", concrete=False, scenario=p["scenario"], name=ref[0]["name"],
                                    verifier_output=ref[:10], negated_goals=[(r[0], r[2]) for r in p.get("refuted", [])][:5],
                                    note="refuted: the solver has a model of the negated obligation that does not replay; undecided: "
                                         "neither z3 nor cvc5 proves it any more. Discharged within a second on the unchanged tree.")]

    fails, shown = [], set()
    seen_known = set()
    for r in nums:
        v = r.get("violation")
        if not v:
            continue
        hit = [k for k in known if k[0] == v["scenario"] and k[1] == v["name"]]
        if hit:
            seen_known.add(hit[0])
            continue
        if v["scenario"] in shown:
            continue
        shown.add(v["scenario"])
        path = write_replay(prop, dict(property=prop, kind="concrete input", scenario=v["scenario"], obligation=v["name"],
                                       detail=v["detail"], inputs=v["inputs"], seed=r["seed"], trial=v["trial"],
                                       size_hint=r["size_hint"],
                                       how="tools/replay.py <this file>  runs the scenario on these draws against /repo"))
        fails.append((v["scenario"], v["name"], f"VIOLATION property={prop} replay={path}"))
    for p in proofs:
        for v in p.get("violations", []):
            if v["scenario"] in shown:
                continue
            hit = [k for k in known if k[0] == v["scenario"] and k[1] == v["name"]]
            if hit:
                seen_known.add(hit[0])
                continue
            shown.add(v["scenario"])
            path = write_replay(prop, dict(property=prop, **v))
            end = "" if v.get("concrete") else " no-failing-input-found"
            fails.append((v["scenario"], v["name"], f"VIOLATION property={prop} replay={path}{end}"))
    for k in known:
        if k in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k[2]}")
    errors = [r for r in nums if r.get("error")] + [p for p in proofs if p.get("status") == "error"]
    for r in errors:
        print("note:", r["scenario"], r["error"][-1500:], file=sys.stderr)
    ev = evidence.write(prop, tier, seed, scs, nums, proofs, len(fails), time.time() - t0, known=[k for k in known if k in seen_known])
    for s, n, line in fails:
        print(f"{s}: {n}")
        print(line)
    print(f"{prop} {tier}: {ev['summary']}")
    sys.stdout.flush()
    if fails:
        os._exit(1)
    # vacuity: scenarios that never reached an obligation prove nothing; no answer at all is an error
    empty = [sc.id for sc in scs if not any(r["scenario"] == sc.id and r["evals"] for r in nums)
             and not any(p["scenario"] == sc.id and p.get("obligations") for p in proofs)]
    if empty:
        print("note: no obligation reached in " + ", ".join(empty), file=sys.stderr)
    if len(empty) == len(scs):
        print("check error: nothing was decided", file=sys.stderr)
        os._exit(3)
    os._exit(0)


if __name__ == "__main__":
    try:
        main()
    except BaseException as ex:
        if isinstance(ex, SystemExit):
            raise
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
