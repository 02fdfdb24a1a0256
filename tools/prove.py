"""developer helper: proof attempt of scenarios.  tools/prove.py C14[,C10] [scenario|-] [seconds] [-v] [-u]"""
import sys, time, os, multiprocessing as mp
sys.path.insert(0, "/verif")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
REPO = os.environ.get("VC_REPO", "/repo")
args = [a for a in sys.argv[1:] if not a.startswith("-") or a == "-"]
verbose = "-v" in sys.argv
modes = [("unbounded", None, 1.0)] if "-u" in sys.argv else [("sizes up to 2", 2, 1.0)] if "-b" in sys.argv else None
if "-p" in sys.argv: modes=[("sizes 1", 1, 1.0)]

def one(a):
    from vc import prove
    p, s, sec = a
    try:
        return prove.prove_scenario(p, s, sec, "quick", REPO, verbose, modes)
    except BaseException:
        import traceback
        return dict(scenario=f"{p}.{s}", status="error", reason=traceback.format_exc()[-3000:], obligations=[], wall=0, paths=0, refuted=[])

if __name__ == "__main__":
    import warnings; warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    from vc import num
    num.setup_process(REPO)
    jobs = []
    sec = int(args[2]) if len(args) > 2 else 60
    for p in args[0].split(","):
        for sc in num.load(p):
            if len(args) > 1 and args[1] != "-" and args[1] != sc.name: continue
            if sc.sym or (len(args) > 1 and args[1] != "-"): jobs.append((p, sc.name, sec))
    with mp.get_context("fork").Pool(1 if verbose else 7, maxtasksperchild=1) as pool:
        for r in pool.imap(one, jobs):
            ob = r["obligations"]; ok = sum(o["status"] == "discharged" for o in ob)
            print(f"{r['scenario']:45s} {r['status']:9s} {r.get('mode','')} paths {r.get('paths')} obl {ok}/{len(ob)} {r['wall']:.1f}s solver {r.get('solver_s',0):.1f} refuted {len(r.get('refuted',[]))} | {str(r.get('reason'))[:1500 if r['status']=='error' else 260]}", flush=True)
