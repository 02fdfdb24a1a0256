"""developer helper: vc/baseline.json = the scenarios that are proved on /repo with time to spare (a later failure of one of their
obligations is reported even if no failing input is found)"""
import json, multiprocessing as mp, os, sys, time
sys.path.insert(0, "/verif")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
LIMIT = 20


def job(a):
    from vc import prove
    try:
        r = prove.prove_scenario(a[0], a[1], 200, "quick", "/repo")
        return r["scenario"], r["status"], round(r["wall"], 1)
    except BaseException as ex:
        return f"{a[0]}.{a[1]}", "error " + repr(ex), 0


if __name__ == "__main__":
    from vc import num
    num.setup_process("/repo")
    jobs = [(f"C{i:02d}", sc.name) for i in range(1, 27) for sc in num.load(f"C{i:02d}") if sc.sym]
    good = []
    with mp.get_context("fork").Pool(int(sys.argv[1]) if len(sys.argv) > 1 else 6, maxtasksperchild=1) as pool:
        for s, st, w in pool.imap_unordered(job, jobs):
            print(s, st, w, flush=True)
            if st == "proved" and w < LIMIT:
                good.append(s)
    json.dump(dict(proved=sorted(good), note="proved on the unchanged tree in less than %d s (tools/mkbaseline.py)" % LIMIT), open("/verif/vc/baseline.json", "w"), indent=1)
