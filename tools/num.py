"""developer helper: numeric reading only.  tools/num.py C01 [scenario] [trials]"""
import sys, time, importlib
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo")
from vc import ctx as C
for p in sys.argv[1].split(","):
    importlib.import_module("contracts." + p.lower())
    for sc in C.REGISTRY[p]:
        if len(sys.argv) > 2 and sys.argv[2] not in (sc.name, "-"): continue
        t = time.time()
        r = C.run_num(sc, 1, int(sys.argv[3]) if len(sys.argv) > 3 else sc.trials or 300, time.time() + 60)
        v = r["violation"]
        print(f"{sc.id:40s} {r['trials']} ok, {r['discarded']} disc, {r['evals']} ev, {time.time()-t:.1f}s", "VIOL" if v else "")
        if v:
            print("   ", v["name"], v["detail"][-600:]); print("   ", str(v["inputs"])[:700])
