"""developer helper: tools/stab.py ID... -- run the stable tests on copies of /repo with seeded/<ID> applied"""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, "/verif/tools"); sys.argv, ids = sys.argv[:1], sys.argv[1:]
import plant
for i in ids or sorted(os.listdir("/verif/seeded")):
    wt = tempfile.mkdtemp(prefix="wt-"); os.rmdir(wt)
    subprocess.run(f"cp -a /repo {wt} && git -C {wt} apply /verif/seeded/{i}/patch.diff", shell=True, check=True)
    try:
        m = plant.stable(wt)
        print(i, "ok" if not m else f"FAIL {sorted(m)[:4]}", flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        if os.path.exists(wt + "-t.json"): os.remove(wt + "-t.json")
