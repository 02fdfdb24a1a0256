"""developer helper: tools/plant.py SPEC.py...  -- build /verif/seeded/<id>/ from a spec and confirm it.
A spec defines: ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = "/verif/seeded"
RUN = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/dev/null/none MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''
PRE = "import sys, os, warnings\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter('ignore')\n"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable(wt):
    s = open("/opt/vp/test.sh").read().replace("cd /repo ", f"cd {wt} ")
    p = wt + "-test.sh"
    open(p, "w").write(s)
    r = sh(f"bash {p} {wt}-t.json")
    res = json.load(open(wt + "-t.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    need = set(base["stable"])
    missing = need - set(res["passed"])
    os.remove(p)
    return missing


def main(spec):
    s = runpy.run_path(spec)
    wt = tempfile.mkdtemp(prefix="wt-")
    os.rmdir(wt)
    sh(f"cp -a /repo {wt}")
    try:
        d = os.path.join(HERE, s["ID"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(PRE + s["DEMO"])
        open(d + "/demo.sh", "w").write(RUN)
        os.chmod(d + "/demo.sh", 0o755)
        r0 = sh(f"{d}/demo.sh", cwd=wt)
        for f, a, b in s["EDITS"]:
            t = open(f"{wt}/{f}").read()
            assert t.count(a) == 1, (s["ID"], f, t.count(a), a)
            open(f"{wt}/{f}", "w").write(t.replace(a, b))
        r1 = sh(f"{d}/demo.sh", cwd=wt)
        if r0.returncode != 0 or r1.returncode == 0:
            print(s["ID"], "DEMO WRONG", r0.returncode, r1.returncode, r0.stderr[-800:], r0.stdout[-300:])
            shutil.rmtree(d)
            return
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=wt).stdout)
        json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        # caught by our check?
        env = dict(os.environ, VC_REPO=wt)
        c = sh(f"/verif/check {s['PROP']} quick", env=env)
        out = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print(s["ID"], "demo ok; check rc", c.returncode, out[:1], c.stderr[-300:] if c.returncode not in (0, 1) else "", flush=True)
        if "--notest" not in sys.argv:
            m = stable(wt)
            print(s["ID"], "tests", "ok" if not m else f"FAIL {sorted(m)[:5]} -> removed", flush=True)
            if m:
                shutil.rmtree(d)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        for x in (wt + "-t.json",):
            if os.path.exists(x):
                os.remove(x)


if __name__ == "__main__":
  for a in sys.argv[1:]:
    if not a.startswith("--"):
        main(a)
