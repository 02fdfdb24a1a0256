"""tools/replay.py FILE: re-run the recorded failing draws of one scenario against /repo (exit 1 if they still fail)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def back(v):
    import numpy as np
    if isinstance(v, dict) and set(v) == {"array", "dtype"}:
        return np.array(v["array"], dtype=v["dtype"])
    return v


def main():
    d = json.load(open(sys.argv[1], encoding="utf8"))
    if "inputs" not in d:
        print(json.dumps(d, indent=1))
        return 0
    from vc import num, ctx
    num.setup_process(os.environ.get("VC_REPO", "/repo"))
    prop, name = d["scenario"].split(".", 1)
    sc = num.find(prop, name)
    import time
    r = ctx.run_num(sc, d.get("seed", 0), 1, time.time() + 300, values={k: back(v) for k, v in d["inputs"].items()},
                    size_hint=d.get("size_hint"))
    print(r["violation"] or "does not fail")
    return 1 if r["violation"] else 0


sys.exit(main())
