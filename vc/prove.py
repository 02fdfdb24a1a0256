"""Proof attempt for one scenario: explore all paths of the scenario on the current source, discharge every obligation."""
import os
import sys
import time
import traceback

import z3

from . import core, solve, arr


class Prover:
    def __init__(self, eng, sc, replay):
        self.eng, self.sc = eng, sc
        self.replay = replay
        self.obls = []           # Obligation
        self.completed = 0
        self.refuted = []
        self.exceptions = []
        self.violations = []
        self.replays = 0

    def saw_exception(self, ex):
        tb = traceback.extract_tb(ex.__traceback__)
        self.exceptions.append((ex, [(f.filename, f.lineno, f.name) for f in tb[-9:]]))

    def obligation(self, ctx, name, e, detail=""):
        eng = self.eng
        o = core.Obligation(name, eng.n_paths)
        self.obls.append(o)
        t = time.time()
        e2 = z3.simplify(e)
        if z3.is_true(e2):
            o.status, o.backend = "discharged", "evaluation"
            return
        if eng.deadline and time.time() > eng.deadline:
            raise core.Budget()
        st, model, be = eng.prove(e, ms=eng.goal_ms or 6000, want_model=True)
        o.time = time.time() - t
        if st == "proved":
            o.status, o.backend = "discharged", be
            return
        o.status = "refuted" if st == "refuted" else "undecided"
        o.detail = str(detail)[:300]
        if VERBOSE:
            print("   ", o.status, name, detail, "goal:", str(z3.simplify(e))[:600])
            for a, p in self.exceptions[-1:]:
                print("      last exception", repr(a), p)
        if st == "refuted" and model is not None:
            self.try_model(ctx, name, model, e)

    def try_model(self, ctx, name, model, goal):
        if self.replays >= 8 or self.replay is None or sum(r[0] == name for r in self.refuted) >= 2:
            return
        self.replays += 1
        self.refuted.append((name, None, str(z3.simplify(goal))[:2000]))
        eng = self.eng
        try:
            model = solve.small_model(eng.pc + list(eng.keyguards), eng.facts, goal, eng.index_terms) or model
        except z3.Z3Exception:
            pass
        vals = {}
        try:
            for k, f in ctx.inputs.items():
                if f is not None:
                    vals[k] = f(model)
        except (ValueError, core.Unsupported, z3.Z3Exception, OverflowError):
            return
        self.refuted[-1] = (name, vals, self.refuted[-1][2])


VERBOSE = False


def run_mode(sc, prop, mode_sizes, deadline, goal_ms, verbose=False, max_paths=20000):
    from .symctx import SymCtx
    eng = core.Engine(sc.id, deadline=deadline, max_paths=max_paths, verbose=verbose)
    eng.goal_ms = goal_ms
    core.set_engine(eng)
    pr = Prover(eng, sc, True)

    def once():
        ctx = SymCtx(eng, mode_sizes, pr)
        n0 = len(pr.obls)
        try:
            sc.fn(ctx)
        finally:
            ctx.undo()
        if len(pr.obls) > n0:
            pr.completed += 1
    eng.explore(once)
    core.set_engine(None)
    return eng, pr


def executed_functions(repo):
    """record which functions of the tree under check run (sys.monitoring, once per code object)"""
    seen = set()
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "vc")
    except ValueError:
        return seen
    root = os.path.join(os.path.realpath(repo), "simcats") + os.sep

    def start(code, off):
        fn = os.path.realpath(code.co_filename)
        if fn.startswith(root):
            m = fn[len(os.path.realpath(repo)) + 1:].replace(os.sep, ".")[:-3]
            q = code.co_qualname
            if q != "<module>" and "<" not in q:
                seen.add(m + "." + q)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def prove_scenario(prop, name, seconds, tier, repo, verbose=False, modes=None, proved_before=False):
    """see check.py for the result"""
    global VERBOSE
    VERBOSE = verbose
    t0 = time.time()
    sys.setrecursionlimit(20000)
    import resource
    from . import xform
    xform.install(repo)
    import importlib
    importlib.import_module("contracts." + prop.lower())
    from . import ctx as C
    sc = [s for s in C.REGISTRY[prop] if s.name == name][0]
    seen = executed_functions(repo)
    deadline = t0 + seconds
    out = None
    tried = []
    for label, sizes, share in modes or [("unbounded", None, 0.6), ("sizes up to 2", 2, 1.0)]:
        left = deadline - time.time()
        if left < 2:
            break
        eng, pr = run_mode(sc, prop, sizes, time.time() + left * share, 3000 if tier == "quick" else 20000, verbose)
        ok = not eng.unsupported and pr.completed and pr.obls and all(o.status == "discharged" for o in pr.obls)
        tried.append((label, eng, pr, ok))
        if ok:
            break
        if proved_before and sizes is None and tier == "quick" and not eng.unsupported and any(o.status == "undecided" for o in pr.obls):
            # this scenario is discharged on the unchanged tree: let the solver think before calling the obligation failed
            eng, pr = run_mode(sc, prop, sizes, time.time() + (deadline - time.time()) * 0.6, 20000, verbose)
            ok = not eng.unsupported and pr.completed and pr.obls and all(o.status == "discharged" for o in pr.obls)
            tried[-1] = (label, eng, pr, ok)
            if ok:
                break
        if sizes is None and not needs_sizes(pr, eng):
            break
    # the strongest reading that went through, else the first one
    good = [t for t in tried if t[3]]
    label, eng, pr, ok = good[0] if good else tried[0]
    status = "proved" if ok and label == "unbounded" else "bounded" if ok else "undecided"
    obls = {}
    for o in pr.obls:
        obls.setdefault((o.name), []).append(o)
    res_obl = [dict(name=o.name, path=o.path, status=o.status, by=o.backend, detail=o.detail) for o in pr.obls]
    reason = None
    if status != "proved":
        un = sorted(set(tried[0][1].unsupported))
        bad = sorted({o.name for o in tried[0][2].obls if o.status != "discharged"})
        reason = "; ".join(un[:4] + ["not discharged: " + b for b in bad[:4]]) or "no obligation reached"
    failed = []
    if status == "undecided" and tried and not any(t[1].unsupported for t in tried):
        failed = [dict(name=o.name, path=o.path, status=o.status, detail=o.detail) for t in tried for o in t[2].obls
                  if o.status in ("refuted", "undecided")]
    return dict(failed=failed, scenario=sc.id, status=status, mode=label, paths=eng.n_paths, completed_paths=pr.completed, obligations=res_obl,
                solver_s=sum(t[1].stats.time for t in tried), queries=sum(t[1].stats.queries for t in tried), reason=reason,
                functions=sorted(seen), assumptions=sorted(eng.assumption_notes), wall=time.time() - t0,
                refuted=[r for t in tried for r in t[2].refuted])


def needs_sizes(pr, eng):
    return True
