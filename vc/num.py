"""Numeric reading in worker processes: deterministic streams, chunks of trials, replay."""
import importlib
import os
import sys
import time


def setup_process(repo):
    """make every unseeded numpy generator deterministic, then put the code under check on the path"""
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import random
    import numpy as np
    if repo not in sys.path:
        sys.path.insert(0, repo)
    random.seed(0)
    np.random.seed(0)
    orig = np.random.default_rng
    count = [0]

    def default_rng(seed=None):
        if seed is None:
            count[0] += 1
            return orig(10 ** 6 + count[0])
        return orig(seed)
    if not getattr(np.random.default_rng, "vc", False):
        default_rng.vc = True
        np.random.default_rng = default_rng
    warnings.showwarning = lambda *a, **k: None
    import simcats
    if os.path.realpath(os.path.dirname(os.path.dirname(simcats.__file__))) != os.path.realpath(repo):
        raise RuntimeError(f"simcats comes from {simcats.__file__}, not from {repo}")


def load(prop):
    from . import ctx
    importlib.import_module("contracts." + prop.lower())
    return ctx.REGISTRY[prop]


def find(prop, name):
    return [s for s in load(prop) if s.name == name][0]


def run_chunk(args):
    """(prop, scenario, seed, trials, seconds) -> result of run_num"""
    prop, name, seed, trials, seconds, size_hint = args
    from . import ctx
    sc = find(prop, name)
    t = time.time()
    r = ctx.run_num(sc, seed, trials, t + seconds, size_hint=size_hint)
    r.update(scenario=sc.id, seed=seed, wall=time.time() - t, size_hint=size_hint)
    return r
