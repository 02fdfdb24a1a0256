"""C09: reversing a sweep mirrors the result."""
import numpy as np
from vc.ctx import scenario
from contracts.geometry import valid_tcts, window, below, rot

G = "simcats.ideal_csd.geometric."
FNS = [G + "_ideal_csd_geometric.ideal_csd_geometric", G + "_ideal_csd_geometric_class.IdealCSDGeometric.get_csd_data"]


@scenario("C09", fns=FNS, sym=False, why_num="whole ideal CSD", weight=2, trials=150)
def scan_2d(ctx):
    tcts, rotation = valid_tcts(ctx, 4)
    a, b, c, d = window(ctx, tcts, rotation)
    cols, rows = ctx.int("columns", 2, 9), ctx.int("rows", 2, 9)
    csd = ctx.mod("simcats.ideal_csd").IdealCSDGeometric(tcts, rotation=rotation, lut_entries=ctx.choice("lut", [300, 1000]),
                                                         cdf_type=ctx.choice("cdf", ["sigmoid", "cauchy"]))
    res = ctx.np.array([cols, rows])
    out = ctx.call(csd.get_csd_data, ctx.vec([a, b]), ctx.vec([c, d]), res)
    if isinstance(out.exc, IndexError):
        ctx.assume(False)
    occ, lead = ctx.no_exc("forward", out)
    for r1, r2 in ((1, 0), (0, 1), (1, 1)):
        l1, l2 = ctx.vec([b, a] if r1 else [a, b]), ctx.vec([d, c] if r2 else [c, d])
        k1, k2 = l1.copy(), l2.copy()
        o, t = ctx.run("reversed", csd.get_csd_data, l1, l2, res)
        ix = (slice(None, None, -1) if r2 else slice(None), slice(None, None, -1) if r1 else slice(None))
        ctx.ensure("occupations mirrored", o.shape == occ.shape and np.allclose(o, occ[ix], atol=1e-9), f"reversed {r1, r2}")
        ctx.ensure("transitions mirrored", t.shape == lead.shape and np.array_equal(t, lead[ix]), f"reversed {r1, r2}")
        ctx.ensure("caller's voltages unchanged", np.array_equal(l1, k1) and np.array_equal(l2, k2))


@scenario("C09", fns=FNS, sym=False, why_num="whole ideal CSD", weight=2, trials=200)
def sweep_1d(ctx):
    tcts, rotation = valid_tcts(ctx, 4)
    a, b, c, d = window(ctx, tcts, rotation)
    kind = ctx.choice("sweep", ["both", "g1", "g2", "anti"])
    l1, l2 = {"both": ((a, b), (c, d)), "anti": ((a, b), (d, c)), "g1": ((a, b), (c, c)), "g2": ((a, a), (c, d))}[kind]
    n = ctx.int("pixels", 2, 12)
    for i in range(n):
        p = (l1[0] + (l1[1] - l1[0]) * i / (n - 1), l2[0] + (l2[1] - l2[0]) * i / (n - 1))
        lo, hi = below(tcts, *rot(p, -rotation), eps=5e-3)
        ctx.assume(lo == hi)
    csd = ctx.mod("simcats.ideal_csd").IdealCSDGeometric(tcts, rotation=rotation, lut_entries=1000,
                                                         cdf_type=ctx.choice("cdf", ["sigmoid", "cauchy"]))
    res = n if ctx.bool("int") else ctx.np.array([n])
    out = ctx.call(csd.get_csd_data, ctx.vec(l1), ctx.vec(l2), res)
    if isinstance(out.exc, IndexError):
        ctx.assume(False)
    occ, lead = ctx.no_exc("forward", out)
    v1, v2 = ctx.vec(l1[::-1]), ctx.vec(l2[::-1])
    o, t = ctx.run("reversed", csd.get_csd_data, v1, v2, res)
    ctx.ensure("occupations mirrored", o.shape == occ.shape and np.allclose(o, occ[::-1], atol=1e-7))
    ctx.ensure("transitions mirrored", np.array_equal(t, lead[::-1]))
    ctx.ensure("caller's voltages unchanged", tuple(v1) == tuple(l1[::-1]) and tuple(v2) == tuple(l2[::-1]))
