"""C07: lead transitions of one-dimensional sweeps."""
from vc.ctx import scenario
from vc.loops import invariant

G = "simcats.ideal_csd.geometric."
FNS = [G + "_generate_lead_transition_mask.generate_lead_transition_mask_1d"]


@invariant("simcats.ideal_csd.geometric._generate_lead_transition_mask", "generate_lead_transition_mask_1d", 0, modifies=("csd_result",))
def labels_so_far(ctx, v, k, n, say):
    """after k of the steps: exactly the larger neighbours of these steps are labelled, with their total"""
    tot, ids, size = v.csd_total_occ, v.ids_total_occ_changed, v.csd_total_occ.shape[0]
    done = lambda p: ctx.and_(0 <= p, lambda: p < size - 1, lambda: ctx.not_(tot[p] == tot[p + 1]),
                              lambda: ctx.or_(k >= n, lambda: p < ids[k]))

    def label(j):
        larger = ctx.or_(ctx.and_(done(j - 1), lambda: tot[j - 1] < tot[j]), ctx.and_(done(j), lambda: tot[j + 1] < tot[j]))
        return ctx.and_(ctx.implies(larger, lambda: v.csd_result[j] == tot[j]), ctx.implies(ctx.not_(larger), lambda: v.csd_result[j] == 0))
    say.forall("labels of the steps so far", (size,), label)


@scenario("C07", fns=FNS, weight=2, trials=1500)
def labels_are_the_steps(ctx):
    n = ctx.size("pixels", 1, cap=9)
    tot = ctx.array("totals", (n,), int, lo=0, hi=6)
    first = ctx.array("dot 1", (n,), int, lo=0, hi=48)
    occ = ctx.np.zeros((n, 2))
    occ[:, 0] = first / 8
    occ[:, 1] = tot - first / 8
    keep = ctx.snap(occ)
    f = ctx.mod("simcats.ideal_csd.geometric").generate_lead_transition_mask_1d
    out = ctx.run("mask", f, occ)
    ctx.shape_is("one entry per pixel", out, (n,))

    def right(i):
        larger = ctx.or_(ctx.and_(i > 0, lambda: tot[i - 1] < tot[i]), ctx.and_(i < n - 1, lambda: tot[i + 1] < tot[i]))
        return ctx.and_(ctx.implies(larger, lambda: out[i] == tot[i]), ctx.implies(ctx.not_(larger), lambda: out[i] == 0))
    ctx.forall("a pixel is labelled with its total exactly if a direct neighbour has fewer electrons", (n,), right)
    ctx.same("input occupations", occ, keep)


@scenario("C07", fns=FNS, sym=False, why_num="through the whole ideal CSD", trials=150)
def in_an_ideal_sweep(ctx):
    import numpy as np
    from contracts.geometry import valid_tcts, window
    tcts, rotation = valid_tcts(ctx, 4)
    a, b, c, d = window(ctx, tcts, rotation)
    n = ctx.int("pixels", 2, 40)
    f = ctx.mod("simcats.ideal_csd.geometric").ideal_csd_geometric
    kind = ctx.choice("sweep", ["both", "g1", "g2", "anti"])
    l1, l2 = {"both": ((a, b), (c, d)), "anti": ((a, b), (d, c)), "g1": ((a, b), (c, c)), "g2": ((a, a), (c, d))}[kind]
    out = ctx.call(f, tcts, ctx.vec(l1), ctx.vec(l2), resolution=n, rotation=rotation, lut_entries=500)
    if isinstance(out.exc, IndexError):
        ctx.assume(False)
    occ, lead = ctx.no_exc("ideal CSD", out)
    tot = np.round(occ.sum(axis=1)).astype(int)
    for i in range(n):
        larger = (i > 0 and tot[i - 1] < tot[i]) or (i < n - 1 and tot[i + 1] < tot[i])
        ctx.ensure("labels of the sweep", lead[i] == (tot[i] if larger else 0), f"pixel {i}: {lead} for {tot}")
