"""C08: lead transitions of two-dimensional scans."""
import math

import numpy as np
from vc.ctx import scenario
from contracts.geometry import valid_tcts, window, rot

G = "simcats.ideal_csd.geometric."
FNS = [G + "_generate_lead_transition_mask.generate_lead_transition_mask_2d"]


def check_mask(ctx, out, pts, order, l1, l2, rows, cols):
    """pts: TCT value -> list of sampled (g1, g2) points; order: drawing order"""
    s1, s2 = (l1[1] - l1[0]) / (cols - 1), (l2[1] - l2[0]) / (rows - 1)
    hit = {}
    for k in order:
        for p, q in pts[k]:
            u, v = (p - l1[0]) / s1, (q - l2[0]) / s2
            win = 0 <= u <= cols - 1 and 0 <= v <= rows - 1
            for du in (-1e-6, 1e-6):           # a point on the border between two pixels may count for either
                for dv in (-1e-6, 1e-6):
                    j, i = math.floor(u + du + 0.5), math.floor(v + dv + 0.5)
                    if 0 <= i < rows and 0 <= j < cols:
                        sure = win and abs(u + 0.5 - round(u + 0.5)) > 1e-6 and abs(v + 0.5 - round(v + 0.5)) > 1e-6
                        hit.setdefault((i, j), {}).setdefault(k, False)
                        hit[(i, j)][k] |= sure
    for ix in np.ndindex(rows, cols):
        h = hit.get(ix, {})
        lab = int(out[ix])
        if lab == 0:
            ctx.ensure("a pixel holding a sampled point of a curve is labelled", not any(h.values()), f"pixel {ix}: {h}")
            continue
        ctx.ensure("a labelled pixel holds a sampled point of that TCT", lab in h, f"pixel {ix} labelled {lab}, holds {h}")
        sure = [k for k in order if h.get(k)]
        if sure:
            ctx.ensure("a later TCT overwrites an earlier one", order.index(lab) >= order.index(sure[-1]),
                       f"pixel {ix} labelled {lab}, holds {h}")


def check_sampling(ctx, xs, l1, l2, rows, cols, rotation):
    corners = [rot((x, y), -rotation)[0] for x in l1 for y in l2]
    xs = sorted(xs)
    ctx.ensure("the sampled points span the whole window", xs[0] <= min(corners) + 1e-9 and xs[-1] >= max(corners) - 1e-9)
    gap = max(b - a for a, b in zip(xs, xs[1:]))
    ctx.ensure("curves are sampled at least twice per pixel", gap <= 0.5 * max(
        (l1[1] - l1[0]) / (cols - 1), (l2[1] - l2[0]) / (rows - 1)) * (1 + 1e-9), f"gap {gap}")


@scenario("C08", fns=FNS, weight=2, trials=250)
def arbitrary_curves(ctx):
    """any TCT curves, in or outside the window"""
    f = ctx.mod("simcats.ideal_csd.geometric").generate_lead_transition_mask_2d
    tall = ctx.choice("aspect", [(7, 7), (5, 60), (60, 5)], [6, 1, 1])
    cols, rows = ctx.size("columns", 2, cap=tall[0]), ctx.size("rows", 2, cap=tall[1])
    l1 = [ctx.real("g1 lo", -2, 2)]
    l1.append(l1[0] + ctx.real("g1 width", 0.01, 3))
    l2 = [ctx.real("g2 lo", -2, 2)]
    l2.append(l2[0] + ctx.real("g2 width", 0.01, 3))
    rotation = ctx.real("rotation", -3.2, 3.2, near=(-math.pi / 4,))
    n = ctx.choice("TCTs", [1, 2, 3])
    seen = {}
    order = list(ctx.choice("dictionary order", [(1, 2, 3), (2, 1, 3), (3, 1, 2)]))[:n] if n == 3 else list(range(1, n + 1))
    fs = {}
    for k in order:
        g = ctx.func(f"curve{k}")
        shift = ctx.real(f"shift{k}", -2, 2)

        def t(x_eval, lut_entries=None, k=k, g=g, shift=shift):
            y = g(x_eval) + shift
            seen.setdefault(k, []).append((ctx.snap(x_eval), y))
            return y
        fs[k] = t
    if ctx.sym:
        return symbolic(ctx, f, l1, l2, rows, cols, rotation, fs, seen, order)
    csd = np.zeros((rows, cols))
    out = ctx.run("mask", f, csd, ctx.vec(l1), ctx.vec(l2), fs, rotation=rotation, lut_entries=ctx.choice("lut", [None, 100]))
    ctx.ensure("shape", out.shape == (rows, cols))
    ctx.ensure("input image unchanged", not csd.any())
    pts, xs = {}, []
    for k in order:
        pts[k] = []
        mine = []
        for x, y in seen.get(k, []):
            for a, b in zip(np.ravel(x), np.ravel(y)):
                pts[k].append(rot((float(a), float(b)), rotation))
                mine.append(float(a))
        ctx.ensure("every TCT is sampled", len(mine) > 1)
        check_sampling(ctx, mine, l1, l2, rows, cols, rotation)
    check_mask(ctx, out, pts, order, l1, l2, rows, cols)


def symbolic(ctx, *a):
    ctx.assume(False)


@scenario("C08", fns=FNS, sym=False, why_num="real curves", trials=60)
def real_curves(ctx):
    """the TCTs of a valid configuration: every point of a curve inside the window is near a labelled pixel"""
    from contracts.geometry import Tct
    m = ctx.mod("simcats.ideal_csd.geometric")
    tcts, rotation = valid_tcts(ctx, 3)
    a, b, c, d = window(ctx, tcts, rotation)
    cols, rows = ctx.int("columns", 2, 20), ctx.int("rows", 2, 20)
    out = ctx.run("mask", m.generate_lead_transition_mask_2d, np.zeros((rows, cols)), ctx.vec([a, b]), ctx.vec([c, d]),
                  m.initialize_tct_functions(tcts, max_peaks=1), rotation=rotation, lut_entries=2000)
    s1, s2 = (b - a) / (cols - 1), (d - c) / (rows - 1)
    ctx.ensure("labels are TCT numbers", set(np.unique(out).tolist()) <= set(range(len(tcts) + 1)))
    curves = [Tct(p, k) for k, p in enumerate(tcts, 1)]
    # labelled pixels lie near the curve they name
    for i, j in zip(*np.nonzero(out)):
        t = curves[int(out[i, j]) - 1]
        p = (a + j * s1, c + i * s2)
        x0, y0 = rot(p, -rotation)
        r = math.hypot(s1, s2) / 2
        near = False
        for x in np.linspace(x0 - 1.01 * r, x0 + 1.01 * r, 60):
            q = rot((x, t.y(x)), rotation)
            if abs(q[0] - p[0]) <= 0.5 * s1 + 0.06 * r + 3e-3 and abs(q[1] - p[1]) <= 0.5 * s2 + 0.06 * r + 3e-3:
                near = True
                break
        ctx.ensure("a labelled pixel lies within half a pixel of its curve", near, f"pixel {(i, j)} label {out[i, j]}")
    # each curve inside the window is drawn
    corners = [rot((x, y), -rotation)[0] for x in (a, b) for y in (c, d)]
    for k, t in enumerate(curves, 1):
        for x in np.linspace(min(corners), max(corners), 80):
            q = rot((x, t.y(x)), rotation)
            if a <= q[0] <= b and c <= q[1] <= d:
                u, v = (q[0] - a) / s1, (q[1] - c) / s2
                blk = out[max(0, math.floor(v + 0.5) - 1):math.floor(v + 0.5) + 2, max(0, math.floor(u + 0.5) - 1):math.floor(u + 0.5) + 2]
                ctx.ensure("a curve inside the window is drawn", (blk != 0).any(), f"TCT {k} at {q}")
