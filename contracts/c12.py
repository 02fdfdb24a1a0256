"""C12: triple point anchors."""
import math

import numpy as np
from vc.ctx import scenario
from contracts.geometry import Tct, random_params

G = "simcats.ideal_csd.geometric."
FNS = [G + "_calculate_all_bezier_anchors.calculate_all_bezier_anchors"]


def sym_params(ctx, name):
    l, r = ctx.real(name + " left length", 0.1, 3, lo_open=True), ctx.real(name + " right length", 0.1, 3, lo_open=True)
    a, b = ctx.real(name + " left slope", 0.05, 1), ctx.real(name + " right slope", -1, -0.05)
    cx, cy = ctx.real(name + " cx", -2, 2), ctx.real(name + " cy", -2, 2)
    e1, e2 = ctx.real(name + " e1", 0, l / 2), ctx.real(name + " e2", 0, r / 2)
    return [l, r, a, b, cx - e1, cy - e1 * a, cx + e2, cy + e2 * b], (l, r, a, b, cx, cy, e1, e2)


@scenario("C12", fns=FNS, weight=2, trials=500)
def anchors(ctx):
    f = ctx.mod("simcats.ideal_csd.geometric").calculate_all_bezier_anchors
    n = ctx.choice("TCTs", [1, 2, 3])
    first = ctx.choice("first number", [1, 2])
    single = n == 1 and ctx.bool("single vector")
    pars, specs = [], []
    for i in range(n):
        p, s = sym_params(ctx, f"tct{i}")
        pars.append(ctx.vec(p))
        specs.append(s)
    rotation = ctx.real("rotation", -3.2, 3.2)
    arg = pars[0] if single else pars if ctx.bool("list") else ctx.np.array(pars)
    keep = ctx.snap(arg)
    out = ctx.run("anchors", f, arg, max_peaks=first, rotation=rotation)
    ctx.same("TCT parameters", arg, keep)
    ctx.ensure("one table per TCT, numbered from the first", sorted(out) == [first + i for i in range(n)])
    c, s = ctx.cos(rotation), ctx.sin(rotation)

    def is_rot(name, got, x, y):
        ctx.ensure(name, ctx.and_(ctx.eq(got[0], c * x - s * y), ctx.eq(got[1], s * x + c * y)))
    for i in range(n):
        k = first + i
        l, r, a, b, cx, cy, e1, e2 = specs[i]
        tab = out[k]
        ctx.shape_is(f"table {i}", tab, (2 * k - 1, 3, 2))
        for j in range(2 * k - 1):
            if j % 2 == 0:
                is_rot("left end", tab[j, 0], cx - e1, cy - e1 * a)
                is_rot("control point", tab[j, 1], cx, cy)
                is_rot("right end", tab[j, 2], cx + e2, cy + e2 * b)
                cx, cy = cx + r, cy + r * b
            else:
                is_rot("left end", tab[j, 0], cx - e2, cy - e2 * b)
                is_rot("control point", tab[j, 1], cx, cy)
                is_rot("right end", tab[j, 2], cx + e1, cy + e1 * a)
                cx, cy = cx + l, cy + l * a


@scenario("C12", fns=FNS, sym=False, why_num="runs the curve", trials=80)
def ends_lie_on_the_curve(ctx):
    m = ctx.mod("simcats.ideal_csd.geometric")
    p = random_params(ctx)
    k = ctx.int("peaks", 1, 4)
    rotation = ctx.real("rotation", -3.2, 3.2)
    tab = ctx.run("anchors", m.calculate_all_bezier_anchors, np.array(p), max_peaks=k, rotation=rotation)[k]
    c, s = math.cos(-rotation), math.sin(-rotation)
    t = Tct(p, k)
    for j in range(2 * k - 1):
        for e in (0, 2):
            v = tab[j, e]
            x, y = c * v[0] - s * v[1], s * v[0] + c * v[1]
            g = ctx.run("tct", m.tct_bezier, np.array(p), float(x), lut_entries=2000, max_peaks=k)
            ctx.ensure("bend ends lie on the curve", abs(g - y) <= 2e-3 * (t.xr - t.xl) + 1e-8, f"bend {j}")
