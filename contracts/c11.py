"""C11: the TCT curve."""
import math

import numpy as np
from vc.ctx import scenario
from contracts.geometry import Tct, random_params

G = "simcats.ideal_csd.geometric."
FNS = [G + "_tct_bezier.tct_bezier", G + "_initialize_tct_functions.initialize_tct_functions"]


def points(ctx, t, k):
    """x values left of, in and right of the wave, at bends, joints and one period further"""
    bends = t.bends()
    xs = []
    for i in range(ctx.int("points", 1, 6)):
        w = ctx.choice(f"where{i}", ["wave", "left", "right", "edge", "bend", "bend"])
        u = ctx.real(f"u{i}", 0, 1)
        lo, hi = bends[0][0][0], bends[-1][2][0]
        if w == "wave":
            xs.append(lo + u * (hi - lo))
        elif w == "left":
            xs.append(lo - 3 * u * t.l)
        elif w == "right":
            xs.append(hi + 3 * u * t.l)
        else:
            b = bends[ctx.int(f"bend{i}", 0, len(bends) - 1)]
            xs.append(b[0][0] + (u if w == "bend" else round(u)) * (b[2][0] - b[0][0]))
    return xs


def tolerance(t, lut):
    s = max(abs(t.a), abs(t.b))
    if lut is None:
        return 1e-7
    return s * 2.0 * (t.xr - t.xl) / (lut - 1) + 1e-9


@scenario("C11", fns=FNS, sym=False, why_num="bends come from bezier/sympy", weight=2, trials=400)
def curve_with_lookup_table(ctx):
    f = ctx.mod("simcats.ideal_csd.geometric").tct_bezier
    p = random_params(ctx)
    k = ctx.choice("peaks", [1, 2, 3, 4, 7, 10], [3, 3, 2, 2, 1, 1])
    t = Tct(p, k)
    lut = ctx.choice("lut", [200, 5000, 50000])
    xs = points(ctx, t, k)
    x, par = np.array(xs), np.array(p)
    kx, kp = x.copy(), par.copy()
    y = ctx.run("tct", f, par, x, lut_entries=lut, max_peaks=k)
    ctx.ensure("shape", np.shape(y) == x.shape)
    ctx.ensure("caller's x values unchanged", np.array_equal(x, kx))
    ctx.ensure("parameters unchanged", np.array_equal(par, kp))
    for i, v in enumerate(xs):
        ctx.ensure("curve", abs(y[i] - t.y(v)) <= tolerance(t, lut), f"x={v}: {y[i]} for {t.y(v)}")
        s = ctx.run("scalar", f, par, float(v), lut_entries=lut, max_peaks=k)
        ctx.ensure("scalar evaluation agrees with array evaluation", np.ndim(s) == 0 and abs(s - y[i]) <= tolerance(t, lut))


@scenario("C11", fns=FNS, sym=False, why_num="bends come from bezier/sympy", trials=400)
def periodic_without_peak_limit(ctx):
    f = ctx.mod("simcats.ideal_csd.geometric").tct_bezier
    p = random_params(ctx)
    t = Tct(p, 1)
    lut = ctx.choice("lut", [200, 5000])
    xs = [t.xl + ctx.real(f"u{i}", -3, 3) * (t.l + t.r) for i in range(ctx.int("points", 1, 5))]
    x = np.array(xs)
    y = ctx.run("tct", f, np.array(p), x, lut_entries=lut)
    ctx.ensure("caller's x values unchanged", np.array_equal(x, xs))
    for i, v in enumerate(xs):
        ctx.ensure("periodic curve", abs(y[i] - t.y_periodic(v)) <= tolerance(t, lut), f"x={v}: {y[i]} for {t.y_periodic(v)}")
        s = ctx.run("scalar", f, np.array(p), float(v), lut_entries=lut)
        ctx.ensure("scalar evaluation agrees with array evaluation", abs(s - y[i]) <= tolerance(t, lut))
    if ctx.bool("more periods"):
        y2 = ctx.run("tct", f, np.array(p), x + (t.l + t.r), lut_entries=lut)
        drop = t.l * t.a + t.r * t.b
        for i, v in enumerate(xs):
            ctx.ensure("one period further", abs(y2[i] - y[i] - drop) <= 2 * tolerance(t, lut))


@scenario("C11", fns=FNS, sym=False, why_num="bends come from bezier/sympy", trials=14, slow=True)
def exact_curve(ctx):
    """without a lookup table the bends are solved exactly"""
    f = ctx.mod("simcats.ideal_csd.geometric").tct_bezier
    p = random_params(ctx)
    k = ctx.int("peaks", 1, 3)
    t = Tct(p, k)
    xs = points(ctx, t, k)
    # every bend's interior and both ends of the first one
    xs += [b[0][0] + 0.37 * (b[2][0] - b[0][0]) for b in t.bends()][:3] + [t.xl, t.xr]
    y = ctx.run("tct", f, np.array(p), np.array(xs), max_peaks=k)
    for i, v in enumerate(xs):
        ctx.ensure("curve", abs(y[i] - t.y(v)) <= 1e-6, f"x={v}: {y[i]} for {t.y(v)}")


@scenario("C11", fns=[FNS[1]], trials=100, sym=False, why_num="runs the curve")
def functions_of_a_configuration(ctx):
    """the k-th function is the k-th TCT with k peaks; a single vector is a list of one"""
    from contracts.geometry import valid_tcts
    m = ctx.mod("simcats.ideal_csd.geometric")
    tcts, _ = valid_tcts(ctx, 3)
    first = ctx.choice("first", [1, 2])
    single = ctx.bool("single vector")
    arg = tcts[0] if single else tcts if ctx.bool("list") else np.array(tcts)
    fs = ctx.run("functions", m.initialize_tct_functions, arg, max_peaks=first)
    ctx.ensure("numbers", sorted(fs) == [first + i for i in range(1 if single else 3)])
    for i in range(1 if single else 3):
        t = Tct(tcts[i], first + i)
        xs = points(ctx, t, first + i)
        y = ctx.run("tct", fs[first + i], x_eval=np.array(xs), lut_entries=2000)
        for v, w in zip(xs, y):
            ctx.ensure("curve of that TCT", abs(w - t.y(v)) <= tolerance(t, 2000))


@scenario("C11", fns=FNS[:1], trials=60, sym=False, why_num="runs the curve")
def whole_number_scalars(ctx):
    f = ctx.mod("simcats.ideal_csd.geometric").tct_bezier
    p = random_params(ctx)
    k = ctx.int("peaks", 1, 3)
    x = ctx.int("x", -6, 6)
    y = ctx.run("scalar", f, np.array(p), x, lut_entries=5000, max_peaks=k)
    ctx.ensure("curve at a whole number", abs(y - Tct(p, k).y(x)) <= tolerance(Tct(p, k), 5000))
