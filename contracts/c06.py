"""C06: ideal occupations."""
import numpy as np
from vc.ctx import scenario
from contracts.geometry import valid_tcts, window, below, split, rot, Tct

G = "simcats.ideal_csd.geometric."
FNS = [G + "_get_electron_occupation.get_electron_occupation", G + "_get_electron_occupation._occupation_func",
       G + "_ideal_csd_geometric.ideal_csd_geometric"]


def setup(ctx, n=4):
    tcts, rotation = valid_tcts(ctx, n)
    cdf = ctx.choice("cdf", ["sigmoid", "cauchy"])
    given = ctx.choice("gamma factor", [None, 1.0, 3.5])
    gamma = given if given is not None else {"sigmoid": 2.2, "cauchy": 6.15}[cdf]
    return tcts, rotation, cdf, given, gamma


def check_pixel(ctx, tcts, rotation, occ, total, p, cdf, gamma):
    ctx.ensure("occupations are non-negative", occ[0] >= -1e-9 and occ[1] >= -1e-9, f"{occ} at {p}")
    ctx.ensure("occupations do not exceed the total", occ[0] <= total + 1e-9 and occ[1] <= total + 1e-9)
    if total == 0:
        ctx.ensure("empty dots where the total is zero", occ[0] == 0 and occ[1] == 0)
        return
    e = split(tcts, rotation, total, p, cdf, gamma)
    ctx.ensure("occupation of dot 1", ctx.eq(occ[0], e[0], 1e-6), f"{occ} for {e}")
    ctx.ensure("occupation of dot 2", ctx.eq(occ[1], e[1], 1e-6), f"{occ} for {e}")


@scenario("C06", fns=FNS, sym=False, why_num="composition with the curve evaluation", weight=2, trials=60)
def sweep_1d(ctx):
    tcts, rotation, cdf, given, gamma = setup(ctx)
    a, b, c, d = window(ctx, tcts, rotation)
    kind = ctx.choice("sweep", ["both", "g1", "g2", "anti"])
    l1, l2 = {"both": ((a, b), (c, d)), "anti": ((a, b), (d, c)), "g1": ((a, b), (c, c)), "g2": ((a, a), (c, d))}[kind]
    if ctx.bool("reverse"):
        l1, l2 = l1[::-1], l2[::-1]
    n = ctx.int("pixels", 2, 12)
    f = ctx.mod("simcats.ideal_csd.geometric").ideal_csd_geometric
    out = ctx.call(f, tcts, ctx.vec(l1), ctx.vec(l2), resolution=n if ctx.bool("int") else ctx.np.array([n]), rotation=rotation,
                   lut_entries=ctx.choice("lut", [1000, 20001]), cdf_type=cdf, cdf_gamma_factor=given)
    pts = [(l1[0] + (l1[1] - l1[0]) * i / (n - 1), l2[0] + (l2[1] - l2[0]) * i / (n - 1)) for i in range(n)]
    counts = [below(tcts, *rot(p, -rotation), eps=2e-3) for p in pts]
    if any(hi == len(tcts) for lo, hi in counts):
        if any(lo == len(tcts) for lo, hi in counts):
            ctx.raises("window above the last TCT", out, IndexError)
        return
    occ, lead = ctx.no_exc("ideal CSD", out)
    ctx.ensure("shape", occ.shape == (n, 2))
    for i, p in enumerate(pts):
        total = int(round(occ[i, 0] + occ[i, 1]))
        ctx.ensure("integer total", abs(occ[i, 0] + occ[i, 1] - total) < 1e-9)
        ctx.ensure("total is the number of TCTs at or below the pixel", counts[i][0] <= total <= counts[i][1],
                   f"{total} not in {counts[i]} at {p}")
        check_pixel(ctx, tcts, rotation, occ[i], total, p, cdf, gamma)


def regions(mask):
    """4-connected components of the zero pixels"""
    lab = -np.ones(mask.shape, int)
    k = 0
    for s in np.ndindex(*mask.shape):
        if mask[s] == 0 and lab[s] < 0:
            st = [s]
            lab[s] = k
            while st:
                i, j = st.pop()
                for q in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                    if 0 <= q[0] < mask.shape[0] and 0 <= q[1] < mask.shape[1] and mask[q] == 0 and lab[q] < 0:
                        lab[q] = k
                        st.append(q)
            k += 1
    return lab, k


def check_2d(ctx, tcts, rotation, occ, lead, l1, l2, cdf, gamma):
    rows, cols = lead.shape
    v1 = np.linspace(l1[0], l1[1], cols)
    v2 = np.linspace(l2[0], l2[1], rows)
    lab, k = regions(np.asarray(lead))
    tot = np.round(occ[..., 0] + occ[..., 1]).astype(int)
    ctx.ensure("integer totals", np.all(np.abs(occ[..., 0] + occ[..., 1] - tot) < 1e-9))
    counts = {}
    for i in range(rows):
        for j in range(cols):
            p = (v1[j], v2[i])
            if lead[i, j]:
                ctx.ensure("total on a transition is its label", tot[i, j] == lead[i, j])
            else:
                lo, hi = below(tcts, *rot(p, -rotation), eps=2e-3)
                c = counts.setdefault(lab[i, j], [99, -1, tot[i, j]])
                c[0], c[1] = min(c[0], lo), max(c[1], hi)
                ctx.ensure("one total per connected region", c[2] == tot[i, j])
            check_pixel(ctx, tcts, rotation, occ[i, j], tot[i, j], p, cdf, gamma)
    for lo, hi, t in counts.values():
        ctx.ensure("total of a region is the number of TCTs at or below it", lo <= t <= hi, f"{t} not in {lo}..{hi}")


@scenario("C06", fns=FNS, sym=False, why_num="connected regions come from diplib", weight=2, trials=40)
def scan_2d(ctx):
    tcts, rotation, cdf, given, gamma = setup(ctx)
    a, b, c, d = window(ctx, tcts, rotation)
    l1 = (a, b) if not ctx.bool("reverse g1") else (b, a)
    l2 = (c, d) if not ctx.bool("reverse g2") else (d, c)
    cols, rows = ctx.int("columns", 2, 14), ctx.int("rows", 2, 14)
    f = ctx.mod("simcats.ideal_csd.geometric").ideal_csd_geometric
    out = ctx.call(f, tcts, ctx.vec(l1), ctx.vec(l2), resolution=ctx.np.array([cols, rows]), rotation=rotation,
                   lut_entries=1000, cdf_type=cdf, cdf_gamma_factor=given)
    if isinstance(out.exc, IndexError):
        top = Tct(tcts[-1], len(tcts))
        cs = [rot((x, y), -rotation) for x in (a, b) for y in (c, d)]
        reach = any(y + 1e-2 + (b - a) / cols + (d - c) / rows > top.y(x) for x, y in grid_pts(a, b, c, d, rotation))
        ctx.ensure("IndexError only if the window reaches the last TCT", reach)
        return
    occ, lead = ctx.no_exc("ideal CSD", out)
    ctx.ensure("shapes", occ.shape == (rows, cols, 2) and lead.shape == (rows, cols))
    check_2d(ctx, tcts, rotation, occ, lead, l1, l2, cdf, gamma)


def grid_pts(a, b, c, d, rotation, n=40):
    for x in np.linspace(a, b, n):
        for y in np.linspace(c, d, n):
            yield rot((x, y), -rotation)


@scenario("C06", fns=FNS[:2], sym=False, why_num="connected regions come from diplib", trials=60)
def arbitrary_mask(ctx):
    """get_electron_occupation on any mask, whatever the order of the TCT dictionary"""
    m = ctx.mod("simcats.ideal_csd.geometric")
    tcts, rotation, cdf, given, gamma = setup(ctx)
    a, b, c, d = window(ctx, tcts, rotation)
    cols, rows = ctx.int("columns", 2, 8), ctx.int("rows", 2, 8)
    mask = ctx.array("mask", (rows, cols), float, values=[0, 0, 0, 1, 2, 3])
    keep = mask.copy()
    fs = m.initialize_tct_functions(tcts, max_peaks=1)
    if ctx.bool("shuffle"):
        fs = dict(sorted(fs.items(), key=lambda kv: (kv[0] * 7) % 5))
    bez = m.calculate_all_bezier_anchors(tcts, max_peaks=1, rotation=rotation)
    out = ctx.call(m.get_electron_occupation, mask, ctx.vec([a, b]), ctx.vec([c, d]), bez, fs, rotation=rotation,
                   lut_entries=1000, cdf_type=cdf, cdf_gamma_factor=given)
    if isinstance(out.exc, IndexError):
        ctx.ensure("IndexError only above the last TCT", any(
            below(tcts, *p, eps=2e-3)[1] == len(tcts) for p in grid_pts(a, b, c, d, rotation)))
        return
    occ = ctx.no_exc("occupations", out)
    ctx.ensure("mask unchanged", np.array_equal(mask, keep))
    check_2d(ctx, tcts, rotation, occ, mask, (a, b), (c, d), cdf, gamma)


@scenario("C06", fns=[FNS[1]], trials=300)
def split_sums_to_total(ctx):
    """the occupation function: a pure function of the signed distance, summing exactly to the total"""
    mod = ctx.mod("simcats.ideal_csd.geometric._get_electron_occupation")
    if not hasattr(mod, "_occupation_func"):
        return
    k = ctx.choice("number of interdot transitions", [1, 2, 3])
    cdf = ctx.choice("cdf", ["sigmoid", "cauchy"])
    n = ctx.size("points", 1)
    pts = ctx.array("points", (n, 2))
    a, b = [ctx.real("ax"), ctx.real("ay")], [ctx.real("bx"), ctx.real("by")]
    ctx.assume(ctx.or_(ctx.not_(a[0] == b[0]), ctx.not_(a[1] == b[1])))
    ctx.assume((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 > 1e-6)
    par, spec = [], []
    for i in range(k):
        mu = ctx.real(f"centre{i}")
        g = ctx.real(f"width{i}", 1e-3, None)
        par += [mu, g]
        spec.append((mu, g))
    line = ctx.np.array([[a], [b]])
    out = ctx.run("_occupation_func", ctx.helper(mod, "_occupation_func"), pts, line, par, cdf)
    ln = ctx.sqrt((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2)

    def occ1(i):
        d = -((b[0] - a[0]) * (pts[i, 1] - a[1]) - (b[1] - a[1]) * (pts[i, 0] - a[0])) / ln
        t = 0
        for mu, g in spec:
            t = t + (0.5 * (1 + ctx.tanh((d - mu) / g)) if cdf == "sigmoid" else ctx.atan((d - mu) / g) / ctx.pi + 0.5)
        return t
    ctx.forall("dots add up to the total", (n,), lambda i: ctx.eq(out[0][i] + out[1][i], k, 1e-12))
    ctx.forall("dot 1 non-negative, at most the total", (n,), lambda i: ctx.and_(ctx.le(0, out[0][i]), ctx.le(out[0][i], k)))
    ctx.forall("dot 2 non-negative, at most the total", (n,), lambda i: ctx.and_(ctx.le(0, out[1][i]), ctx.le(out[1][i], k)))
    ctx.forall("dot 1 is the sum of broadened steps at the signed distance", (n,), lambda i: ctx.eq(out[0][i], occ1(i), 1e-7))


@scenario("C06", fns=[FNS[0]], trials=10, sym=False, why_num="concrete rejected request")
def unknown_broadening_rejected(ctx):
    tcts, rotation, _, _, _ = setup(ctx)
    a, b, c, d = window(ctx, tcts, rotation)
    f = ctx.mod("simcats.ideal_csd.geometric").ideal_csd_geometric
    out = ctx.call(f, tcts, ctx.vec([a, b]), ctx.vec([c, d]), resolution=4, rotation=rotation, lut_entries=100, cdf_type="step")
    ctx.raises("unknown cdf_type", out)
