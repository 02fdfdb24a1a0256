"""C24: transition blurring is an averaging along the g1 axis only."""
import math

from vc.ctx import scenario
from contracts.c21 import sampler

TB = "simcats.distortions._transition_blurring."
FF = "simcats.support_functions._fermi_filter1d."
CLS = {"gauss": "OccupationTransitionBlurringGaussian", "fermi": "OccupationTransitionBlurringFermiDirac"}
FNS = [TB + c + ".noise_function" for c in CLS.values()] + [FF + "fermi_filter1d", FF + "fermi_dirac_derivative"]


def weights(kind, s):
    """normalised weights of the documented kernel of width s pixels, cut at four widths"""
    r = int(4 * s + 0.5) if kind == "gauss" else round(4.0 * s)
    if kind == "gauss":
        w = [math.exp(-0.5 * (i / s) ** 2) for i in range(-r, r + 1)]
    else:
        w = [1 / math.cosh(min(abs(i / s), 300)) ** 2 for i in range(-r, r + 1)]
    t = sum(w)
    return [v / t for v in w]


def blur(kind, row, s):
    """weighted average with mirrored borders"""
    w, n = weights(kind, s), len(row)
    r = len(w) // 2
    out = []
    for i in range(n):
        t = 0.0
        for j in range(-r, r + 1):
            q = (i + j) % (2 * n)
            t += w[j + r] * row[q if q < n else 2 * n - 1 - q]
        out.append(t)
    return out


def occs(ctx):
    if ctx.choice("dim", [1, 2]) == 2:
        shape = (ctx.size("rows", 1), ctx.size("columns", 2))
    else:
        shape = (ctx.size("pixels", 2),)
    kind = ctx.choice("occupations", ["arbitrary", "constant", "total"])
    occ = ctx.array("occ", shape + (2,), lo=0, hi=4)
    if kind == "constant":
        occ[...] = [ctx.real("c0", 0, 4), ctx.real("c1", 0, 4)]
    if kind == "total":
        occ[..., 1] = 3 - occ[..., 0]
    return shape, kind, occ


def limits(ctx, shape):
    w, h = ctx.real("g1 width", 0.1, 3) * ctx.choice("g1 way", [1, -1]), ctx.real("g2 width", 0.1, 3) * ctx.choice("g2 way", [1, -1])
    fixed = ctx.choice("fixed", ["none", "g1", "g2"]) if len(shape) == 1 else "none"
    a, b = ctx.real("g1 from", -1, 1), ctx.real("g2 from", -1, 1)
    v1 = ctx.vec([a, a if fixed == "g1" else a + w])
    v2 = ctx.vec([b, b if fixed == "g2" else b + h])
    W, H, n = abs(v1[1] - v1[0]), abs(v2[1] - v2[0]), shape[-1]
    if len(shape) == 2:
        return v1, v2, n / W
    return v1, v2, max(n / W if W else 0, n / H if H else 0)


def proved_blurring(ctx):
    """the filters by their contracts: along one axis every pixel becomes a weighted sum of its line, with weights that depend on the
    filter, the width in pixels, the length of the line and the two positions only"""
    kind = ctx.choice("kernel", ["gauss", "fermi"])
    cls = getattr(ctx.mod("simcats.distortions"), CLS[kind])
    first, second = ctx.real("sigma"), ctx.real("second sigma")
    smp = sampler(ctx, [first, second]) if ctx.bool("sampled") else None
    d = cls(smp if smp is not None else first)
    if kind == "fermi":
        ctx.modular("simcats.distortions._transition_blurring.fermi_filter1d",
                    lambda input, sigma, axis=-1, mode="reflect", cval=0.0, radius=None: ctx.filtered("fermi", input, sigma, axis)
                    if mode == "reflect" and radius is None else ctx.beyond("filter with other options"))
    last, calls = None, 0
    dim = ctx.choice("dim", [1, 2])
    freezes = ctx.choice("frozen", [(False, True), (False, False)])
    for freeze in freezes:
        shape = (ctx.size("rows", 1), ctx.size("columns", 2)) if dim == 2 else (ctx.size("pixels", 2),)
        occ, lead = ctx.array("occ", shape + (2,)), ctx.array("lead", shape, dtype=int)
        (a, b), (e, f) = (ctx.real("g1 from"), ctx.real("g1 to")), (ctx.real("g2 from"), ctx.real("g2 to"))
        fixed = ctx.choice("fixed", ["none", "g1", "g2"] if dim == 1 else ["none", "g2"])
        if freeze:
            fixed = "none" if fixed == "none" else ctx.assume(False)
        ctx.assume(ctx.eq(a, b) if fixed == "g1" else ctx.not_(ctx.eq(a, b)))
        ctx.assume(ctx.eq(e, f) if fixed == "g2" else ctx.not_(ctx.eq(e, f)))
        v1, v2 = ctx.vec([a, b]), ctx.vec([e, f])
        W, H, n = ctx.abs(b - a), ctx.abs(f - e), shape[-1]
        dens = n / W if dim == 2 or fixed == "g2" else n / H if fixed == "g1" else ctx.max2(n / W, n / H)
        old = occ.copy()
        k = ctx.snap([lead, v1, v2])
        o, t = ctx.run("blurring", d.noise_function, occ, lead, v1, v2, None, freeze)
        if not freeze:
            last = second if smp is not None and calls else first
            calls += 1
        ctx.ensure("sampled once per unfrozen call, never when frozen", smp is None or smp.n == calls)
        ctx.ensure("reported width", ctx.exact(d.latest_sigma, last))
        ctx.ensure("in place", o is occ and t is lead)
        ctx.same("lead transitions and ranges", [lead, v1, v2], k)
        if ctx.case("non-positive width", last <= 0):
            ctx.arr_eq("nothing changes for a non-positive width", occ, shape + (2,), lambda *i: old[i])
            continue
        want = ctx.filtered(kind, old, last * dens, axis=len(shape) - 1)
        ctx.shape_is("occupations", occ, shape + (2,))
        for dot in range(2):
            ctx.arr_eq("averaged with the documented width along g1", occ[..., dot], shape, lambda *i: want[i + (dot,)])


@scenario("C24", fns=FNS, trials=500)
def blurring(ctx):
    if ctx.sym:
        return proved_blurring(ctx)
    np = ctx.np
    kind = ctx.choice("kernel", ["gauss", "fermi"])
    cls = getattr(ctx.mod("simcats.distortions"), CLS[kind])
    values = [ctx.choice("no width", [0.0, -0.1, None, None, None, None]) for _ in range(3)]
    values = [ctx.real("sigma", 0.005, 0.6) if v is None else v for v in values]
    smp = sampler(ctx, values) if ctx.bool("sampled") else None
    d = cls(smp if smp is not None else values[0])
    last, calls = None, 0
    for step in range(3):
        shape, what, occ = occs(ctx)
        v1, v2, dens = limits(ctx, shape)
        lead = ctx.array("lead", shape, dtype=int, lo=0, hi=5)
        freeze = step > 0 and ctx.bool("freeze")
        k = ctx.snap([occ, lead, v1, v2])
        o, t = ctx.run("blurring", d.noise_function, occ, lead, v1, v2, None, freeze)
        if not freeze:
            last = values[calls] if smp is not None else values[0]
            calls += 1
        if smp is not None:
            ctx.ensure("sampled once per unfrozen call, never when frozen", smp.n == calls)
        ctx.ensure("reported width", d.latest_sigma == last)
        ctx.ensure("in place", o is occ and t is lead)
        ctx.ensure("lead transitions untouched", np.array_equal(lead, k[1]))
        ctx.ensure("ranges unchanged", np.array_equal(v1, k[2]) and np.array_equal(v2, k[3]))
        if last <= 0:
            ctx.ensure("nothing changes for a non-positive width", np.array_equal(occ, k[0]))
            continue
        if what == "constant":
            ctx.ensure("constants preserved", np.allclose(occ, k[0], atol=1e-9))
        if what == "total":
            ctx.ensure("common total kept", np.allclose(occ.sum(axis=-1), 3, atol=1e-9))
        for dot in range(2):
            rows, old = (occ[..., dot], k[0][..., dot]) if len(shape) == 2 else (occ[None, :, dot], k[0][None, :, dot])
            for r in range(len(rows)):
                ctx.ensure("inside the range of the row", rows[r].min() >= old[r].min() - 1e-9 and rows[r].max() <= old[r].max() + 1e-9)
                want = blur(kind, old[r].tolist(), last * dens)
                ctx.ensure("averaged with the documented width along g1", np.allclose(rows[r], want, atol=1e-7),
                           f"dot {dot}, row {r}: got {rows[r]}, expected {want}, width {last * dens}")


def proved_kernel(ctx, f):
    """what is handed to scipy.ndimage.convolve1d"""
    s = ctx.real("sigma", 0, lo_open=True)
    x = ctx.array("x", (ctx.size("rows", 1), ctx.size("columns", 1)) if ctx.bool("2D") else (ctx.size("pixels", 1),))
    axis = ctx.choice("axis", [None, 0, -1])
    mode, radius = ctx.choice("mode", [None, "nearest", "constant"]), ctx.choice("radius", [None, "given"])
    radius = ctx.int("radius", 0) if radius == "given" else None
    cval = ctx.real("cval") if mode == "constant" else 0.0
    kw = dict(axis=axis, mode=mode, radius=radius, cval=cval if mode == "constant" else None)
    k = ctx.snap(x)
    y = ctx.run("filter", f, x, s, **{n: v for n, v in kw.items() if v is not None})
    calls = ctx.ghost.get("convolutions", [])
    ctx.ensure("one convolution", len(calls) == 1)
    a, w, ax, md, cv, res = calls[0]
    ctx.sums_positive()
    ctx.same("input", x, k)
    ctx.same("filtered", a, x)
    ctx.same("result", y, res)
    ctx.ensure("axis", ax == (-1 if axis is None else axis))
    ctx.ensure("borders", md == (mode or "reflect") and ctx.eq(cv, cval))
    r = ctx.round(4 * s) if radius is None else radius
    ctx.shape_is("weights on both sides of the pixel", w, (2 * r + 1,))
    u = lambda i: 1 / ctx.cosh((i - r) / s) ** 2
    ctx.ensure("normalised", ctx.eq(ctx.sum(2 * r + 1, lambda i: w[i]), 1))
    ctx.forall("positive", (2 * r + 1,), lambda i: w[i] > 0)
    ctx.forall("documented shape", (2 * r + 1,), lambda i: ctx.eq(w[i], w[r] * u(i)))


@scenario("C24", fns=[FF + "fermi_filter1d", FF + "fermi_dirac_derivative"], trials=200)
def fermi_kernel(ctx):
    """weights are read off the response to an impulse"""
    np = ctx.np
    f = ctx.get(FF + "fermi_filter1d")
    if ctx.sym:
        return proved_kernel(ctx, f)
    s = ctx.real("sigma", 0.05, 4)
    n = 81
    x = np.zeros(n)
    x[40] = 1.0
    k = x.copy()
    y = ctx.run("filter", f, x, s)
    ctx.ensure("normalised", abs(y.sum() - 1) < 1e-9)
    ctx.ensure("non-negative", y.min() >= 0)
    ctx.ensure("symmetric", np.allclose(y, y[::-1], atol=1e-12))
    ctx.ensure("falling off", all(y[40 + i] >= y[40 + i + 1] - 1e-15 for i in range(39)))
    r = round(4 * s)
    want = [1 / math.cosh(min(abs(i / s), 300)) ** 2 if abs(i) <= r else 0.0 for i in range(-40, 41)]
    ctx.ensure("documented shape", np.allclose(y, np.array(want) / sum(want), atol=1e-9))
    ctx.ensure("input unchanged", np.array_equal(x, k))
    rows = ctx.array("rows", (3, 12))
    a = ctx.run("filter rows", f, rows, s)
    b = ctx.run("filter columns", f, rows.T, s, axis=0)
    ctx.ensure("other axis", np.allclose(a, b.T, atol=1e-12))
    ctx.ensure("rows filtered separately", all(np.allclose(a[i], f(rows[i], s), atol=1e-12) for i in range(3)))
