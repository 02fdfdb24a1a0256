"""C15: Coulomb peaks have their height, centre and width, and add up."""
from vc.ctx import scenario

SE = "simcats.sensor."
GA, LO = SE + "_sensor_peak_gaussian.", SE + "_sensor_peak_lorentzian."


def peak(ctx, kind, name="peak", **k):
    m0, w = ctx.real(name + " mu0"), ctx.real(name + " width", 1e-3, None, **k)
    h, o = ctx.real(name + " height"), ctx.real(name + " offset")
    S = ctx.mod("simcats.sensor")
    if kind == "gauss":
        return S.SensorPeakGaussian(mu0=m0, sigma=w, height=h, offset=o), (m0, w, h, o)
    return S.SensorPeakLorentzian(mu0=m0, gamma=w, height=h, offset=o), (m0, w, h, o)


def shape_of(ctx, kind, x, p):
    m0, w, h, o = p
    if kind == "gauss":
        t = (x - m0) / w
        return o + h * ctx.exp(-(t * t))
    return o + h * (w * w) / (w * w + (x - m0) * (x - m0))


def one_peak(ctx, kind):
    s, p = peak(ctx, kind)
    m0, w, h, o = p
    n = ctx.size("potentials", 1)
    x = ctx.array("mu", (n,))
    k = ctx.snap(x)
    y = ctx.run("peak", s.sensor_function, x)
    ctx.arr_eq("value", y, (n,), lambda i: shape_of(ctx, kind, x[i], p))
    lo, hi = ctx.ite(h < 0, o + h, o), ctx.ite(h < 0, o, o + h)
    ctx.forall("between offset and offset plus height", (n,), lambda i: ctx.and_(ctx.le(lo, y[i]), ctx.le(y[i], hi)))
    c = ctx.run("centre", s.sensor_function, ctx.vec([m0]))
    ctx.ensure_eq("offset plus height at the centre", c[0], o + h)
    sym = ctx.run("mirrored", s.sensor_function, 2 * m0 - x)
    ctx.arr_eq("symmetric", sym, (n,), lambda i: y[i])
    one = ctx.run("one width away", s.sensor_function, ctx.vec([m0 + w, m0 - w]))
    for i in range(2):
        if kind == "gauss":
            ctx.ensure_eq("1/e of the height one sigma away", one[i] - o, h * ctx.exp(-1))
        else:
            ctx.ensure_eq("half the height one gamma away", one[i] - o, h / 2)
    d = lambda i: ctx.ite(x[i] < m0, m0 - x[i], x[i] - m0)
    far = 20 if kind == "gauss" else 1e5       # rounding swallows the tails

    def falls(i, j):
        if not ctx.sym and not (d(i) + 1e-5 * w < d(j) < far * w and abs(h) > 1e-3 * abs(o)):
            return True
        return ctx.implies(ctx.and_(d(i) < d(j), h > 0), lambda: falls_off(ctx, y[j], y[i], h, o))
    ctx.forall("falls off away from the centre", (n, n), falls)
    ctx.same("potential", x, k)


def falls_off(ctx, a, b, h, o):
    if ctx.sym:
        return a < b
    return a < b or ctx.eq((a - o) / h, (b - o) / h, 1e-12)


@scenario("C15", fns=[GA + "sensor_response_gauss", GA + "SensorPeakGaussian.sensor_function"], trials=300)
def gaussian(ctx):
    one_peak(ctx, "gauss")


@scenario("C15", fns=[LO + "sensor_response_lorentz", LO + "SensorPeakLorentzian.sensor_function"], trials=300)
def lorentzian(ctx):
    one_peak(ctx, "lorentz")


@scenario("C15", fns=[GA + "sensor_response_gauss", LO + "sensor_response_lorentz"], trials=100)
def scalars(ctx):
    """scalar potentials are evaluated like arrays"""
    kind = ctx.choice("kind", ["gauss", "lorentz"])
    s, p = peak(ctx, kind)
    x = ctx.real("x")
    ctx.ensure_eq("scalar value", ctx.run("scalar", s.sensor_function, x), shape_of(ctx, kind, x, p))


@scenario("C15", fns=[GA + "SensorPeakGaussian.sigma", LO + "SensorPeakLorentzian.gamma"], trials=200)
def widths(ctx):
    kind = ctx.choice("kind", ["gauss", "lorentz"])
    name = "sigma" if kind == "gauss" else "gamma"
    s, p = peak(ctx, kind)
    w = ctx.real("new width", near=(0,))
    out = ctx.call(setattr, s, name, w)
    S = ctx.mod("simcats.sensor")
    new = ctx.call(S.SensorPeakGaussian if kind == "gauss" else S.SensorPeakLorentzian, **{"mu0": 1.0, name: w})
    if ctx.case("not positive", w <= 0):
        ctx.raises("width that is not positive", out)
        ctx.raises("peak of a width that is not positive", new)
        ctx.ensure("width kept", getattr(s, name) == p[1])
    else:
        ctx.no_exc("assignment", out)
        ctx.no_exc("construction", new)
        ctx.ensure("width stored", getattr(s, name) == w)
    ctx.ensure("everything else kept", ctx.and_(s.mu0 == p[0], s.height == p[2], s.offset == p[3]))


def peaks(ctx, n):
    out = [peak(ctx, ctx.choice(f"kind{i}", ["gauss", "lorentz"]) if n < 3 or not ctx.sym else ["gauss", "lorentz"][i % 2],
                f"peak{i}") for i in range(n)]
    return [o[0] for o in out], [(("gauss" if hasattr(o[0], "sigma") else "lorentz"), o[1]) for o in out]


@scenario("C15", fns=[SE + "_sensor_generic.SensorGeneric.sensor_response"], trials=200)
def sum_of_peaks(ctx):
    n = ctx.choice("peaks", [None, 0, 1, 2, 3])
    dim = ctx.choice("dim", [1, 2])
    shape = (ctx.size("rows", 1), ctx.size("columns", 1)) if dim == 2 else (ctx.size("pixels", 1),)
    mu = ctx.array("mu", shape)
    k = ctx.snap(mu)
    objs, ps = peaks(ctx, n or 0)
    arg = None if n is None else objs[0] if n == 1 and ctx.bool("single peak given without a list") else objs
    s = ctx.mod("simcats.sensor").SensorGeneric(sensor_peak_function=arg)
    if n == 0:
        ctx.call(s.sensor_response, mu)       # nothing is promised for an empty list
        ctx.same("potential", mu, k)
        return
    r = ctx.run("response", s.sensor_response, mu)
    if n is None:
        ctx.arr_eq("potential itself without peaks", r, shape, lambda *ix: mu[ix])
    else:
        ctx.arr_eq("sum of the peaks", r, shape, lambda *ix: sum(shape_of(ctx, kd, mu[ix], p) for kd, p in ps))
    ctx.same("potential", mu, k)
