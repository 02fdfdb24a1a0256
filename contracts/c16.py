"""C16: logistic barrier and rise functions invert and hit their percentages."""
from vc.ctx import scenario

GL = "simcats.support_functions._generalized_logistic_function."
BG = "simcats.sensor.barrier_function._barrier_function_glf.BarrierFunctionGLF."
BM = "simcats.sensor.barrier_function._barrier_function_multi_glf.BarrierFunctionMultiGLF."
RI = "simcats.sensor._sensor_rise_glf.SensorRiseGLF."


def params(ctx, name="", den=True):
    """(A, K, B, nu, Q, C, offset): valid domain Q > 0, nu > 0, C > 0, B != 0"""
    return [ctx.real(name + "asymptote left"), ctx.real(name + "asymptote right"), ctx.real(name + "growth rate", -5, 5, nz=True),
            ctx.real(name + "asymmetry", 0.2, 4), ctx.real(name + "shape factor", 0.1, 4),
            ctx.real(name + "denominator offset", 0.2, 3) if den else 1, ctx.real(name + "offset", -3, 3)]


def ref(ctx, x, p):
    A, K, B, nu, Q, C, o = p
    return A + (K - A) / ctx.power(C + Q * ctx.exp(-B * (x - o)), 1 / nu)


def kw(p):
    return dict(asymptote_left=p[0], asymptote_right=p[1], growth_rate=p[2], asymmetry=p[3], shape_factor=p[4],
                denominator_offset=p[5], offset=p[6])


def glf_args(ctx, p, x, as_kw):
    return ((x,), kw(p)) if as_kw else ((x, *p), {})


@scenario("C16", fns=[GL + "glf", GL + "inverse_glf"], trials=400)
def inverse(ctx):
    f, g = ctx.get(GL + "glf"), ctx.get(GL + "inverse_glf")
    p = params(ctx)
    A, K, B, nu, Q, C, o = p
    ctx.assume(ctx.not_(A == K))
    x = ctx.real("x", -3, 3)
    if not ctx.sym:
        ctx.assume(abs(K - A) > 1e-3 * max(1, abs(A)))
    ctx.assume(ctx.and_(B * (x - o) <= 12, B * (x - o) >= -12))
    k = ctx.bool("keywords")
    a, d = glf_args(ctx, p, x, k)
    y = ctx.run("glf", f, *a, **d)
    ctx.ensure_eq("value", y, ref(ctx, x, p))
    if not ctx.sym:      # well-conditioned in floats
        ctx.assume(abs(y - A) > 1e-6 * max(1, abs(A), abs(K)) and Q * ctx.exp(-B * (x - o)) > 1e-6 * C)
    a, d = glf_args(ctx, p, y, k)
    b = ctx.run("inverse", g, *a, **d)
    ctx.ensure("inverse of the function", ctx.eq(b, x, 1e-4))
    # function of the inverse: for values strictly between the left asymptote and the right end
    s = ctx.real("s", 0.01, 0.99)
    top = 1 / ctx.power(C, 1 / nu)
    v = A + (K - A) * top * s
    a, d = glf_args(ctx, p, v, k)
    u = ctx.run("inverse", g, *a, **d)
    a, d = glf_args(ctx, p, u, k)
    w = ctx.run("glf", f, *a, **d)
    ctx.ensure("function of the inverse", ctx.eq(w, v, 1e-6))


@scenario("C16", fns=[GL + "glf"], trials=300)
def bounds_and_monotony(ctx):
    f = ctx.get(GL + "glf")
    p = params(ctx)
    A, K, B, nu, Q, C, o = p
    n = ctx.size("potentials", 1)
    x = ctx.array("x", (n,))
    k = ctx.snap(x)
    y = ctx.run("glf", f, x, *p)
    ctx.arr_eq("value", y, (n,), lambda i: ref(ctx, x[i], p))
    end = A + (K - A) / ctx.power(C, 1 / nu)
    lo, hi = ctx.ite(A < end, A, end), ctx.ite(A < end, end, A)
    ctx.forall("between the asymptotes", (n,), lambda i: ctx.and_(ctx.le(lo, y[i]), ctx.le(y[i], hi)))
    up = (K - A) * B
    ctx.forall("monotone", (n, n), lambda i, j: ctx.implies(
        x[i] <= x[j], lambda: ctx.and_(ctx.implies(up >= 0, lambda: ctx.le(y[i], y[j], 1e-12)),
                                       ctx.implies(up <= 0, lambda: ctx.le(y[j], y[i], 1e-12)))))
    ctx.same("potential", x, k)


@scenario("C16", fns=[BG + "pinch_off", BG + "fully_conductive", BG + "get_value", GL + "glf", GL + "inverse_glf"], trials=400)
def barrier_percentages(ctx):
    p = params(ctx, den=False)
    A, K, B, nu, Q, C, o = p
    ctx.assume(ctx.not_(A == K))
    if not ctx.sym:
        ctx.assume(abs(K - A) > 1e-3 * max(1, abs(A)))
    a, b = ctx.real("pinch off percentage", 0.005, 0.9), ctx.real("fully conductive percentage", 0.1, 0.995)
    s = ctx.mod("simcats.sensor.barrier_function").BarrierFunctionGLF(
        pinch_off_percentage=a, fully_conductive_percentage=b, asymptote_left=A, asymptote_right=K, growth_rate=B,
        asymmetry=nu, shape_factor=Q, offset=o, **({} if ctx.bool("default denominator") else dict(denominator_offset=C)))
    lo, hi = ctx.ite(A < K, A, K), ctx.ite(A < K, K, A)
    v = ctx.run("value at pinch off", s.get_value, ctx.run("pinch off", lambda: s.pinch_off))
    ctx.ensure("pinch-off percentage", ctx.eq(v - lo, a * (hi - lo), 1e-6))
    v = ctx.run("value when fully conductive", s.get_value, ctx.run("fully conductive", lambda: s.fully_conductive))
    ctx.ensure("fully conductive percentage", ctx.eq(v - lo, b * (hi - lo), 1e-6))
    n = ctx.size("potentials", 1)
    x = ctx.array("x", (n,))
    k = ctx.snap(x)
    y = ctx.run("values", s.get_value, x)
    ctx.arr_eq("value", y, (n,), lambda i: ref(ctx, x[i], p))
    ctx.same("potential", x, k)


@scenario("C16", fns=[RI + "fully_conductive", RI + "sensor_function", GL + "glf", GL + "inverse_glf"], trials=400)
def rise_percentage(ctx):
    p = params(ctx, den=False)
    A, K, B, nu, Q, C, o = p
    ctx.assume(ctx.not_(A == K))
    if not ctx.sym:
        ctx.assume(abs(K - A) > 1e-3 * max(1, abs(A)))
    b = ctx.real("fully conductive percentage", 0.01, 0.995)
    s = ctx.mod("simcats.sensor").SensorRiseGLF(mu0=o, asymptote_left=A, asymptote_right=K, growth_rate=B, asymmetry=nu,
                                                shape_factor=Q, fully_conductive_percentage=b)
    at = ctx.real("shifted to")
    n = ctx.size("potentials", 1)
    x = ctx.array("x", (n,))
    k = ctx.snap(x)
    v = ctx.run("rise", s.sensor_function, at, at)
    ctx.ensure("percentage at the fully conductive point", ctx.eq(v - A, b * (K - A), 1e-6))
    fc = ctx.run("fully conductive", lambda: s.fully_conductive)
    f = ctx.get(GL + "glf")
    v = ctx.run("unshifted", f, fc, *p)
    ctx.ensure("percentage at the own fully conductive potential", ctx.eq(v - A, b * (K - A), 1e-6))
    y = ctx.run("rise", s.sensor_function, x, at)
    # the rise is the GLF moved so that its fully conductive point is at `at`
    ctx.arr_eq("shape of the rise", y, (n,), lambda i: ref(ctx, x[i] - at + fc, p), 1e-6)
    ctx.same("potential", x, k)


@scenario("C16", fns=[BG + "asymmetry", RI + "asymmetry"], trials=200)
def asymmetries(ctx):
    nu = ctx.real("asymmetry", near=(0,))
    old = 0.7
    B = ctx.mod("simcats.sensor.barrier_function").BarrierFunctionGLF
    R = ctx.mod("simcats.sensor").SensorRiseGLF
    if ctx.bool("rise"):
        make = lambda a: R(mu0=0.0, asymptote_left=0.0, asymptote_right=1.0, growth_rate=1.0, asymmetry=a, shape_factor=1.0)
    else:
        make = lambda a: B(pinch_off_percentage=0.1, fully_conductive_percentage=0.9, asymptote_left=0.0, asymptote_right=1.0,
                           growth_rate=1.0, asymmetry=a, shape_factor=1.0)
    s = ctx.run("construction", make, old)
    o1, o2 = ctx.call(make, nu), ctx.call(setattr, s, "asymmetry", nu)
    if ctx.case("not positive", nu <= 0):
        ctx.raises("construction with a non-positive asymmetry", o1)
        ctx.raises("assignment of a non-positive asymmetry", o2)
        ctx.ensure("asymmetry kept", s.asymmetry == old)
    else:
        ctx.no_exc("construction", o1)
        ctx.no_exc("assignment", o2)
        ctx.ensure("asymmetry stored", s.asymmetry == nu)


@scenario("C16", fns=[GL + "multi_glf", BM + "get_value", BM + "params"], trials=200)
def multi(ctx):
    m = ctx.choice("terms", [1, 2, 3])
    ps = [params(ctx, f"t{i} ") for i in range(m)]
    flat = [v for p in ps for v in p]
    n = ctx.size("potentials", 1)
    x = ctx.array("x", (n,))
    k = ctx.snap(x)
    y = ctx.run("multi", ctx.get(GL + "multi_glf"), x, *flat)
    ctx.arr_eq("sum of the terms", y, (n,), lambda i: sum(ref(ctx, x[i], p) for p in ps))
    M = ctx.mod("simcats.sensor.barrier_function").BarrierFunctionMultiGLF
    a, b = ctx.real("pinch off"), ctx.real("fully conductive")
    s = ctx.run("barrier", M, a, b, *flat)
    y = ctx.run("barrier value", s.get_value, x)
    ctx.arr_eq("barrier is the sum of the terms", y, (n,), lambda i: sum(ref(ctx, x[i], p) for p in ps))
    ctx.ensure("given potentials kept", ctx.and_(s.pinch_off == a, s.fully_conductive == b))
    cut = ctx.choice("missing", [1, 2, 3, 4, 5, 6])
    ctx.raises("incomplete parameters", ctx.call(ctx.get(GL + "multi_glf"), x, *flat[:-cut]), AssertionError)
    ctx.raises("incomplete barrier parameters", ctx.call(M, a, b, *flat[:-cut]))
    ctx.raises("incomplete parameters assigned", ctx.call(setattr, s, "params", tuple(flat[:-cut])))
    y = ctx.run("barrier value", s.get_value, x)
    ctx.arr_eq("barrier kept", y, (n,), lambda i: sum(ref(ctx, x[i], p) for p in ps))
    ctx.same("potential", x, k)
