"""C21: noise is added on top, keeps the shape, and is skipped when inactive."""
from vc.ctx import scenario

DI = "simcats.distortions."
WH, PK, RT = DI + "_white_noise.", DI + "_pink_noise.", DI + "_random_telegraph_noise."


def sampler(ctx, values):
    base = ctx.mod("simcats.support_functions").ParameterSamplingInterface

    class S(base):
        def __init__(self):
            self.n, self.last = 0, None

        def sample_parameter(self):
            self.last = values[self.n % len(values)]
            self.n += 1
            return self.last

        def last_sample(self):
            return self.last
    return S()


def dims(ctx):
    if ctx.choice("dim", [1, 2]) == 2:
        return (ctx.size("rows", 1), ctx.size("columns", 2))
    return (ctx.size("pixels", 2),)


def call(ctx, d, x, v1, v2):
    return ctx.run("noise", d.noise_function, x, v1, v2)


@scenario("C21", fns=[WH + "SensorResponseWhiteNoise.noise_function", WH + "white_gaussian_noise"], trials=200)
def white_is_added(ctx):
    rng = ctx.rng("rng")
    s = ctx.real("sigma", 0, None)
    cls = ctx.mod("simcats.distortions").SensorResponseWhiteNoise
    smp = sampler(ctx, [s]) if ctx.bool("sampled") else None
    d = cls(sigma=s if smp is None else smp, rng=rng)
    shape = dims(ctx)
    x = ctx.array("x", shape)
    k = ctx.snap(x)
    v = ctx.vec([ctx.real("a"), ctx.real("b")])
    y = call(ctx, d, x, v, v)
    z = rng.draws[-1][1] if rng.draws else None
    ctx.ensure("noise drawn once for all pixels", z is not None and len(rng.draws) == 1)
    ctx.arr_eq("input plus noise", y, shape, lambda *ix: x[ix] + z[ix])
    ctx.ensure("a new array", y is not x)
    ctx.same("input", x, k)
    ctx.ensure("reported strength", ctx.exact(d.latest_sigma, s))
    ctx.ensure("sampled once", smp is None or smp.n == 1)


def streams(ctx, make, kinds):
    """properties over equal random streams: run twice with the same seed"""
    np = ctx.np
    seed = ctx.int("seed", 0, 10 ** 6)
    shape = dims(ctx)
    x, y = ctx.array("x", shape), ctx.array("y", shape)
    s = ctx.choice("strength", [0.0, None, None, None])
    s = ctx.real("sigma", 0, 2) if s is None else s
    f = ctx.choice("factor", [2.0, 0.5, 3.0, 1.5])
    lim = [ctx.vec([0.0, 1.0]), ctx.vec([0.0, 2.0])]
    smp = sampler(ctx, [s, 7.0]) if ctx.bool("sampled") else None
    k = ctx.snap([x, y])
    outs = []
    for arr, st in ((x, s if smp is None else smp), (y, s), (x, f * s)):
        d = make(st, np.random.default_rng(seed))
        r = ctx.run("noise", d.noise_function, arr, *lim)
        ctx.ensure("shape kept", r.shape == shape)
        ctx.ensure("reported strength", d.latest_sigma == (st if not hasattr(st, "n") else s))
        outs.append(r)
    ctx.ensure("sampled once", smp is None or smp.n == 1)
    n0, n1, n2 = outs[0] - x, outs[1] - y, outs[2] - x
    ctx.ensure("noise independent of the input", np.allclose(n0, n1, atol=1e-9))
    ctx.ensure("noise linear in the strength", np.allclose(n2, f * n0, atol=1e-9))
    ctx.ensure("no noise of zero strength", s != 0 or np.array_equal(outs[0], x))
    ctx.ensure("some noise of non-zero strength", s <= 1e-6 or np.abs(n0).max() > 0)
    ctx.ensure("input unchanged", np.array_equal(x, k[0]) and np.array_equal(y, k[1]))
    ctx.ensure("a new array", s == 0 or not np.shares_memory(outs[0], x))
    if smp is not None:
        d = make(smp, np.random.default_rng(seed))
        before = smp.n
        for i in range(3):
            ctx.run("noise", d.noise_function, x, *lim)
            ctx.ensure("sampled anew in every call", smp.n == before + i + 1 and d.latest_sigma == smp.last)


@scenario("C21", fns=[WH + "SensorResponseWhiteNoise.noise_function", WH + "white_gaussian_noise"], sym=False, trials=200,
          why_num="compares runs of the real random generator")
def white(ctx):
    cls = ctx.mod("simcats.distortions").SensorResponseWhiteNoise
    streams(ctx, lambda s, rng: cls(sigma=s, rng=rng), None)


def pink_is_added(ctx, cls):
    """against the assumed contract of colorednoise: arbitrary values which do not depend on the input"""
    rng = ctx.rng("rng")
    s, fmin = ctx.real("sigma", 0), ctx.real("fmin", 0, 0.5)
    smp = sampler(ctx, [s]) if ctx.bool("sampled") else None
    d = cls(sigma=s if smp is None else smp, fmin=fmin, rng=rng)
    shape = dims(ctx)
    x = ctx.array("x", shape)
    k = ctx.snap(x)
    v = ctx.vec([ctx.real("a"), ctx.real("b")])
    y = call(ctx, d, x, v, v)
    ctx.ensure("noise drawn once for all pixels", len(rng.draws) == 1 and rng.draws[0][0] == "pink")
    _, z, exponent, low = rng.draws[0]
    ctx.ensure("pink", ctx.eq(exponent, 1))
    ctx.ensure("lowest frequency", ctx.eq(low, fmin))
    total = shape[0] * shape[1] if len(shape) == 2 else shape[0]
    if len(z.shape) == len(shape):
        ctx.arr_eq("input plus noise", y, shape, lambda *ix: x[ix] + s * z[ix])
    else:
        ctx.shape_is("one value per pixel", z, (total,))
        ctx.arr_eq("input plus noise", y, shape, lambda *ix: ctx.hint(ix[0] * shape[1] + ix[1]) and x[ix] + s * z[ix[0] * shape[1] + ix[1]])
    ctx.ensure("a new array", y is not x)
    ctx.same("input", x, k)
    ctx.ensure("reported strength", ctx.exact(d.latest_sigma, s))
    ctx.ensure("sampled once", smp is None or smp.n == 1)


@scenario("C21", fns=[PK + "SensorPotentialPinkNoise.noise_function", PK + "pink_gaussian_noise"], trials=200)
def pink(ctx):
    cls = ctx.mod("simcats.distortions").SensorPotentialPinkNoise
    if ctx.sym:
        return pink_is_added(ctx, cls)
    fmin = ctx.choice("fmin", [0, 0.1, 0.25])
    streams(ctx, lambda s, rng: cls(sigma=s, fmin=fmin, rng=rng), None)


def rtn(ctx, rng, **k):
    m = ctx.mod("simcats.distortions")
    cls = ctx.choice("class", [m.SensorPotentialRTN, m.SensorResponseRTN])
    return cls(rng=rng, **k)


def activation(ctx, rng, before, ratio, active):
    """one activation draw with the configured probability, reported faithfully"""
    new = rng.draws[before:]
    b = [d for d in new if d[0] == "binomial"]
    u = [d for d in new if d[0] == "uniform"]
    ctx.ensure("activation drawn once", len(b) + len(u) == 1)
    if b:
        ctx.ensure("activation drawn with the configured probability", ctx.and_(b[0][2] == 1, ctx.exact(b[0][3], ratio)))
        ctx.ensure("activation reported", ctx.iff(active, b[0][1] == 1))
    else:
        ctx.ensure("activation reported", ctx.iff(active, u[0][1] < ratio))


@scenario("C21", fns=[RT + "RandomTelegraphNoise.noise_function", RT + "random_telegraph_noise"], trials=300)
def telegraph_activation(ctx):
    rng = ctx.rng("rng")
    ratio = ctx.choice("ratio", [0, 1, 0.5, None])
    ratio = ctx.real("p", 0, 1) if ratio is None else ratio
    scale = ctx.real("scale", 0, 0.3)
    d = rtn(ctx, rng, scale=scale, std=ctx.real("std", 0, 1), height=ctx.real("height"), ratio=ratio)
    shape = dims(ctx) if not ctx.sym else (2,)
    lims = ctx.vec([0.0, 1.0]), ctx.vec([0.5, -1.0])
    for i in range(3 if not ctx.sym else 1):
        x = ctx.array(f"x{i}", shape)
        k = ctx.snap(x)
        n = len(rng.draws)
        y = ctx.run("noise", d.noise_function, x, *lims)
        activation(ctx, rng, n, ratio, d.activated)
        ctx.shape_is("output", y, shape)
        if ctx.case("not active", ctx.not_(d.activated)):
            ctx.arr_eq("input returned when not active", y, shape, lambda *ix: k[ix], tol=0)
        elif not ctx.case("no noise", scale == 0):
            ctx.ensure("a new array when active", y is not x)
        ctx.same("input", x, k)


@scenario("C21", fns=[RT + "RandomTelegraphNoise.noise_function", RT + "random_telegraph_noise"], sym=False, trials=200,
          why_num="compares runs of the real random generator")
def telegraph_independent(ctx):
    np = ctx.np
    seed, shape = ctx.int("seed", 0, 10 ** 6), dims(ctx)
    x, y = ctx.array("x", shape), ctx.array("y", shape)
    k = ctx.snap([x, y])
    lims = ctx.vec([0.0, 1.0]), ctx.vec([0.5, -1.0])
    par = dict(scale=ctx.real("scale", 0, 1), std=ctx.real("std", 0, 1), height=ctx.real("height"), ratio=1)
    m = ctx.mod("simcats.distortions")
    cls = ctx.choice("class", [m.SensorPotentialRTN, m.SensorResponseRTN])
    p = ctx.run("noise", cls(rng=np.random.default_rng(seed), **par).noise_function, x, *lims)
    q = ctx.run("noise", cls(rng=np.random.default_rng(seed), **par).noise_function, y, *lims)
    ctx.ensure("shape kept", p.shape == shape and q.shape == shape)
    ctx.ensure("noise independent of the input", np.allclose(p - x, q - y, atol=1e-9))
    ctx.ensure("input unchanged", np.array_equal(x, k[0]) and np.array_equal(y, k[1]))
