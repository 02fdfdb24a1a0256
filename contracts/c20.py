"""C20: sampled parameters always stay inside their range."""
from vc.ctx import scenario

PS = "simcats.support_functions._parameter_sampling."
KINDS = {"normal": "NormalSamplingRange", "uniform": "UniformSamplingRange", "lognormal": "LogNormalSamplingRange",
         "exponential": "ExponentialSamplingRange"}


def build(ctx, kind):
    """(sampler or outcome, lo, hi, reduced width or None)"""
    rng = ctx.rng("rng")
    w = ctx.real("total width", 0.5, 3)
    if kind == "lognormal":
        lo = ctx.real("low end", 0, 1.5)
    elif kind == "exponential":
        lo = ctx.real("low end", -3, 3)
    else:
        lo = ctx.real("low end", -1.5, 1)
    hi = lo + w
    red = None
    if ctx.bool("reduced range"):
        red = ctx.real("sampling range", 0.2, 4, near=(w,)) if not ctx.sym else ctx.real("sampling range", 0, None, lo_open=True)
    rg = (lo, hi)
    if kind == "exponential" and ctx.bool("descending"):
        rg = (hi, lo)
    kw = {}
    if kind == "normal":
        kw = dict(std=ctx.real("std", 0.3, 2))
        if ctx.bool("mean given"):
            kw["mean"] = ctx.real("mean", -2, 2)
    elif kind == "lognormal":
        if ctx.bool("parameters given"):
            kw = dict(mean=ctx.real("mean", -1, 1), sigma=ctx.real("sigma", 0.3, 2))
    elif kind == "exponential":
        kw = dict(scale=ctx.real("scale", 0.1, 3))
    cls = getattr(ctx.mod("simcats.support_functions"), KINDS[kind])
    s = ctx.run("construction", cls, total_range=rg, sampling_range=red, rng=rng, **kw)
    return s, lo, hi, red, rng


def within(ctx, kind):
    s, lo, hi, red, rng = build(ctx, kind)
    rng = None if ctx.sym else rng
    ctx.ensure("no sample before the first draw", s.last_sample() is None)
    seen = []
    for i in range(ctx.choice("draws", [1, 2, 6]) if not ctx.sym else 2):
        if rng is not None and kind != "uniform":
            rng.far = ctx.choice("unlucky draws first", [0, 3, 200, 20000], [30, 6, 2, 1])
        v = ctx.run("draw", s.sample_parameter)
        ctx.ensure("inside the total range", ctx.and_(ctx.le(lo, v), ctx.le(v, hi)))
        ctx.ensure("last sample is the value drawn", ctx.exact(s.last_sample(), v))
        seen.append(v)
    if red is not None:
        for a in seen:
            for b in seen:
                ctx.ensure("all values inside one sub-range of the given width",
                           ctx.or_(red >= hi - lo, lambda: ctx.le(a - b, red)))
        # the sub-range has exactly the given width: shown by the range the object reports
        sub = range_of(s)
        if sub is not None:
            a, b = ctx.min2(sub[0], sub[1]), ctx.max2(sub[0], sub[1])
            if ctx.case("no real reduction", red >= hi - lo):
                ctx.ensure("total range in force", ctx.and_(ctx.eq(a, lo), ctx.eq(b, hi)))
            else:
                ctx.ensure("sub-range has exactly the given width", ctx.eq(b - a, red, 1e-9))
                ctx.ensure("sub-range inside the total range", ctx.and_(ctx.le(lo, a), ctx.le(b, hi)))
                for v in seen:
                    ctx.ensure("inside the sub-range", ctx.and_(ctx.le(a, v), ctx.le(v, b)))


def range_of(s):
    """the range in force, if the sampler still stores it under its usual name"""
    for k, v in vars(s).items():
        if k.endswith("__range") and isinstance(v, tuple) and len(v) == 2:
            return v
    return None


@scenario("C20", fns=[PS + "NormalSamplingRange.__init__", PS + "NormalSamplingRange.sample_parameter"], trials=400)
def normal(ctx):
    within(ctx, "normal")


@scenario("C20", fns=[PS + "UniformSamplingRange.__init__", PS + "UniformSamplingRange.sample_parameter"], trials=400)
def uniform(ctx):
    within(ctx, "uniform")


@scenario("C20", fns=[PS + "LogNormalSamplingRange.__init__", PS + "LogNormalSamplingRange.sample_parameter"], trials=400)
def lognormal(ctx):
    within(ctx, "lognormal")


@scenario("C20", fns=[PS + "ExponentialSamplingRange.__init__", PS + "ExponentialSamplingRange.sample_parameter"], trials=400)
def exponential(ctx):
    within(ctx, "exponential")


@scenario("C20", fns=[PS + c + ".sample_parameter" for c in KINDS.values()], sym=False, trials=200,
          why_num="samples the distribution of the real generator over the sub-range")
def fills_the_range(ctx):
    """with many draws the reduced range is explored, and only it"""
    np = ctx.np
    kind = ctx.choice("kind", list(KINDS))
    lo = ctx.real("low end", -1, 1) if kind != "lognormal" else ctx.real("low end", 0, 1)
    w = ctx.real("width", 0.5, 2)
    red = ctx.choice("reduction", [None, 0.5 * w, w, 2 * w])
    rng = np.random.default_rng(ctx.int("seed", 0, 10 ** 6))
    kw = dict(normal=dict(std=1.0), uniform={}, lognormal={}, exponential=dict(scale=0.5))[kind]
    rg = (lo + w, lo) if kind == "exponential" and ctx.bool("descending") else (lo, lo + w)
    s = getattr(ctx.mod("simcats.support_functions"), KINDS[kind])(total_range=rg, sampling_range=red, rng=rng, **kw)
    v = [ctx.run("draw", s.sample_parameter) for _ in range(60)]
    ctx.ensure("inside the total range", min(v) >= lo - 1e-12 and max(v) <= lo + w + 1e-12)
    ctx.ensure("inside one sub-range", red is None or max(v) - min(v) <= red + 1e-9)
