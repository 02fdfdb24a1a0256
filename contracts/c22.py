"""C22: telegraph noise is piecewise constant, alternating between zero and bursts."""
from vc.ctx import scenario
from vc.loops import invariant
from contracts.c21 import dims, rtn, sampler

RT = "simcats.distortions._random_telegraph_noise."


class Ghost:
    """block starts S (sums of the drawn lengths) and burst amplitudes A; c blocks have been laid out"""
    def __init__(self, ctx, length):
        self.S, self.A, self.length, self.c, self.ctx = ctx.ifunc("block start"), ctx.ifunc("amplitude", real=True), length, 0, ctx
        ctx.assume(ctx.eq(self.S(0), 0))
        ctx.define((length.shape[0],), lambda b: ctx.eq(self.S(b + 1), self.S(b) + length[b]), [(self.S, lambda b: b), (self.S, lambda b: b + 1)])

    def inside(self, b, p):
        return self.ctx.and_(self.S(b) <= p, p < self.S(b + 1))

    def value(self, b):
        return self.ctx.ite(self.ctx.eq(b % 2, 1), self.A(b), 0)


@invariant("simcats.distortions._random_telegraph_noise", "random_telegraph_noise", 0,
           state=dict(noise=lambda ctx, v, k: ctx.array("noise so far", (ctx.size("noise length", 0),)),
                      bi=lambda ctx, v, k: ctx.int("burst flag", 0)),
           step=lambda ctx, v, k, n, say, draws: burst(ctx, v, k, say, draws))
def telegraph(ctx, v, k, n, say):
    """after k blocks: the noise consists of the blocks 0..k-1, quiet and burst in turn"""
    g = ctx.ghost.get("rtn") or ctx.ghost.setdefault("rtn", Ghost(ctx, v.length))
    g.c = k
    size = v.noise.shape[0]
    say.that("length", ctx.eq(size, g.S(k)))
    say.that("no empty block", g.S(k) >= k)
    say.that("flag alternates", ctx.eq(v.bi, k % 2))
    say.forall("starts in order", (k,), lambda b: g.S(b + 1) <= g.S(k))
    say.forall("block contents", (k, size), lambda b, p: ctx.implies(g.inside(b, p), lambda: ctx.eq(v.noise[p], g.value(b))))


def burst(ctx, v, k, say, draws):
    g = ctx.ghost["rtn"]
    g.c = k + 1
    normal = [d for d in draws if d[0] == "normal"]
    say.that("amplitude drawn anew", len(normal) <= 1)
    say.that("bursts are drawn", ctx.or_(ctx.eq(k % 2, 0), len(normal) == 1))
    for d in normal:
        say.that("drawn with the configured height and spread", ctx.and_(ctx.eq(d[2], v.height), ctx.eq(d[3], v.std)))
        ctx.assume(ctx.eq(g.A(k), d[1]))        # definition of the ghost amplitude of block k


def proved_blocks(ctx, y, x, rng, shape, mean):
    """postcondition of random_telegraph_noise in terms of its ghost blocks"""
    g = ctx.ghost.get("rtn")
    ctx.ensure("block lengths drawn", g is not None)
    geo = rng.kinds("geometric")
    for d in geo:
        ctx.ensure("block lengths geometric with the scale as mean", ctx.eq(d[2] * mean, 1))
    total = shape[0] * shape[1] if len(shape) == 2 else shape[0]
    ctx.ensure("blocks cover the array", g.S(g.c) >= total)
    if len(shape) == 2:
        ctx.forall("alternating blocks", (g.c,) + shape, lambda b, i, j: ctx.hint(i * shape[1] + j) and ctx.implies(
            g.inside(b, i * shape[1] + j), lambda: ctx.eq(y[i, j], x[i, j] + g.value(b))))
    else:
        ctx.forall("alternating blocks", (g.c,) + shape, lambda b, i: ctx.implies(
            g.inside(b, i), lambda: ctx.eq(y[i], x[i] + g.value(b))))


def blocks(ctx, noise, rng, start, height, std, mean):
    """noise (flat list) is the documented sequence of blocks for the draws recorded from `start` on"""
    new = rng.draws[start:]
    geo = [d for d in new if d[0] == "geometric"]
    for d in geo:
        ctx.ensure("block lengths geometric with the scale as mean", ctx.eq(d[2], 1 / mean, 1e-9))
    lengths = [int(v) for d in geo for v in (d[1].ravel().tolist() if hasattr(d[1], "ravel") else [d[1]])]
    amps = []
    for d in new:
        if d[0] == "normal":
            ctx.ensure("bursts drawn with the configured height and spread", ctx.eq(d[2], height, 1e-9) and ctx.eq(d[3], std, 1e-9))
            amps += d[1].ravel().tolist() if hasattr(d[1], "ravel") else [d[1]]
    pos, used = 0, -1
    for b, n in enumerate(lengths):
        if pos >= len(noise):
            break
        part = noise[pos:pos + n]
        if b % 2 == 0:
            ctx.ensure("quiet block", all(ctx.eq(v, 0, 1e-9) for v in part), f"block {b} at {pos}: {part}")
        else:
            ctx.ensure("constant burst", all(ctx.eq(v, part[0], 1e-9) for v in part), f"block {b} at {pos}: {part}")
            hit = [i for i, a in enumerate(amps) if i > used and ctx.eq(a, part[0], 1e-9)]
            ctx.ensure("burst amplitude drawn anew", bool(hit), f"block {b}: {part[0]} not among later draws of {amps}")
            used = hit[0]
        pos += n
    ctx.ensure("blocks cover the array", pos >= len(noise))


@scenario("C22", fns=[RT + "random_telegraph_noise"], trials=500)
def block_structure(ctx):
    f = ctx.helper(RT, "random_telegraph_noise")
    rng = ctx.rng("rng")
    shape = dims(ctx)
    x = ctx.array("x", shape)
    if not ctx.sym and not ctx.bool("some input"):
        x = x * 0
    scale = ctx.real("scale", 0, 5, near=(1,)) if not ctx.sym else ctx.real("scale", 0)
    height, std = ctx.real("height"), ctx.real("std", 0, 2)
    k = ctx.snap(x)
    y = ctx.run("noise", f, x, scale, std, height, rng)
    if ctx.sym:
        ctx.shape_is("noise", y, shape)
        ctx.same("input", x, k)
        if ctx.case("zero scale", ctx.eq(scale, 0)):
            ctx.ensure("nothing drawn for a zero scale", not rng.draws)
            ctx.arr_eq("nothing added for a zero scale", y, shape, lambda *i: x[i])
        else:
            proved_blocks(ctx, y, x, rng, shape, ctx.max2(scale, 1))
        return
    ctx.ensure("shape kept", y.shape == shape)
    ctx.ensure("input unchanged", (x == k).all())
    noise = (y - x).ravel().tolist()
    if scale == 0:
        ctx.ensure("nothing added for a zero scale", all(v == 0 for v in noise))
    else:
        blocks(ctx, noise, rng, 0, height, std, max(scale, 1))


def proved_scale(ctx):
    """which block structure noise_function asks for, against the contract of random_telegraph_noise (scenario block_structure)"""
    rng = ctx.rng("rng")
    shape = dims(ctx)
    args, samplers = {}, {}
    vals = dict(scale=ctx.real("scale", 0), std=ctx.real("std", 0), height=ctx.real("height"))
    sampled = ctx.choice("sampled", [(), ("scale", "std", "height"), ("scale",), ("std",), ("height",)])
    for n, v in vals.items():
        args[n] = v
        if n in sampled:
            args[n] = samplers[n] = sampler(ctx, [v])
    d = rtn(ctx, rng, ratio=1, **args)
    a, b = ctx.real("g1 from"), ctx.real("g1 to")
    e, f = ctx.real("g2 from"), ctx.real("g2 to")
    fixed = ctx.choice("fixed gate", ["none", "g1", "g2"])
    W = 0 if fixed == "g1" else ctx.abs(b - a)
    H = 0 if fixed == "g2" else ctx.abs(f - e)
    ctx.assume(ctx.eq(a, b) if fixed == "g1" else ctx.not_(ctx.eq(a, b)))
    ctx.assume(ctx.eq(e, f) if fixed == "g2" else ctx.not_(ctx.eq(e, f)))
    v1, v2 = ctx.vec([a, b]), ctx.vec([e, f])
    if len(shape) == 2:
        dens = shape[0] / H if fixed == "g1" else shape[1] / W if fixed == "g2" else ctx.max2(shape[1] / W, shape[0] / H)
    else:
        dens = shape[0] / (H if fixed == "g1" else W if fixed == "g2" else ctx.max2(W, H))
    calls = []

    def contract(original, scale, std, height, rng=None):
        y = ctx.array("telegraph noise added", tuple(original.shape))
        calls.append((original, scale, std, height, rng, y))
        return y
    ctx.modular(RT + "random_telegraph_noise", contract)
    x = ctx.array("x", shape)
    k = ctx.snap([x, v1, v2])
    y = ctx.run("noise", d.noise_function, x, v1, v2)
    for n, s in samplers.items():
        ctx.ensure(f"{n} sampled once", s.n == 1)
    ctx.ensure("active", d.activated is True)
    ctx.same("inputs unchanged", [x, v1, v2], k)
    ctx.ensure("telegraph noise added once", len(calls) == 1)
    for o, sc, st, h, r, res in calls:
        ctx.same("added to the input", o, x)
        ctx.ensure("mean block length in pixels", ctx.eq(sc, vals["scale"] * dens))
        ctx.ensure("spread", ctx.eq(st, vals["std"]))
        ctx.ensure("height", ctx.eq(h, vals["height"]))
        ctx.ensure("random generator", r is rng)
        ctx.same("result", y, res)


@scenario("C22", fns=[RT + "RandomTelegraphNoise.noise_function", RT + "random_telegraph_noise"], trials=500)
def voltage_scale(ctx):
    if ctx.sym:
        return proved_scale(ctx)
    rng = ctx.rng("rng")
    shape = dims(ctx)
    scale = ctx.choice("kind of scale", [0.0, None, None, None, None])
    scale = ctx.real("scale", 0, 2) if scale is None else scale
    std, height = ctx.real("std", 0, 2), ctx.real("height")
    samplers = {}
    args = dict(scale=scale, std=std, height=height)
    for n in args:
        if ctx.bool(n + " sampled"):
            samplers[n] = args[n] = sampler(ctx, [args[n]])
    d = rtn(ctx, rng, ratio=1, **args)
    a, b = ctx.real("g1 from", -1, 1), ctx.real("g2 from", -1, 1)
    w, h = ctx.real("g1 width", 0.1, 3) * ctx.choice("g1 way", [1, -1]), ctx.real("g2 width", 0.1, 3) * ctx.choice("g2 way", [1, -1])
    fixed = ctx.choice("fixed gate", ["none", "g1", "g2"])
    if fixed == "g1":
        w = 0.0
    if fixed == "g2":
        h = 0.0
    v1, v2 = ctx.vec([a, a + w]), ctx.vec([b, b + h])
    W, H = abs(v1[1] - v1[0]), abs(v2[1] - v2[0])
    if len(shape) == 2:
        dens = max(shape[1] / W if W else 0, shape[0] / H if H else 0)
    else:
        dens = min(shape[0] / W if W else float("inf"), shape[0] / H if H else float("inf"))
    x = ctx.array("x", shape) * (1 if ctx.bool("some input") else 0)
    k = ctx.snap([x, v1, v2])
    y = ctx.run("noise", d.noise_function, x, v1, v2)
    for n, s in samplers.items():
        ctx.ensure(f"{n} sampled once", s.n == 1)
    ctx.ensure("active", d.activated is True or d.activated == 1)
    ctx.ensure("inputs unchanged", all((p == q).all() for p, q in zip([x, v1, v2], k)))
    noise = (y - x).ravel().tolist()
    start = [i for i, e in enumerate(rng.draws) if e[0] in ("geometric", "normal")]
    if scale == 0:
        ctx.ensure("nothing added for a zero scale", all(v == 0 for v in noise))
    else:
        blocks(ctx, noise, rng, start[0] if start else 0, height, std, max(scale * dens, 1))
