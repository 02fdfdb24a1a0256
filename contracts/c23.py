"""C23: dot jumps shift occupations and transitions together along one axis."""
import math

from vc.ctx import scenario
from vc.loops import invariant
from contracts.c21 import sampler

DJ = "simcats.distortions._dot_jumps."
CLS = DJ + "OccupationDotJumps."


def along(axis, line, q):
    return (line, q) if axis == 1 else (q, line)


def shifted(ctx, x, n, axis, line, q):
    """what is seen at position q of a line: what was n pixels earlier, or the pixel itself where there is nothing"""
    here, frm = along(axis, line, q), along(axis, line, ctx.max2(0, q - n))
    return ctx.ite(ctx.isnan(x[frm]), x[here], x[frm])


def shift_invariants(axis, base):
    """the three nested loops of dot_jumps_blockwise (lines, positions, pixels of one jump) for one jump axis"""
    def want(ctx, v, line, q):
        return shifted(ctx, v.original, v.noise[q], axis, line, q)

    @invariant("simcats.distortions._dot_jumps", "dot_jumps_blockwise", base, modifies=("shifted",), nan=True)
    def lines(ctx, v, i, n, say):
        size = v.original.shape[axis]
        say.forall("finished lines", (i, size), lambda l, q: ctx.eq(v.shifted[along(axis, l, q)], want(ctx, v, l, q)))

    @invariant("simcats.distortions._dot_jumps", "dot_jumps_blockwise", base + 1, modifies=("shifted",), nan=True)
    def positions(ctx, v, j, n, say):
        size = v.original.shape[axis]
        say.forall("finished lines stay", (v.i, size), lambda l, q: ctx.eq(v.shifted[along(axis, l, q)], v._old.shifted[along(axis, l, q)]))
        say.forall("finished positions", (j,), lambda q: ctx.eq(v.shifted[along(axis, v.i, q)], want(ctx, v, v.i, q)))

    @invariant("simcats.distortions._dot_jumps", "dot_jumps_blockwise", base + 2, modifies=("shifted",), nan=True)
    def pixels(ctx, v, k, n, say):
        size = v.original.shape[axis]
        say.forall("finished lines stay", (v.i, size), lambda l, q: ctx.eq(v.shifted[along(axis, l, q)], v._old.shifted[along(axis, l, q)]))
        say.forall("finished positions stay", (v.j,), lambda q: ctx.eq(v.shifted[along(axis, v.i, q)], v._old.shifted[along(axis, v.i, q)]))
        say.that("this position", ctx.implies(k >= 1, lambda: ctx.eq(v.shifted[along(axis, v.i, v.j)], want(ctx, v, v.i, v.j))))


class Blocks:
    """ghost state: block starts S (sums of the drawn lengths) and shifts A; c blocks have been laid out"""
    def __init__(self, ctx, width):
        self.S, self.A, self.width, self.c, self.ctx = ctx.ifunc("block start"), ctx.ifunc("shift of block"), width, 0, ctx
        ctx.assume(ctx.eq(self.S(0), 0))
        ctx.define((width.shape[0],), lambda b: ctx.eq(self.S(b + 1), self.S(b) + width[b]), [(self.S, lambda b: b), (self.S, lambda b: b + 1)])

    def inside(self, b, p):
        return self.ctx.and_(self.S(b) <= p, p < self.S(b + 1))

    def value(self, b):
        return self.ctx.ite(self.ctx.eq(b % 2, 1), self.A(b), 0)


@invariant("simcats.distortions._dot_jumps", "generate_dot_jumps_blockwise", 0,
           state=dict(noise=lambda ctx, v, k: ctx.array("shifts so far", (ctx.size("shifts length", 0),)),
                      bi=lambda ctx, v, k: ctx.int("shift flag", 0)),
           step=lambda ctx, v, k, n, say, draws: one_block(ctx, v, k, say, draws))
def layout(ctx, v, k, n, say):
    """after k blocks: the shifts consist of the blocks 0..k-1, zero and drawn in turn"""
    g = ctx.ghost.get("jumps") or ctx.ghost.setdefault("jumps", Blocks(ctx, v.width))
    g.c = k
    size = v.noise.shape[0]
    say.that("length", ctx.eq(size, g.S(k)))
    say.that("no empty block", g.S(k) >= k)
    say.that("flag alternates", ctx.eq(v.bi, k % 2))
    say.forall("starts in order", (k,), lambda b: g.S(b + 1) <= g.S(k))
    say.forall("block contents", (k, size), lambda b, p: ctx.implies(g.inside(b, p), lambda: ctx.eq(v.noise[p], g.value(b))))
    say.forall("no negative shift", (size,), lambda p: v.noise[p] >= 0)


def one_block(ctx, v, k, say, draws):
    g = ctx.ghost["jumps"]
    g.c = k + 1
    poisson = [d for d in draws if d[0] == "poisson"]
    say.that("shift drawn anew", len(poisson) <= 1)
    say.that("shifts are drawn", ctx.or_(ctx.eq(k % 2, 0), len(poisson) == 1))
    for d in poisson:
        say.that("drawn with the configured mean", ctx.eq(d[2], v.lam))
        ctx.assume(ctx.eq(g.A(k), d[1]))        # definition of the ghost shift of block k


shift_invariants(1, 0)
shift_invariants(0, 3)


def line_invariant(axis, index):
    """after k rounds the diagonals below the line's own hold the lines generated 1..k steps earlier (NaN elsewhere)"""
    def grown(name, ctx, v, k, tail):
        n = v.occupations.shape[0]
        return ctx.nan_array(name, ((n, n + k) if axis == 1 else (n + k, n)) + tail)

    @invariant("simcats.distortions._dot_jumps", "OccupationDotJumps._noise_function_1d", index,
               state=dict(occupation_2d=lambda ctx, v, k: grown("lines so far", ctx, v, k, (2,)),
                          lead_transitions_2d=lambda ctx, v, k: None if v.lead_transitions is None else grown("transitions so far", ctx, v, k, ())))
    def lines(ctx, v, k, n, say):
        gen = ctx.ghost["line"]
        size = v.occupations.shape[0]

        def diagonals(a, dot, own):
            def at(r, c):
                return ctx.implies(ctx.and_(r <= c, c <= r + k), lambda: ctx.eq(
                    a[along(axis, r, c) + (() if dot == 2 else (dot,))], ctx.ite(ctx.eq(c, r + k), own(r), gen(r, k + r - c)[dot])))
            return at
        for dot in range(2):
            say.forall(f"occupations of dot {dot + 1}", (size, size + k), diagonals(v.occupation_2d, dot, lambda r: v.occupations[r, dot]))
        if v.lead_transitions is not None:
            say.forall("transitions", (size, size + k), diagonals(v.lead_transitions_2d, 2, lambda r: v.lead_transitions[r]))


line_invariant(1, 0)
line_invariant(0, 1)


def draws_of(rng, start, kind):
    out = []
    for d in rng.draws[start:]:
        if d[0] == kind:
            v = d[1].ravel().tolist() if hasattr(d[1], "ravel") else [d[1]]
            out += [(int(x), d[2]) for x in v]
    return out


def candidates(rng, start, n):
    """possible shift sequences of length n for the recorded draws: blocks of geometric length, zero and shifted
    alternating; a Poisson value may or may not be consumed by a zero block"""
    lengths = [x for x, _ in draws_of(rng, start, "geometric")]
    amps = [x for x, _ in draws_of(rng, start, "poisson")]
    out = []
    for per_block in (True, False):
        noise, k, ok = [], 0, True
        for b, m in enumerate(lengths):
            if len(noise) >= n:
                break
            a = 0
            if b % 2 or per_block:
                if k >= len(amps):
                    if b % 2:
                        ok = False
                        break
                else:
                    a = amps[k] if b % 2 else 0
                    k += 1
            noise += [a] * m
        if ok and len(noise) >= n:
            out.append(noise[:n])
    return out


def jump(ctx, rng, axis, scale, lam, ratio=1):
    return ctx.mod("simcats.distortions").OccupationDotJumps(scale=scale, lam=lam, axis=axis, ratio=ratio, rng=rng)


def smooth(v1, v2):
    """an injective-looking field used by the generator: (occupation 1, occupation 2, transitions)"""
    return (2 * v1 + 3 * v2 + math.sin(3 * v1 + v2), v1 - 5 * v2 + 0.5 * math.cos(v1), 7 * v1 + v2 + math.sin(v2))


def generator(ctx, calls):
    np = ctx.np

    def gen(volt_limits_g1, volt_limits_g2, resolution):
        calls.append((tuple(volt_limits_g1), tuple(volt_limits_g2), resolution))
        if np.ndim(resolution) == 0:
            n = int(resolution)
            pts = list(zip(np.linspace(volt_limits_g1[0], volt_limits_g1[1], n),
                           np.linspace(volt_limits_g2[0], volt_limits_g2[1], n)))
            f = np.array([smooth(a, b) for a, b in pts])
            return f[:, :2].copy(), f[:, 2].copy()
        x = np.linspace(volt_limits_g1[0], volt_limits_g1[1], int(resolution[0]))
        y = np.linspace(volt_limits_g2[0], volt_limits_g2[1], int(resolution[1]))
        f = np.array([[smooth(a, b) for a in x] for b in y])
        return f[..., :2].copy(), f[..., 2].copy()
    return gen


def setting(ctx, dim):
    """image, window, jump axis"""
    axis = ctx.choice("axis", [0, 1])
    wide = ctx.choice("wide", [False] * 24 + [True])
    if dim == 2:
        shape = (ctx.size("rows", 2), ctx.size("columns", 2))
        if wide:
            shape = (300, 2) if axis == 0 else (2, 300)
    else:
        shape = (ctx.size("pixels", 2),)
    a, b = ctx.real("g1 from", -1, 1), ctx.real("g2 from", -1, 1)
    w = ctx.real("g1 width", 0.1, 3) * ctx.choice("g1 way", [1, -1])
    h = ctx.real("g2 width", 0.1, 3) * ctx.choice("g2 way", [1, -1])
    fixed = ctx.choice("fixed gate", [None, None, None, "g1", "g2"])
    if fixed == "g1":
        w = 0.0
    if fixed == "g2":
        h = 0.0
    if dim == 2 and fixed:      # an image needs two swept gates
        w, h = w or 1.0, h or 1.0
    return shape, axis, ctx.vec([a, a + w]), ctx.vec([b, b + h])


def image(ctx, shape):
    """an arbitrary image with pairwise different entries (so that shifts can be told apart)"""
    np = ctx.np
    occ, lead = np.empty(shape + (2,)), np.empty(shape)
    s = ctx.real("seed", 0.5, 1.5)
    for k, ix in enumerate(np.ndindex(*shape)):
        occ[ix] = (100 + k * s, -300 - 1.5 * k)
        lead[ix] = 1000 + 2.25 * k
    return occ, lead


def expected(ctx, dim, occ, lead, v1, v2, axis, noise, has_gen):
    """the shifted image for the given shifts (in rising-voltage order along the jump axis)"""
    np = ctx.np
    eo, el = occ.copy(), lead.copy()
    if dim == 2:
        rows, cols = lead.shape
        n = lead.shape[axis]
        up = (v1[1] > v1[0]) if axis == 1 else (v2[1] > v2[0])
        x, y = np.linspace(v1[0], v1[1], cols), np.linspace(v2[0], v2[1], rows)
        volts = np.sort(x if axis == 1 else y)
        step = (volts[-1] - volts[0]) / (n - 1)
        for q in range(n):
            src = q - noise[q]
            at = q if up else n - 1 - q
            for o in range(lead.shape[1 - axis]):
                dst = (o, at) if axis == 1 else (at, o)
                if src >= 0 or not has_gen:
                    s = max(src, 0)
                    s = s if up else n - 1 - s
                    frm = (o, s) if axis == 1 else (s, o)
                    eo[dst], el[dst] = occ[frm], lead[frm]
                else:
                    v = volts[0] + src * step
                    f = smooth(v, y[o]) if axis == 1 else smooth(x[o], v)
                    eo[dst], el[dst] = f[:2], f[2]
        return eo, el
    n = lead.shape[0]
    lim = v1 if axis == 1 else v2
    up = lim[1] > lim[0]
    step = abs(lim[1] - lim[0]) / (n - 1)
    x, y = np.linspace(v1[0], v1[1], n), np.linspace(v2[0], v2[1], n)
    if has_gen:
        for q in range(n):
            at = q if up else n - 1 - q
            if noise[q]:
                d = noise[q] * step
                f = smooth(x[at] - d, y[at]) if axis == 1 else smooth(x[at], y[at] - d)
                eo[at], el[at] = f[:2], f[2]
    return eo, el


def close(np, a, b):
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9))


def check_result(ctx, dim, got_o, got_l, base_o, base_l, v1, v2, axis, cands, has_gen, name):
    np = ctx.np
    for noise in cands:
        eo, el = expected(ctx, dim, base_o, base_l, v1, v2, axis, noise, has_gen)
        if close(np, got_o, eo) and (got_l is None or close(np, got_l, el)):
            return noise
    ctx.ensure(name, False, f"shifts {cands}: got {got_o.tolist()} {None if got_l is None else got_l.tolist()}")


def history(ctx, dim):
    np = ctx.np
    rng = ctx.rng("rng")
    shape, axis, v1, v2 = setting(ctx, dim)
    lim = v1 if axis == 1 else v2
    flat = lim[0] == lim[1]
    n = shape[axis] if dim == 2 else shape[0]
    scale = ctx.real("scale", 0.01, 3) if n < 100 else ctx.real("scale", 0.05, 0.5)
    lam = ctx.choice("kind of lam", [0.0] + [None] * 5)
    lam = ctx.real("lam", 0.01, 3) if lam is None else lam
    ratio = ctx.choice("ratio", [0, 1, 1, 1, 0.5])
    s_scale = sampler(ctx, [scale, scale + 1]) if ctx.bool("scale sampled") else None
    s_lam = sampler(ctx, [lam, lam + 1]) if ctx.bool("lam sampled") else None
    d = jump(ctx, rng, axis, s_scale or scale, s_lam or lam, ratio)
    has_gen, has_lead = ctx.bool("generator"), ctx.choice("transitions", [True, True, False])
    cands, active, samples = None, None, 0
    for step in range(ctx.int("calls", 1, 4)):
        freeze = ctx.bool(f"frozen{step}")
        occ, lead = image(ctx, shape)
        bo, bl = occ.copy(), lead.copy()
        k1, k2 = v1.copy(), v2.copy()
        calls, start = [], len(rng.draws)
        out = ctx.run("noise", d.noise_function, occ, lead if has_lead else None, v1, v2,
                      generate_csd=generator(ctx, calls) if has_gen else None, freeze=freeze)
        ctx.ensure("in place", out[0] is occ and (out[1] is lead if has_lead else out[1] is None))
        ctx.ensure("ranges unchanged", (v1 == k1).all() and (v2 == k2).all())
        new = rng.draws[start:]
        if freeze:
            ctx.ensure("a frozen call draws nothing", not new and all(s is None or s.n == samples for s in (s_scale, s_lam)), str(new))
        else:
            act = [e for e in new if e[0] == "binomial"]
            ctx.ensure("activation drawn once with the ratio", len(act) == 1 and act[0][2] == 1 and ctx.eq(act[0][3], ratio))
            active = bool(act[0][1])
            ctx.ensure("reported activation", bool(d.activated) == active)
        if not active or flat:
            ctx.ensure("nothing changes", (occ == bo).all() and (lead == bl).all())
            cands = None if not freeze else cands
            if flat or not active:
                if not freeze and not flat:
                    ctx.ensure("inactive draws nothing else", len(new) == 1)
                samples = max([samples] + [s.n for s in (s_scale, s_lam) if s])
                continue
        if not freeze:
            samples += 1
            for nm, s in (("scale", s_scale), ("lam", s_lam)):
                ctx.ensure(nm + " sampled once per active call", s is None or s.n == samples)
            dens = n / abs(lim[1] - lim[0])
            sc = s_scale.last if s_scale else scale
            la = s_lam.last if s_lam else lam
            for v, p in draws_of(rng, start, "geometric"):
                ctx.ensure("geometric block lengths", ctx.eq(p, 1 / max(1, sc * dens), 1e-9))
            for v, p in draws_of(rng, start, "poisson"):
                ctx.ensure("Poisson shifts", ctx.eq(p, la * dens, 1e-9))
            cands = candidates(rng, start, n)
            ctx.ensure("blocks cover the axis", bool(cands))
        elif cands is None:
            raise_discard(ctx)
        noise = check_result(ctx, dim, occ, lead if has_lead else None, bo, bl, v1, v2, axis, cands, has_gen,
                             "shifted along the jump axis" if not freeze else "replay of the last shifts")
        cands = [noise]
        if not has_lead:
            ctx.ensure("no transitions", (lead == bl).all())


def raise_discard(ctx):
    ctx.assume(False)


def field(ctx, calls):
    """a deterministic CSD generator of which nothing is known but that it depends on the voltages of each pixel"""
    np = ctx.np
    fs = [ctx.func(f"generated {n}", 2) for n in ("occupation 1", "occupation 2", "transitions")]

    def gen(volt_limits_g1, volt_limits_g2, resolution):
        calls.append((volt_limits_g1, volt_limits_g2, resolution))
        if np.ndim(resolution) == 0:
            x = np.linspace(volt_limits_g1[0], volt_limits_g1[1], resolution)
            y = np.linspace(volt_limits_g2[0], volt_limits_g2[1], resolution)
        else:
            x = np.linspace(volt_limits_g1[0], volt_limits_g1[1], resolution[0])[np.newaxis, :]
            y = np.linspace(volt_limits_g2[0], volt_limits_g2[1], resolution[1])[:, np.newaxis]
        one, two, lead = (f(x, y) for f in fs)
        return np.stack((one, two), axis=-1), lead
    return gen, fs


def swept(ctx, name):
    a, b = ctx.real(name + " from"), ctx.real(name + " to")
    ctx.assume(ctx.not_(a == b))
    return a, b


class Helpers:
    """the two helper functions by their contracts, which the scenarios `shifts` and `shift` prove"""
    def __init__(self, ctx):
        self.ctx, self.made, self.N = ctx, [], []
        ctx.modular(DJ + "generate_dot_jumps_blockwise", self.generate)
        ctx.modular(DJ + "dot_jumps_blockwise", self.shift)

    def generate(self, shape, scale, lam, axis=1, rng=None):
        ctx = self.ctx
        ctx.ensure("at least one pixel per block on average", scale >= 1)
        ctx.ensure("no negative mean shift", lam >= 0)
        n, f = shape[axis], ctx.ifunc("shift")
        ctx.forall_assume((n,), lambda p: f(p) >= 0)
        self.made.append((n, scale, lam, rng))
        self.N.append(f)
        return ctx.make((n,), f, int)

    def shift(self, original, scale, lam, noise=None, axis=1, rng=None):
        ctx = self.ctx
        ctx.ensure("the shifts are given", noise is not None)
        x, m = original.copy(), noise.copy()
        n = x.shape[axis]
        ctx.shape_is("one shift per position", noise, (n,))
        ctx.forall("no negative shift", (n,), lambda p: m[p] >= 0)
        ctx.ensure("blocks of some length", scale is None or scale > 0)
        if axis == 1:
            return ctx.make(x.shape, lambda r, c: shifted(ctx, x, m[c], 1, r, c)), noise
        return ctx.make(x.shape, lambda r, c: shifted(ctx, x, m[r], 0, c, r)), noise


def proved_image(ctx):
    """all images, windows, directions and draws; an unfrozen call and a frozen one after it"""
    rng = ctx.rng("rng")
    axis = ctx.choice("axis", [0, 1])
    shape = rows, cols = (ctx.size("rows", 2), ctx.size("columns", 2))
    n = shape[axis]
    (a1, b1), (a2, b2) = swept(ctx, "g1"), swept(ctx, "g2")
    up1, up2 = ctx.choice("way", [(True, True), (False, True), (True, False), (False, False)])
    ctx.assume(ctx.and_(a1 < b1 if up1 else b1 < a1, a2 < b2 if up2 else b2 < a2))
    v1, v2 = ctx.vec([a1, b1]), ctx.vec([a2, b2])
    scale, lam, ratio = ctx.real("scale", 0), ctx.real("lam", 0), ctx.real("ratio", 0, 1)
    d = jump(ctx, rng, axis, scale, lam, ratio)
    has_gen, has_lead = ctx.bool("generator"), ctx.bool("transitions")
    calls = []
    gen, fs = field(ctx, calls)
    h = Helpers(ctx)
    for frozen in (False, True):
        occ, lead = ctx.array("occupations", shape + (2,)), ctx.array("lead transitions", shape)
        old_o, old_l, k = occ.copy(), lead.copy(), ctx.snap([v1, v2])
        before, made = len(rng.draws), len(h.made)
        out = ctx.run("noise", d.noise_function, occ, lead if has_lead else None, v1, v2,
                      generate_csd=gen if has_gen else None, freeze=frozen)
        ctx.ensure("in place", out[0] is occ and (out[1] is lead if has_lead else out[1] is None))
        ctx.same("ranges unchanged", [v1, v2], k)
        new = rng.draws[before:]
        if frozen:
            ctx.ensure("a frozen call draws nothing", not new and len(h.made) == made)
        else:
            ctx.ensure("activation drawn once", len(new) == 1 and new[0][0] == "binomial")
            ctx.ensure("activation drawn with the ratio", ctx.and_(ctx.eq(new[0][2], 1), ctx.eq(new[0][3], ratio)))
            active = ctx.case("active", ctx.eq(new[0][1], 1))
            ctx.ensure("reported activation", bool(d.activated) == active)
            ctx.ensure("shifts drawn once if active", len(h.made) == (1 if active else 0))
        if not active:
            ctx.arr_eq("occupations kept", occ, shape + (2,), lambda *i: old_o[i])
            ctx.arr_eq("transitions kept", lead, shape, lambda *i: old_l[i])
            continue
        if not frozen:
            dens = n / ctx.abs(v1[1] - v1[0]) if axis == 1 else n / ctx.abs(v2[1] - v2[0])
            ctx.ensure("shifts for the jump axis", ctx.eq(h.made[0][0], n))
            ctx.ensure("blocks in pixels", ctx.eq(h.made[0][1], ctx.max2(1, scale * dens)))
            ctx.ensure("shifts in pixels", ctx.eq(h.made[0][2], lam * dens))
            ctx.ensure("shifts from the given generator", h.made[0][3] is rng)
        check_image(ctx, h.N[0], occ, lead if has_lead else None, old_o, old_l, axis, shape, v1, v2, up1, up2,
                    fs if has_gen else None, "replay of the shifts" if frozen else "shifted along the jump axis")


def proved_line(ctx):
    """all lines, directions and draws; an unfrozen call and a frozen one after it"""
    rng = ctx.rng("rng")
    axis = ctx.choice("axis", [0, 1])
    n = ctx.size("pixels", 2)
    (a1, b1), (a2, b2) = (ctx.real("g1 from"), ctx.real("g1 to")), (ctx.real("g2 from"), ctx.real("g2 to"))
    v1, v2 = ctx.vec([a1, b1]), ctx.vec([a2, b2])
    s, e = (a1, b1) if axis == 1 else (a2, b2)
    way = ctx.choice("way along the jump axis", ["up", "down", "none"])
    ctx.assume(s < e if way == "up" else e < s if way == "down" else ctx.eq(s, e))
    scale, lam, ratio = ctx.real("scale", 0), ctx.real("lam", 0), ctx.real("ratio", 0, 1)
    d = jump(ctx, rng, axis, scale, lam, ratio)
    has_gen, has_lead = ctx.bool("generator"), ctx.bool("transitions")
    gen, fs = field(ctx, [])
    h = Helpers(ctx)

    def at(q):
        return q if way == "up" else n - 1 - q

    def generated(r, m):
        p = at(r)
        x, y = v1[0] + p * ((v1[1] - v1[0]) / (n - 1)), v2[0] + p * ((v2[1] - v2[0]) / (n - 1))
        back = m * (ctx.abs(e - s) / (n - 1))
        return [f(x - back, y) if axis == 1 else f(x, y - back) for f in fs]
    # ghost: the generated line, m pixels earlier along the jump axis, at position r in rising-voltage order
    G = [ctx.ifunc(f"seen {k}", 2, real=True) for k in range(3)]
    ctx.define((n, None), lambda r, m: ctx.and_(*[ctx.eq(g(r, m), v) for g, v in zip(G, generated(r, m))]),
               [(g, lambda r, m: (r, m)) for g in G])
    ctx.ghost["line"] = seen = lambda r, m: [g(r, m) for g in G]
    for frozen in (False, True):
        occ, lead = ctx.array("occupations", (n, 2)), ctx.array("lead transitions", (n,))
        old_o, old_l, k = occ.copy(), lead.copy(), ctx.snap([v1, v2])
        before, made = len(rng.draws), len(h.made)
        out = ctx.run("noise", d.noise_function, occ, lead if has_lead else None, v1, v2,
                      generate_csd=gen if has_gen else None, freeze=frozen)
        ctx.ensure("in place", out[0] is occ and (out[1] is lead if has_lead else out[1] is None))
        ctx.same("ranges unchanged", [v1, v2], k)
        new = rng.draws[before:]
        if frozen:
            ctx.ensure("a frozen call draws nothing", not new and len(h.made) == made)
        else:
            ctx.ensure("activation drawn once", len(new) == 1 and new[0][0] == "binomial")
            ctx.ensure("activation drawn with the ratio", ctx.and_(ctx.eq(new[0][2], 1), ctx.eq(new[0][3], ratio)))
            active = ctx.case("active", ctx.eq(new[0][1], 1))
            ctx.ensure("reported activation", bool(d.activated) == active)
            ctx.ensure("shifts drawn once if active", len(h.made) == (1 if active and way != "none" else 0))
        if not active or way == "none" or not has_gen:
            ctx.arr_eq("occupations kept", occ, (n, 2), lambda *i: old_o[i])
            ctx.arr_eq("transitions kept", lead, (n,), lambda *i: old_l[i])
            if not active or way == "none":
                continue
        if not frozen:
            dens = n / ctx.abs(e - s)
            ctx.ensure("shifts for the line", ctx.eq(h.made[0][0], n))
            ctx.ensure("blocks in pixels", ctx.eq(h.made[0][1], ctx.max2(1, scale * dens)))
            ctx.ensure("shifts in pixels", ctx.eq(h.made[0][2], lam * dens))
            ctx.ensure("shifts from the given generator", h.made[0][3] is rng)
        if not has_gen:
            continue
        N = h.N[0]
        name = "replay of the shifts" if frozen else "shifted along the jump axis"

        def right(q):
            p = at(q)
            own = [old_o[p, 0], old_o[p, 1], old_l[p]]
            want = [ctx.ite(ctx.eq(N(q), 0), o, g) for o, g in zip(own, seen(q, N(q)))]
            got = [occ[p, 0], occ[p, 1]] + ([lead[p]] if has_lead else [])
            return ctx.and_(*[ctx.eq(g, w) for g, w in zip(got, want)])
        ctx.forall(name, (n,), right)


def check_image(ctx, N, occ, lead, old_o, old_l, axis, shape, v1, v2, up1, up2, fs, name):
    rows, cols = shape
    n = shape[axis]
    up = up1 if axis == 1 else up2

    def at(q):
        return q if up else n - 1 - q

    def right(line, q):
        """at position q (in rising voltage) of a line: what was N(q) pixels earlier"""
        src = q - N(q)
        here = along(axis, line, at(q))
        frm = along(axis, line, at(ctx.max2(0, src)))
        vals = [old_o[frm + (0,)], old_o[frm + (1,)], old_l[frm]]
        if fs:
            s1, s2 = (v1[1] - v1[0]) / (cols - 1), (v2[1] - v2[0]) / (rows - 1)
            p1 = (v1[0] if up1 else v1[1]) + src * (s1 if up1 else -s1) if axis == 1 else v1[0] + line * s1
            p2 = (v2[0] if up2 else v2[1]) + src * (s2 if up2 else -s2) if axis == 0 else v2[0] + line * s2
            vals = [ctx.ite(src >= 0, o, f(p1, p2)) for o, f in zip(vals, fs)]
        ok = [ctx.eq(occ[here + (0,)], vals[0]), ctx.eq(occ[here + (1,)], vals[1])]
        if lead is not None:
            ok.append(ctx.eq(lead[here], vals[2]))
        return ctx.and_(*ok)
    ctx.forall(name, (shape[1 - axis], n), right)


@scenario("C23", fns=[CLS + "noise_function", CLS + "_noise_function_2d", DJ + "dot_jumps_blockwise",
                      DJ + "generate_dot_jumps_blockwise"], trials=500)
def image_history(ctx):
    if ctx.sym:
        proved_image(ctx)
    else:
        history(ctx, 2)


@scenario("C23", fns=[CLS + "noise_function", CLS + "_noise_function_1d", DJ + "dot_jumps_blockwise",
                      DJ + "generate_dot_jumps_blockwise"], trials=500)
def line_history(ctx):
    if ctx.sym:
        proved_line(ctx)
    else:
        history(ctx, 1)


@scenario("C23", fns=[DJ + "generate_dot_jumps_blockwise"], trials=300)
def shifts(ctx):
    """the sequence of shifts: blocks of geometric length, zero and Poisson-drawn in turn, cut to the axis"""
    f = ctx.helper(DJ, "generate_dot_jumps_blockwise")
    rng = ctx.rng("rng")
    shape = (ctx.size("rows", 1), ctx.size("columns", 1))
    axis = ctx.choice("axis", [0, 1])
    n = shape[axis]
    scale, lam = ctx.real("scale", 1, None if ctx.sym else 6), ctx.real("lam", 0, None if ctx.sym else 5)
    out = ctx.run("shifts", f, shape, scale, lam, axis, rng)
    ctx.shape_is("one shift per position", out, (n,))
    for d in rng.draws:
        if d[0] == "geometric":
            ctx.ensure("block lengths geometric with the scale as mean", ctx.eq(d[2] * scale, 1, 1e-9))
    if not ctx.sym:
        ctx.ensure("documented sequence", out.tolist() in candidates(rng, 0, n), f"{out.tolist()}")
        return
    g = ctx.ghost.get("jumps")
    ctx.ensure("block lengths drawn", g is not None)
    ctx.ensure("blocks cover the axis", g.S(g.c) >= n)
    ctx.forall("zero and drawn shifts in turn", (g.c, n), lambda b, p: ctx.implies(g.inside(b, p), lambda: ctx.eq(out[p], g.value(b))))
    ctx.forall("no negative shift", (n,), lambda p: out[p] >= 0)


@scenario("C23", fns=[DJ + "dot_jumps_blockwise"], trials=300)
def shift(ctx):
    """the shift itself, for arbitrary shifts and images"""
    f = ctx.helper(DJ, "dot_jumps_blockwise")
    shape = (ctx.size("rows", 1), ctx.size("columns", 1))
    axis = ctx.choice("axis", [0, 1])
    n = shape[axis]
    noise = ctx.array("shifts", (n,), int, lo=0, hi=None if ctx.sym else 9)
    x = ctx.nan_array("image", shape)
    k = ctx.snap([x, noise])
    y, m = ctx.run("shift", f, x, ctx.real("scale", 1, 9), 1.0, noise, axis)
    ctx.arr_eq("one common shift per position", y, shape, lambda r, c: shifted(
        ctx, x, noise[c if axis == 1 else r], axis, r if axis == 1 else c, c if axis == 1 else r))
    ctx.same("inputs unchanged", [x, noise], k)
    ctx.same("shifts", m, noise)
