"""C01: which CSD requests Simulation.measure accepts."""
from vc.ctx import scenario
from contracts.common import Log, make_csd, make_sensor, make_dist, make_occ_dist, limits, inside, first

FNS = ["simcats._simulation.Simulation.measure", "simcats._simulation.Simulation.__init__"]


def lohi(lim):
    return (None, None) if lim is None else (lim[0], lim[1])


def sweep(ctx, name, lim, wild, n=2):
    lo, hi = lohi(lim)
    which = ctx.pick(name + " outside", n) if wild else -1      # all entries outside, or just one of them
    xs = [ctx.biased(f"{name}[{i}]", lo, hi, wild and which in (-1, i)) for i in range(n)]
    if n == 2 and not ctx.sym and ctx.bool(name + " fixed"):
        xs[1] = xs[0]
    return xs


def resolution(ctx, name="resolution", kinds=(0, 1, 2, 3, 4), weights=(4, 3, 6, 1, 1)):
    """an int, a one-entry or a two-entry resolution, or one with three entries; as list, tuple or array"""
    k = ctx.choice(name + " kind", list(kinds), list(weights))
    if k == 0:
        return ctx.int(name, 1, cap=4), 0
    if k == 1:
        return wrap(ctx, name, [ctx.int(name + "0", 1, cap=4)]), 1
    if k == 2:
        return wrap(ctx, name, [ctx.int(name + "0", 1, cap=4, special=(1, 2)), ctx.int(name + "1", 1, cap=4, special=(1, 2))]), 2
    if k == 3:
        return wrap(ctx, name, [ctx.int(name + str(i), 1, cap=4) for i in range(3)]), 3
    return wrap(ctx, name, [ctx.int(name + str(i), 2, cap=3) for i in range(4)]), 4


def wrap(ctx, name, xs):
    k = ctx.choice(name + " container", [0, 1, 2])
    return list(xs) if k == 0 else tuple(xs) if k == 1 else ctx.np.array(xs)


def res_valid(ctx, res, n, s1, s2):
    if n in (0, 1):
        return True
    if n > 2:
        return False
    return ctx.and_(ctx.not_(s1[0] == s1[1]), ctx.not_(s2[0] == s2[1]), res[0] > 1, res[1] > 1)


def build(ctx, log, csd=True, l1=None, l2=None, ls1=None, ls2=None, scan=None, channels=1):
    S = ctx.mod("simcats").Simulation
    if scan is None:
        scan = ctx.bool("scan sensor")
    sensor, pot_of, resp_of = make_sensor(ctx, log, scan, channels)
    return S(volt_limits_g1=l1, volt_limits_g2=l2, volt_limits_sensor_g1=ls1, volt_limits_sensor_g2=ls2,
             ideal_csd_config=make_csd(ctx, log) if csd else None, sensor=sensor,
             occupation_distortions=[make_occ_dist(ctx, log, 0, 2, 1)],
             sensor_potential_distortions=[make_dist(ctx, log, "pot", 0, 2, 1)],
             sensor_response_distortions=[make_dist(ctx, log, "resp", 0, 2, 1)])


def decide(ctx, log, out, valid):
    if ctx.case("valid request", valid):
        ctx.no_exc("valid request accepted", out)
        ctx.ensure("ideal CSD evaluated once", len(log.kinds("csd")) == 1)
    else:
        ctx.raises("invalid request", out, ValueError)
        ctx.ensure("nothing evaluated for an invalid request", len(log) == 0)


@scenario("C01", fns=FNS, weight=3, trials=2500)
def plunger_ranges(ctx):
    """plunger sweep ranges against the plunger limits, with and without a configured ideal CSD"""
    log = Log()
    l1, l2 = limits(ctx, "limits g1"), limits(ctx, "limits g2")
    csd = not ctx.choice("no csd", [False, True], [8, 1])
    wild = ctx.pick("wild", 2)
    n1 = ctx.choice("len g1", [2, 1, 3], [12, 1, 1])
    n2 = ctx.choice("len g2", [2, 1, 3], [12, 1, 1])
    s1 = sweep(ctx, "s1", l1, wild == 0, n1)
    s2 = sweep(ctx, "s2", l2, wild == 1, n2)
    sim = build(ctx, log, csd, l1, l2, scan=False)
    out = ctx.call(sim.measure, ctx.vec(s1), ctx.vec(s2), resolution=3)
    valid = csd and n1 == 2 and n2 == 2
    if valid:
        valid = ctx.and_(*[inside(ctx, v, l1) for v in s1], *[inside(ctx, v, l2) for v in s2])
    decide(ctx, log, out, valid)


@scenario("C01", fns=FNS, weight=3, trials=2500)
def sensor_voltages(ctx):
    """sensor gate voltages against their limits: both or neither, each inside if limits are set"""
    log = Log()
    l1, l2 = limits(ctx, "limits sensor g1"), limits(ctx, "limits sensor g2")
    scan = ctx.bool("scan sensor")
    wild = ctx.pick("wild", 2)
    v1 = None if ctx.bool("no v1") else ctx.biased("v1", *lohi(l1), wild == 0)
    v2 = None if ctx.bool("no v2") else ctx.biased("v2", *lohi(l2), wild == 1)
    sim = build(ctx, log, True, None, None, l1, l2, scan=scan)
    out = ctx.call(sim.measure, ctx.vec([0.0, 1.0]), ctx.vec([0.0, 2.0]), volt_sensor_g1=v1, volt_sensor_g2=v2,
                   resolution=3)
    valid = (v1 is None) == (v2 is None)
    if v1 is not None:
        valid = ctx.and_(valid, inside(ctx, v1, l1))
    if v2 is not None:
        valid = ctx.and_(valid, inside(ctx, v2, l2))
    decide(ctx, log, out, valid)


@scenario("C01", fns=FNS, weight=3, trials=2500)
def resolutions(ctx):
    """resolutions of every form, with swept and fixed gates in either direction"""
    log = Log()
    s1 = sweep(ctx, "s1", None, False)
    s2 = sweep(ctx, "s2", None, False)
    res, n = resolution(ctx)
    sim = build(ctx, log, True, scan=False)
    out = ctx.call(sim.measure, ctx.vec(s1), ctx.vec(s2), resolution=res)
    decide(ctx, log, out, res_valid(ctx, res, n, s1, s2))


@scenario("C01", fns=FNS, sym=False, why_num="product of the three cases above", trials=2500)
def everything_at_once(ctx):
    log = Log()
    l1, l2 = limits(ctx, "limits g1"), limits(ctx, "limits g2")
    l3, l4 = limits(ctx, "limits sensor g1"), limits(ctx, "limits sensor g2")
    wild = ctx.pick("wild", 8)
    s1 = sweep(ctx, "s1", l1, wild == 0)
    s2 = sweep(ctx, "s2", l2, wild == 1)
    given = ctx.choice("given", [(0, 0), (1, 1), (1, 0), (0, 1)], [3, 6, 1, 1])
    v1 = ctx.biased("v1", *lohi(l3), wild == 2) if given[0] else None
    v2 = ctx.biased("v2", *lohi(l4), wild == 3) if given[1] else None
    res, n = resolution(ctx, weights=(4, 3, 6, 1, 0))
    sim = build(ctx, log, True, l1, l2, l3, l4)
    kw = {}
    if not (v1 is None and v2 is None):
        kw = dict(volt_sensor_g1=v1, volt_sensor_g2=v2)
    out = ctx.call(sim.measure, ctx.vec(s1), ctx.vec(s2), resolution=res, **kw)
    valid = ctx.and_(given[0] == given[1], *[inside(ctx, v, l1) for v in s1], *[inside(ctx, v, l2) for v in s2],
                     v1 is None or inside(ctx, v1, l3), v2 is None or inside(ctx, v2, l4),
                     res_valid(ctx, res, n, s1, s2))
    decide(ctx, log, out, valid)
