"""C02: which sensor scan requests Simulation.measure_sensor_scan accepts."""
from vc.ctx import scenario
from contracts.common import Log, make_csd, make_sensor, make_dist, limits, inside
from contracts.c01 import sweep, resolution, res_valid, lohi

FNS = ["simcats._simulation.Simulation.measure_sensor_scan"]


def build(ctx, log, csd=True, scan=True, l1=None, l2=None, ls1=None, ls2=None):
    S = ctx.mod("simcats").Simulation
    sensor, _, _ = make_sensor(ctx, log, scan, 3)
    return S(volt_limits_g1=l1, volt_limits_g2=l2, volt_limits_sensor_g1=ls1, volt_limits_sensor_g2=ls2,
             ideal_csd_config=make_csd(ctx, log) if csd else None, sensor=sensor,
             sensor_potential_distortions=[make_dist(ctx, log, "pot", 0, 2, 1)],
             sensor_response_distortions=[make_dist(ctx, log, "resp", 0, 2, 1)])


def decide(ctx, log, out, valid, csd_calls):
    if ctx.case("valid request", valid):
        ctx.no_exc("valid request accepted", out)
        ctx.ensure("response evaluated", len(log.kinds("response")) == 1)
        ctx.ensure("ideal CSD evaluated once if there is one and the plungers are given",
                   len(log.kinds("csd")) == csd_calls)
    else:
        ctx.raises("invalid request", out, ValueError)
        ctx.ensure("nothing evaluated for an invalid request", len(log) == 0)


@scenario("C02", fns=FNS, weight=3, trials=2000)
def sensor_ranges(ctx):
    log = Log()
    l1, l2 = limits(ctx, "limits sensor g1"), limits(ctx, "limits sensor g2")
    scan = not ctx.choice("plain sensor", [False, True], [8, 1])
    csd = ctx.bool("csd")
    wild = ctx.pick("wild", 2)
    n1 = ctx.choice("len g1", [2, 1, 3], [12, 1, 1])
    n2 = ctx.choice("len g2", [2, 1, 3], [12, 1, 1])
    s1 = sweep(ctx, "s1", l1, wild == 0, n1)
    s2 = sweep(ctx, "s2", l2, wild == 1, n2)
    sim = build(ctx, log, csd, scan, None, None, l1, l2)
    out = ctx.call(sim.measure_sensor_scan, ctx.vec(s1), ctx.vec(s2), resolution=3)
    valid = scan and n1 == 2 and n2 == 2
    if valid:
        valid = ctx.and_(*[inside(ctx, v, l1) for v in s1], *[inside(ctx, v, l2) for v in s2])
    decide(ctx, log, out, valid, 0)


@scenario("C02", fns=FNS, weight=3, trials=2000)
def plunger_voltages(ctx):
    log = Log()
    l1, l2 = limits(ctx, "limits g1"), limits(ctx, "limits g2")
    csd = ctx.bool("csd")
    wild = ctx.pick("wild", 2)
    v1 = None if ctx.bool("no v1") else ctx.biased("v1", *lohi(l1), wild == 0)
    v2 = None if ctx.bool("no v2") else ctx.biased("v2", *lohi(l2), wild == 1)
    sim = build(ctx, log, csd, True, l1, l2)
    out = ctx.call(sim.measure_sensor_scan, ctx.vec([0.0, 1.0]), ctx.vec([0.0, 2.0]), volt_g1=v1, volt_g2=v2,
                   resolution=3)
    valid = (v1 is None) == (v2 is None)
    if v1 is not None:
        valid = ctx.and_(valid, inside(ctx, v1, l1))
    if v2 is not None:
        valid = ctx.and_(valid, inside(ctx, v2, l2))
    decide(ctx, log, out, valid, 1 if csd and v1 is not None else 0)


@scenario("C02", fns=FNS, weight=3, trials=2000)
def resolutions(ctx):
    log = Log()
    s1 = sweep(ctx, "s1", None, False)
    s2 = sweep(ctx, "s2", None, False)
    res, n = resolution(ctx)
    csd = ctx.bool("csd")
    given = ctx.bool("plungers given")
    sim = build(ctx, log, csd, True)
    kw = dict(volt_g1=ctx.real("v1"), volt_g2=ctx.real("v2")) if given else {}
    out = ctx.call(sim.measure_sensor_scan, ctx.vec(s1), ctx.vec(s2), resolution=res, **kw)
    decide(ctx, log, out, res_valid(ctx, res, n, s1, s2), 1 if csd and given else 0)


@scenario("C02", fns=FNS, sym=False, why_num="product of the three cases above", trials=2000)
def everything_at_once(ctx):
    log = Log()
    l1, l2 = limits(ctx, "limits g1"), limits(ctx, "limits g2")
    l3, l4 = limits(ctx, "limits sensor g1"), limits(ctx, "limits sensor g2")
    wild = ctx.pick("wild", 8)
    s1 = sweep(ctx, "s1", l3, wild == 0)
    s2 = sweep(ctx, "s2", l4, wild == 1)
    csd = ctx.bool("csd")
    given = ctx.choice("given", [(0, 0), (1, 1), (1, 0), (0, 1)], [3, 6, 1, 1])
    v1 = ctx.biased("v1", *lohi(l1), wild == 2) if given[0] else None
    v2 = ctx.biased("v2", *lohi(l2), wild == 3) if given[1] else None
    res, n = resolution(ctx, weights=(4, 3, 6, 1, 0))
    sim = build(ctx, log, csd, True, l1, l2, l3, l4)
    out = ctx.call(sim.measure_sensor_scan, ctx.vec(s1), ctx.vec(s2), volt_g1=v1, volt_g2=v2, resolution=res)
    valid = ctx.and_(given[0] == given[1], *[inside(ctx, v, l3) for v in s1], *[inside(ctx, v, l4) for v in s2],
                     v1 is None or inside(ctx, v1, l1), v2 is None or inside(ctx, v2, l2),
                     res_valid(ctx, res, n, s1, s2))
    decide(ctx, log, out, valid, 1 if csd and given[0] and given[1] else 0)
