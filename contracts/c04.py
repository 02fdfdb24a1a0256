"""C04: Simulation.measure_sensor_scan is the ordered composition of its stages."""
from vc.ctx import scenario
from contracts.common import Log, make_csd, make_sensor, make_dist, ideal
from contracts.c03 import params, vec_is, arrays_equal

FNS = ["simcats._simulation.Simulation.measure_sensor_scan"]


def compose(ctx, dim, n_pot, n_resp, channels, csd, given, occ_dist=False):
    log = Log()
    p_pot, p_resp = params(ctx, "pot", n_pot or 0), params(ctx, "resp", n_resp or 0)
    sensor, pot_of, resp_of = make_sensor(ctx, log, True, channels)
    sim = ctx.mod("simcats").Simulation(
        ideal_csd_config=make_csd(ctx, log) if csd else None, sensor=sensor,
        sensor_potential_distortions=None if n_pot is None else [make_dist(ctx, log, "pot", i, *p) for i, p in enumerate(p_pot)],
        sensor_response_distortions=None if n_resp is None else [make_dist(ctx, log, "resp", i, *p) for i, p in enumerate(p_resp)])
    s1 = [ctx.real("s1[0]"), ctx.real("s1[1]")]
    s2 = [ctx.real("s2[0]"), ctx.real("s2[1]")]
    if dim == 2:
        ctx.assume(ctx.not_(s1[0] == s1[1]))
        ctx.assume(ctx.not_(s2[0] == s2[1]))
        cols, rows = ctx.size("columns", 2), ctx.size("rows", 2)
        res, shape = ctx.np.array([cols, rows]), (rows, cols)
    else:
        n = ctx.size("pixels", 2)
        res, shape = (n, (n,)) if ctx.bool("int resolution") else ([n], (n,))
    v1, v2 = (ctx.real("v1"), ctx.real("v2")) if given else (None, None)
    out = ctx.run("measure_sensor_scan", sim.measure_sensor_scan, ctx.vec(s1), ctx.vec(s2), volt_g1=v1, volt_g2=v2,
                  resolution=res)
    scan, mask1, mask2 = out[0], out[1], out[2]
    # occupations
    e_occ = ctx.np.zeros(tuple(shape) + (2,))
    if csd and given:
        o, _ = ideal(ctx, v1, v1, v2, v2, (1,))
        e_occ[..., 0] = o[0, 0]
        e_occ[..., 1] = o[0, 1]
        for c in log.kinds("csd"):
            vec_is(ctx, "ideal CSD at the g1 voltage", c[1], (v1, v1))
            vec_is(ctx, "ideal CSD at the g2 voltage", c[2], (v2, v2))
    else:
        ctx.ensure("ideal CSD not evaluated", len(log.kinds("csd")) == 0)
    calls = log.kinds("potential")
    ctx.ensure("sensor potential evaluated", len(calls) >= 1)
    for c in calls:
        arrays_equal(ctx, "sensor potential of the fixed occupations", c[1], e_occ, tuple(shape) + (2,))
        ctx.ensure("plunger voltage g1 passed on", ctx.eq(c[2], v1))
        ctx.ensure("plunger voltage g2 passed on", ctx.eq(c[3], v2))
        vec_is(ctx, "sensor potential at the sensor g1 range", c[4], s1)
        vec_is(ctx, "sensor potential at the sensor g2 range", c[5], s2)
    z1, z2 = (v1, v2) if given else (0, 0)
    e_pot = pot_of(e_occ, z1 + 11 * (s1[0] + 3 * s1[1]), z2 * 2 - 13 * (s2[0] + 3 * s2[1]))
    full = tuple(shape) if channels == 1 else (3,) + tuple(shape)
    calls = log.kinds("labels")
    ctx.ensure("labels requested once", len(calls) == 1)
    arrays_equal(ctx, "labels of the undistorted potential", calls[0][1], e_pot, full)
    ctx.ensure("labels at the plunger voltage g1", ctx.eq(calls[0][2], v1))
    ctx.ensure("labels at the plunger voltage g2", ctx.eq(calls[0][3], v2))
    vec_is(ctx, "labels at the sensor g1 range", calls[0][4], s1)
    vec_is(ctx, "labels at the sensor g2 range", calls[0][5], s2)
    p0 = e_pot if channels == 1 else e_pot[0]
    arrays_equal(ctx, "first mask returned", mask1, p0 * 17 + 1, shape)
    arrays_equal(ctx, "second mask returned", mask2, p0 * 19 + 2, shape)
    calls = log.kinds("pot")
    for k, p in enumerate(p_pot):
        mine = [c for c in calls if c[1] == k]
        ctx.ensure(f"potential distortion {k} called once per array", len(mine) == channels)
        for c in mine:
            ctx.shape_is(f"potential handed to distortion {k}", c[2], shape)
            vec_is(ctx, f"g1 range of potential distortion {k}", c[3], s1)
            vec_is(ctx, f"g2 range of potential distortion {k}", c[4], s2)
        e_pot = e_pot * p[0] + p[1]
    calls = log.kinds("response")
    ctx.ensure("sensor response evaluated once", len(calls) == 1)
    arrays_equal(ctx, "sensor response of the distorted potential", calls[0][1], e_pot, full)
    e = resp_of(e_pot)
    calls = log.kinds("resp")
    ctx.ensure("response distortions called once each, in order", [c[1] for c in calls] == list(range(len(p_resp))))
    for k, p in enumerate(p_resp):
        arrays_equal(ctx, f"response handed to distortion {k}", calls[k][2], e, shape)
        vec_is(ctx, f"g1 range of response distortion {k}", calls[k][3], s1)
        vec_is(ctx, f"g2 range of response distortion {k}", calls[k][4], s2)
        e = e * p[0] + p[1]
    arrays_equal(ctx, "returned scan", scan, e, shape)


@scenario("C04", fns=FNS, weight=2, trials=400)
def occupations_and_labels(ctx):
    """which occupations are used, with and without ideal CSD and plunger voltages"""
    compose(ctx, ctx.choice("dim", [1, 2]), None, None, ctx.choice("channels", [1, 3]), ctx.bool("csd"), ctx.bool("given"))


@scenario("C04", fns=FNS, weight=2, trials=400)
def distortion_stages(ctx):
    compose(ctx, ctx.choice("dim", [1, 2]), ctx.choice("pots", [None, 0, 1, 2]), ctx.choice("resps", [None, 0, 1, 2]),
            ctx.choice("channels", [1, 3]), True, True)
