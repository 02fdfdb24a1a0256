"""C25: resetting the sensor offset hits the target potential and nothing else."""
from vc.ctx import scenario
from contracts.common import Log, make_csd, make_dist, make_occ_dist, ideal
from contracts.c05 import state, same_state

FN = "simcats.support_functions._reset_offset_mu_sens.reset_offset_mu_sens"


def settings(obj, but=()):
    """everything configured, through the public properties"""
    return {n: getattr(obj, n) for n in sorted(dir(type(obj))) if isinstance(getattr(type(obj), n), property) and n not in but}


def flat(v):
    return list(v) if isinstance(v, (list, tuple)) else [v]


def plain(ctx, d):
    return {n: [x if isinstance(x, (int, float, ctx.np.ndarray)) else None for x in flat(v)] for n, v in d.items()}


def kept(ctx, name, old, snap, new):
    """same settings: the same objects, or the same values"""
    ctx.ensure(name, old.keys() == new.keys())
    for n in old:
        a, k, b = flat(old[n]), flat(snap[n]), flat(new[n])
        ctx.ensure(f"{name}: {n}", len(a) == len(b))
        for x, y, z in zip(a, k, b):
            if isinstance(z, (int, float, ctx.np.ndarray)) or z is None:
                ctx.same(f"{name}: {n}", z, y)
            else:
                ctx.ensure(f"{name}: {n}", x is z)


def setup(ctx):
    sensor = ctx.mod("simcats.sensor").SensorGeneric
    s = sensor(sensor_peak_function=None, alpha_dot=ctx.array("alpha dot", (2,)), alpha_gate=ctx.array("alpha gate", (2,)),
               offset_mu_sens=ctx.real("offset"))
    log = Log()
    csd = make_csd(ctx, log)
    return ctx.mod("simcats").Simulation(
        ideal_csd_config=csd, sensor=s, volt_limits_g1=ctx.vec([-9.0, 9.0]), volt_limits_g2=ctx.vec([-8.0, 8.0]),
        occupation_distortions=[make_occ_dist(ctx, log, k, 2, 1) for k in range(2)],
        sensor_potential_distortions=[make_dist(ctx, log, "pot", 0, 2, 1)], sensor_response_distortions=[make_dist(ctx, log, "resp", 0, 3, 1)])


@scenario("C25", fns=[FN, "simcats.sensor._sensor_generic.SensorGeneric.sensor_potential",
                      "simcats.sensor._sensor_generic.SensorGeneric.offset_mu_sens"], trials=300)
def reset(ctx):
    sim = setup(ctx)
    f = ctx.get(FN)
    s = sim.sensor
    t = ctx.real("target")
    v1, v2 = ctx.vec([ctx.real("a"), ctx.real("b")]), ctx.vec([ctx.real("c"), ctx.real("d")])
    k = ctx.snap([v1, v2, s.alpha_dot, s.alpha_gate])
    of_sim, of_sensor = settings(sim), settings(s, ("offset_mu_sens",))
    before = ctx.snap(plain(ctx, of_sim)), ctx.snap(plain(ctx, of_sensor))
    ctx.run("reset", f, sim, t, v1, v2)
    kept(ctx, "simulation", of_sim, before[0], settings(sim))
    kept(ctx, "sensor", of_sensor, before[1], settings(sim.sensor, ("offset_mu_sens",)))
    o, _ = ideal(ctx, v1[0], v1[1], v2[0], v2[1], (2,))
    mu = ctx.run("potential", sim.sensor.sensor_potential, o, v1, v2)
    ctx.ensure("target at the start of the ranges", ctx.eq(mu[0], t, 1e-7))
    # the same stated independently of the sensor's own code
    a, g = sim.sensor.alpha_dot, sim.sensor.alpha_gate
    ctx.ensure("offset", ctx.eq(sim.sensor.offset_mu_sens, t - (a[0] * o[0, 0] + a[1] * o[0, 1] + g[0] * v1[0] + g[1] * v2[0]), 1e-7))
    ctx.same("sweep ranges and lever arms", [v1, v2, sim.sensor.alpha_dot, sim.sensor.alpha_gate], k)
    ctx.ensure("same sensor without peaks", ctx.and_(sim.sensor is s, s.sensor_peak_function is None))
    ctx.run("second reset", f, sim, t, v1, v2)
    nu = ctx.run("potential", sim.sensor.sensor_potential, o, v1, v2)
    ctx.ensure("second reset changes nothing", ctx.eq(nu[0], mu[0], 1e-7))


@scenario("C25", fns=[FN], sym=False, trials=60, why_num="whole configuration of a real simulation")
def nothing_else(ctx):
    """in a real default simulation, everything but the offset stays"""
    import simcats
    cfg = simcats.default_configs["GaAs_v1"]
    sim = simcats.Simulation(**cfg)
    np = ctx.np
    lo1, hi1 = cfg["volt_limits_g1"]
    lo2, hi2 = cfg["volt_limits_g2"]
    v1 = np.array([ctx.real("a", lo1, hi1), ctx.real("b", lo1, hi1)])
    v2 = np.array([ctx.real("c", lo2, hi2), ctx.real("d", lo2, hi2)])
    sim.sensor.offset_mu_sens = ctx.real("offset")
    t = ctx.real("target")
    before = ctx.snap(state(sim))
    ctx.run("reset", ctx.get(FN), sim, t, v1, v2)
    occ, _ = sim.ideal_csd_config.get_csd_data(v1, v2, 2)
    ctx.ensure("target at the start of the ranges", ctx.eq(sim.sensor.sensor_potential(occ, v1, v2)[0], t, 1e-9))
    o = sim.sensor.offset_mu_sens
    sim.sensor.offset_mu_sens = before["sensor"][2]
    same_state(ctx, "configuration but the offset", before, state(sim))
    sim.sensor.offset_mu_sens = o
    ctx.run("second reset", ctx.get(FN), sim, t, v1, v2)
    ctx.ensure("second reset changes nothing more", ctx.eq(sim.sensor.offset_mu_sens, o, 1e-9))

