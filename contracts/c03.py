"""C03: Simulation.measure is the ordered composition of its stages."""
from vc.ctx import scenario
from contracts.common import Log, make_csd, make_sensor, make_dist, make_occ_dist, occ_map, ideal, probe, generated

FNS = ["simcats._simulation.Simulation.measure"]


def params(ctx, name, n):
    return [(ctx.real(f"{name}{i} factor"), ctx.real(f"{name}{i} summand")) for i in range(n)]


def compose(ctx, dim, n_occ, n_pot, n_resp, channels, scan, twice=False):
    log = Log()
    p_occ, p_pot, p_resp = params(ctx, "occ", n_occ or 0), params(ctx, "pot", n_pot or 0), params(ctx, "resp", n_resp or 0)
    sensor, pot_of, resp_of = make_sensor(ctx, log, scan, channels)
    S = ctx.mod("simcats").Simulation
    sim = S(ideal_csd_config=make_csd(ctx, log), sensor=sensor,
            occupation_distortions=None if n_occ is None else [make_occ_dist(ctx, log, i, *p) for i, p in enumerate(p_occ)],
            sensor_potential_distortions=None if n_pot is None else [make_dist(ctx, log, "pot", i, *p) for i, p in enumerate(p_pot)],
            sensor_response_distortions=None if n_resp is None else [make_dist(ctx, log, "resp", i, *p) for i, p in enumerate(p_resp)])
    s1 = [ctx.real("s1[0]"), ctx.real("s1[1]")]
    s2 = [ctx.real("s2[0]"), ctx.real("s2[1]")]
    if dim == 2:
        ctx.assume(ctx.not_(s1[0] == s1[1]))
        ctx.assume(ctx.not_(s2[0] == s2[1]))
        cols, rows = ctx.size("columns", 2), ctx.size("rows", 2)
        res, shape = ctx.np.array([cols, rows]), (rows, cols)
    else:
        n = ctx.size("pixels", 2)
        res, shape = (n, (n,)) if ctx.bool("int resolution") else (ctx.np.array([n]), (n,))
    w1 = ctx.real("sensor v1") if scan else None
    w2 = ctx.real("sensor v2") if scan else None
    kw = dict(volt_sensor_g1=w1, volt_sensor_g2=w2) if scan else {}
    for rep in range(2 if twice else 1):
        del log[:]
        out = ctx.run("measure", sim.measure, ctx.vec(s1), ctx.vec(s2), resolution=res, **kw)
        check(ctx, log, out, p_occ, p_pot, p_resp, s1, s2, shape, pot_of, resp_of, channels, scan, w1, w2)


def vec_is(ctx, name, got, want):
    for i in range(2):
        ctx.ensure(name, ctx.eq(got[i], want[i]))


def arrays_equal(ctx, name, got, want, shape):
    ctx.arr_eq(name, got, shape, lambda *ix: want[ix])


def check(ctx, log, out, p_occ, p_pot, p_resp, s1, s2, shape, pot_of, resp_of, channels, scan, w1, w2):
    csd, occ, lead = out[0], out[1], out[2]
    # ideal CSD: once, at the requested ranges
    e_occ, e_lead = ideal(ctx, s1[0], s1[1], s2[0], s2[1], shape)
    calls = log.kinds("csd")
    ctx.ensure("ideal CSD called once", len(calls) == 1)
    vec_is(ctx, "ideal CSD at the g1 range", calls[0][1], s1)
    vec_is(ctx, "ideal CSD at the g2 range", calls[0][2], s2)
    # occupation distortions: each once, in order, unfrozen, on the result of the one before
    calls = log.kinds("occ")
    ctx.ensure("occupation distortions called once each, in order", [c[1] for c in calls] == list(range(len(p_occ))))
    ctx.ensure("no distortion of the measurement is frozen", len(log.kinds("frozen")) == 0)
    for k, p in enumerate(p_occ):
        c = calls[k]
        arrays_equal(ctx, f"occupations handed to distortion {k}", c[2], e_occ, tuple(shape) + (2,))
        arrays_equal(ctx, f"transitions handed to distortion {k}", c[3], e_lead, shape)
        vec_is(ctx, f"g1 range of occupation distortion {k}", c[4], s1)
        vec_is(ctx, f"g2 range of occupation distortion {k}", c[5], s2)
        v1, v2, n = probe(ctx, s1, s2, k)
        go, gl = generated(ctx, p_occ, k, v1, v2, (n,))
        occ_map(e_occ, e_lead, p, False, go, gl)
    arrays_equal(ctx, "returned occupations are those after all occupation distortions", occ, e_occ, tuple(shape) + (2,))
    arrays_equal(ctx, "returned transitions are those after all occupation distortions", lead, e_lead, shape)
    # sensor potential
    calls = log.kinds("potential")
    ctx.ensure("sensor potential evaluated once", len(calls) == 1)
    arrays_equal(ctx, "sensor potential of the distorted occupations", calls[0][1], e_occ, tuple(shape) + (2,))
    vec_is(ctx, "sensor potential at the g1 range", calls[0][2], s1)
    vec_is(ctx, "sensor potential at the g2 range", calls[0][3], s2)
    if scan:
        ctx.ensure("sensor voltage g1 passed on", ctx.eq(calls[0][4], w1))
        ctx.ensure("sensor voltage g2 passed on", ctx.eq(calls[0][5], w2))
        a, b = s1[0] + 3 * s1[1] + 11 * w1, 2 * (s2[0] + 3 * s2[1]) - 13 * w2
    else:
        a, b = s1[0] - s1[1], s2[0] * 2
    e_pot = pot_of(e_occ, a, b)
    # potential distortions
    calls = log.kinds("pot")
    ctx.ensure("potential distortions called once per array", len(calls) == len(p_pot) * channels)
    for k, p in enumerate(p_pot):
        mine = [c for c in calls if c[1] == k]
        ctx.ensure(f"potential distortion {k} called once per array", len(mine) == channels)
        for c in mine:
            ctx.shape_is(f"potential handed to distortion {k}", c[2], shape)
            vec_is(ctx, f"g1 range of potential distortion {k}", c[3], s1)
            vec_is(ctx, f"g2 range of potential distortion {k}", c[4], s2)
        e_pot = e_pot * p[0] + p[1]
    # response
    calls = log.kinds("response")
    ctx.ensure("sensor response evaluated once", len(calls) == 1)
    arrays_equal(ctx, "sensor response of the distorted potential", calls[0][1], e_pot,
                 tuple(shape) if channels == 1 else (3,) + tuple(shape))
    e = resp_of(e_pot)
    calls = log.kinds("resp")
    ctx.ensure("response distortions called once each, in order", [c[1] for c in calls] == list(range(len(p_resp))))
    for k, p in enumerate(p_resp):
        arrays_equal(ctx, f"response handed to distortion {k}", calls[k][2], e, shape)
        vec_is(ctx, f"g1 range of response distortion {k}", calls[k][3], s1)
        vec_is(ctx, f"g2 range of response distortion {k}", calls[k][4], s2)
        e = e * p[0] + p[1]
    arrays_equal(ctx, "returned scan", csd, e, shape)


@scenario("C03", fns=FNS, weight=2, trials=300)
def occupation_stages(ctx):
    """occupation distortions and the generator each of them is handed"""
    dim = ctx.choice("dim", [1, 2])
    compose(ctx, dim, ctx.choice("n", [None, 0, 1, 2, 3]), None, None, 1, False)


@scenario("C03", fns=FNS, weight=2, trials=300)
def sensor_stages(ctx):
    """potential and response distortions, one or three potential channels, both sensor kinds"""
    dim = ctx.choice("dim", [1, 2])
    compose(ctx, dim, None, ctx.choice("pots", [None, 0, 1, 2]), ctx.choice("resps", [None, 0, 1, 2]),
            ctx.choice("channels", [1, 3]), ctx.bool("scan sensor"))


@scenario("C03", fns=FNS, sym=False, why_num="product of the two cases above, measured twice", trials=400)
def everything_twice(ctx):
    dim = ctx.choice("dim", [1, 2])
    compose(ctx, dim, ctx.choice("n", [None, 1, 2, 3]), ctx.choice("pots", [None, 1, 2]),
            ctx.choice("resps", [None, 1, 2]), ctx.choice("channels", [1, 3]), ctx.bool("scan sensor"), twice=True)
