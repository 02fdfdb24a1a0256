"""C05: configuration is validated, copied on assignment and snapshotted."""
from vc.ctx import scenario
from contracts.common import Log, make_csd, make_sensor, make_dist, make_occ_dist

SIM = "simcats._simulation.Simulation"
LIMS = ["volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2"]
COMPS = ["ideal_csd_config", "sensor", "occupation_distortions", "sensor_potential_distortions",
         "sensor_response_distortions"]


def bad_limit(ctx, k):
    if k == 0:
        return ctx.vec([ctx.real("b0")])
    if k == 1:
        return ctx.vec([ctx.real("b0"), ctx.real("b1"), ctx.real("b2")])
    if k == 2:
        return [ctx.real("b0")]
    if k == 3:
        return [ctx.real("b0"), ctx.real("b1"), ctx.real("b2")]
    if k == 4:
        return ctx.real("b0")
    if k == 5:
        return "ab"
    if k == 6:
        return {0: 0.0, 1: 1.0}
    return []


@scenario("C05", fns=[f"{SIM}.{a}" for a in LIMS], trials=600)
def limit_setters(ctx):
    """each voltage limit: None, array or list of two values; an independent copy is stored"""
    S = ctx.mod("simcats").Simulation
    attr = ctx.choice("attribute", LIMS)
    a, b = ctx.real("a"), ctx.real("b")
    kind = ctx.choice("kind", ["none", "array", "list"])
    v = None if kind == "none" else ctx.vec([a, b]) if kind == "array" else [a, b]
    via_init = ctx.bool("through the constructor")
    if via_init:
        sim = ctx.run("constructor", S, **{attr: v})
    else:
        sim = S()
        ctx.run("setter", setattr, sim, attr, v)
    for other in LIMS:
        if other != attr:
            ctx.ensure("other limits untouched", getattr(sim, other) is None)
    got = getattr(sim, attr)
    if v is None:
        ctx.ensure("None is stored", got is None)
    else:
        ctx.ensure("value stored", ctx.and_(ctx.eq(got[0], a), ctx.eq(got[1], b)))
        v[0], v[1] = a + 1, b + 1
        got = getattr(sim, attr)
        ctx.ensure("stored value is independent of the caller's object", ctx.and_(ctx.eq(got[0], a), ctx.eq(got[1], b)))
    # an unsupported value is refused and the previous one stays in force
    bad = bad_limit(ctx, ctx.choice("unsupported", list(range(8))))
    ctx.raises("unsupported limit", ctx.call(setattr, sim, attr, bad))
    now = getattr(sim, attr)
    if v is None:
        ctx.ensure("previous value in force", now is None)
    else:
        ctx.ensure("previous value in force", ctx.and_(ctx.eq(now[0], a), ctx.eq(now[1], b)))
    ctx.raises("unsupported limit in the constructor", ctx.call(S, **{attr: bad}))


def component(ctx, log, attr, k=0):
    if attr == "ideal_csd_config":
        return make_csd(ctx, log)
    if attr == "sensor":
        return make_sensor(ctx, log, ctx.bool("scan sensor"), 1)[0]
    if attr == "occupation_distortions":
        return make_occ_dist(ctx, log, k, 2, 1)
    return make_dist(ctx, log, "pot" if "potential" in attr else "resp", k, 2, 1)


def tag(c):
    return c.par if hasattr(c, "par") else c.tag


@scenario("C05", fns=[f"{SIM}.{a}" for a in COMPS], trials=600)
def component_setters(ctx):
    """ideal CSD, sensor and distortions: the interface is checked, an independent copy is stored"""
    S = ctx.mod("simcats").Simulation
    attr = ctx.choice("attribute", COMPS)
    log = Log()
    lst = attr.endswith("distortions")
    n = ctx.choice("list length", [1, 0, 2, 3]) if lst else 1
    comps = [component(ctx, log, attr, k) for k in range(n)] if lst else component(ctx, log, attr)
    if ctx.bool("through the constructor"):
        sim = ctx.run("constructor", S, **{attr: comps})
    else:
        sim = S()
        ctx.run("setter", setattr, sim, attr, comps)
    got = getattr(sim, attr)
    if lst:
        ctx.ensure("as many distortions as given, in order", len(got) == n and all(
            type(g) is type(c) and g is not c and g.k == c.k for g, c in zip(got, comps)))
        ctx.ensure("list copied", got is not comps)
    else:
        ctx.ensure("component copied", type(got) is type(comps) and got is not comps)
    for c in comps if lst else [comps]:
        tag(c)[0] = "changed"
    if lst:
        comps.append("junk")
    got2 = getattr(sim, attr)
    ctx.ensure("later changes to the caller's object have no effect", (len(got2) == n if lst else True) and all(
        tag(g)[0] != "changed" for g in (got2 if lst else [got2])))
    # unsupported
    other = {"ideal_csd_config": "sensor", "sensor": "ideal_csd_config", "occupation_distortions": "sensor_potential_distortions",
             "sensor_potential_distortions": "sensor_response_distortions",
             "sensor_response_distortions": "occupation_distortions"}[attr]
    wrong = component(ctx, log, other)
    kind = ctx.choice("unsupported", [0, 1, 2, 3])
    if kind == 0:
        bad = wrong
    elif kind == 1:
        bad = object()
    elif kind == 2:
        bad = type(component(ctx, log, attr))     # the class instead of an instance
    else:
        bad = 3.5
    if lst:
        good = [component(ctx, log, attr, k) for k in range(2)]
        pos = ctx.choice("position", [0, 1, 2])
        bad = good[:pos] + [bad] + good[pos:]
    ctx.raises("unsupported component", ctx.call(setattr, sim, attr, bad))
    got3 = getattr(sim, attr)
    ctx.ensure("previous component in force", got3 is got2 if not lst else (
        len(got3) == n and all(x is y for x, y in zip(got3, got2))))
    ctx.raises("unsupported component in the constructor", ctx.call(S, **{attr: bad}))


@scenario("C05", fns=[f"{SIM}.sensor", f"{SIM}.ideal_csd_config"], trials=40)
def defaults(ctx):
    S = ctx.mod("simcats").Simulation
    sim = S()
    for a in LIMS + ["ideal_csd_config"] + COMPS[2:]:
        ctx.ensure(a + " defaults to None", getattr(sim, a) is None)
    sensor = make_sensor(ctx, Log(), False, 1)[0]
    sim.sensor = sensor
    sim.sensor = None
    ctx.ensure("no sensor means the default sensor", isinstance(sim.sensor, ctx.mod("simcats.sensor").SensorGeneric))
    for a in COMPS[2:]:
        setattr(sim, a, [])
        setattr(sim, a, None)
        ctx.ensure(a + " can be unset", getattr(sim, a) is None)
    sim.ideal_csd_config = make_csd(ctx, Log())
    sim.ideal_csd_config = None
    ctx.ensure("ideal CSD can be unset", sim.ideal_csd_config is None)


GEN = "simcats.sensor._sensor_generic.SensorGeneric"


@scenario("C05", fns=[f"{GEN}.{a}" for a in ("sensor_peak_function", "alpha_dot", "alpha_gate", "offset_mu_sens")], trials=500)
def generic_sensor_setters(ctx):
    m = ctx.mod("simcats.sensor")
    d0, d1, g0, g1, off = [ctx.real(n) for n in ("d0", "d1", "g0", "g1", "offset")]
    ad, ag = ctx.vec([d0, d1]), ctx.vec([g0, g1])
    mu, sg, h = ctx.real("mu"), ctx.real("sigma", 0, None, lo_open=True), ctx.real("h")
    peak = m.SensorPeakGaussian(mu, sg, h, 0.0)
    kind = ctx.choice("peaks", ["one", "list", "none"])
    peaks = peak if kind == "one" else [peak, m.SensorPeakLorentzian(mu + 1, sg, h, 0.0)] if kind == "list" else None
    if ctx.bool("through the constructor"):
        s = ctx.run("constructor", m.SensorGeneric, sensor_peak_function=peaks, alpha_dot=ad, alpha_gate=ag, offset_mu_sens=off)
    else:
        s = m.SensorGeneric()
        s.sensor_peak_function, s.alpha_dot, s.alpha_gate, s.offset_mu_sens = peaks, ad, ag, off
    ad[0], ag[1] = d0 + 1, g1 + 1
    peak.mu0 = mu + 5
    if kind == "list":
        peaks.pop()

    def intact(name):
        ctx.ensure(name + ": alpha_dot", ctx.and_(ctx.eq(s.alpha_dot[0], d0), ctx.eq(s.alpha_dot[1], d1)))
        ctx.ensure(name + ": alpha_gate", ctx.and_(ctx.eq(s.alpha_gate[0], g0), ctx.eq(s.alpha_gate[1], g1)))
        ctx.ensure(name + ": offset", ctx.eq(s.offset_mu_sens, off))
        p = s.sensor_peak_function
        if kind == "none":
            ctx.ensure(name + ": no peaks", p is None)
        else:
            ctx.ensure(name + ": peaks", len(p) == (1 if kind == "one" else 2))
            ctx.ensure(name + ": first peak", ctx.eq(p[0].mu0, mu))
            if kind == "list":
                ctx.ensure(name + ": second peak", ctx.eq(p[1].mu0, mu + 1))
    intact("independent of the caller's objects")
    bad = ctx.choice("unsupported", [0, 1, 2, 3, 4, 5, 6, 7])
    attr, val = [("alpha_dot", [d0, d1]), ("alpha_dot", ctx.vec([d0, d1, 0.0])), ("alpha_gate", None),
                 ("alpha_gate", ctx.vec([g0])), ("offset_mu_sens", "1"), ("offset_mu_sens", None),
                 ("sensor_peak_function", 3), ("sensor_peak_function", [m.SensorPeakGaussian(), "x"])][bad]
    ctx.raises("unsupported sensor setting", ctx.call(setattr, s, attr, val))
    intact("previous value in force")


REQ = ["sweep_range_g1", "sweep_range_g2", "volt_sensor_g1", "volt_sensor_g2", "resolution"]
REQ_S = ["sweep_range_sensor_g1", "sweep_range_sensor_g2", "volt_g1", "volt_g2", "resolution"]


@scenario("C05", fns=[f"{SIM}.measure"], weight=2, trials=400)
def metadata(ctx):
    """metadata records the request and the whole configuration as independent snapshots; nothing handed in changes"""
    snapshots(ctx, False)


@scenario("C05", fns=[f"{SIM}.measure_sensor_scan"], weight=2, trials=400)
def metadata_of_sensor_scans(ctx):
    snapshots(ctx, True)


def snapshots(ctx, scan):
    log = Log()
    S = ctx.mod("simcats").Simulation
    lims = {}
    for a in LIMS:
        lims[a] = None if ctx.bool(a + " unset") else [ctx.real(a + " margin lo", 0, None), ctx.real(a + " margin hi", 0, None)]
    s1, s2 = [ctx.real("s1[0]"), ctx.real("s1[1]")], [ctx.real("s2[0]"), ctx.real("s2[1]")]
    given = ctx.bool("fixed voltages given")
    v1, v2 = (ctx.real("v1"), ctx.real("v2")) if given else (None, None)

    def limit(a, *vs):
        if lims[a] is None:
            return None
        lo = hi = vs[0]
        for v in vs[1:]:
            lo, hi = ctx.min2(lo, v), ctx.max2(hi, v)
        return [lo - lims[a][0], hi + lims[a][1]]
    swept, fixed = (LIMS[2:], LIMS[:2]) if scan else (LIMS[:2], LIMS[2:])
    conf = {swept[0]: limit(swept[0], *s1), swept[1]: limit(swept[1], *s2)}
    for a, v in zip(fixed, (v1, v2)):
        conf[a] = limit(a, v if v is not None else 0.0)
    n = {"occupation_distortions": ctx.choice("occ", [None, 0, 2]), "sensor_potential_distortions": ctx.choice("pot", [None, 1]),
         "sensor_response_distortions": ctx.choice("resp", [None, 1])}
    comps = {"ideal_csd_config": make_csd(ctx, log), "sensor": make_sensor(ctx, log, scan or ctx.bool("scan sensor"), 1)[0]}
    for a, k in n.items():
        comps[a] = None if k is None else [component(ctx, log, a, i) for i in range(k)]
    sim = S(**{a: None if c is None else ctx.vec(c) for a, c in conf.items()}, **comps)
    r1, r2 = ctx.vec(s1), ctx.vec(s2)
    res = ctx.choice("res", [3, [3]])
    res0 = ctx.snap(res)
    req = dict(zip(REQ_S if scan else REQ, (r1, r2, v1, v2, res)))
    before = {a: getattr(sim, a) for a in COMPS}
    meta = ctx.run("measurement", sim.measure_sensor_scan if scan else sim.measure, **req)[3]
    # nothing handed in and nothing configured has changed
    for r, s in ((r1, s1), (r2, s2)):
        ctx.ensure("caller's sweep range unchanged", ctx.and_(ctx.eq(r[0], s[0]), ctx.eq(r[1], s[1])))
    ctx.ensure("caller's resolution unchanged", res == res0)
    check_conf(ctx, "configuration unchanged", sim, conf, n, tags=True)
    ctx.ensure("components not replaced", all(getattr(sim, a) is before[a] for a in COMPS))

    # the request
    def recorded(name):
        ks = REQ_S if scan else REQ
        for k, want in zip(ks, (s1, s2)):
            ctx.ensure(f"{name}: {k}", ctx.and_(ctx.eq(meta[k][0], want[0]), ctx.eq(meta[k][1], want[1])))
        ctx.ensure(f"{name}: {ks[2]}", ctx.eq(meta[ks[2]], v1))
        ctx.ensure(f"{name}: {ks[3]}", ctx.eq(meta[ks[3]], v2))
        ctx.ensure(f"{name}: resolution", meta["resolution"] == res0)

        class M:
            pass
        o = M()
        for a in LIMS + COMPS:
            ctx.ensure(name + " holds " + a, a in meta)
            setattr(o, a, meta[a])
        check_conf(ctx, name, o, conf, n, tags=True)
    recorded("metadata")
    ctx.ensure("metadata components are copies", all(meta[a] is not getattr(sim, a) for a in ("ideal_csd_config", "sensor")))
    # change everything afterwards: the metadata must not follow
    r1[0], r2[1] = s1[0] + 1, s2[1] - 1
    if isinstance(res, list):
        res.append(7)
    for a in LIMS:
        l = getattr(sim, a)
        if l is not None:
            l[0] = l[0] - 1
    for a in COMPS:
        c = getattr(sim, a)
        for x in (c if isinstance(c, list) else [c] if c is not None else []):
            tag(x)[0] = "changed"
        if isinstance(c, list):
            c.append("junk")
    recorded("metadata after later changes")


def check_conf(ctx, name, o, conf, n, tags):
    for a in LIMS:
        got, want = getattr(o, a), conf[a]
        if want is None:
            ctx.ensure(f"{name}: {a}", got is None)
        else:
            ctx.ensure(f"{name}: {a}", ctx.and_(ctx.eq(got[0], want[0]), ctx.eq(got[1], want[1])))
    for a, k in n.items():
        got = getattr(o, a)
        if k is None:
            ctx.ensure(f"{name}: {a}", got is None)
        else:
            ctx.ensure(f"{name}: {a}", len(got) == k and all(tag(x)[0] == 2 and x.k == i for i, x in enumerate(got)))
    for a in ("ideal_csd_config", "sensor"):
        ctx.ensure(f"{name}: {a}", tag(getattr(o, a))[0] == 0)


def state(sim):
    """everything configured, through the public getters"""
    out = {a: getattr(sim, a) for a in LIMS}
    c = sim.ideal_csd_config
    out["csd"] = [c.tct_params, c.rotation, c.lut_entries, c.cdf_type, c.cdf_gamma_factor]
    s = sim.sensor
    out["sensor"] = [s.alpha_dot, s.alpha_gate, s.offset_mu_sens]
    out["peaks"] = [sorted((k, v) for k, v in p.__dict__.items()) for p in s.sensor_peak_function]
    if hasattr(s, "alpha_sensor_gate"):
        out["asg"] = s.alpha_sensor_gate
        out["bar"] = [sorted(b.__dict__.items()) for b in s.barrier_functions]
        out["rise"] = None if s.final_rise is None else sorted(s.final_rise.__dict__.items())
    return out


def same_state(ctx, name, a, b):
    import numpy as np
    if isinstance(a, dict):
        for k in a:
            same_state(ctx, f"{name}: {k}", a[k], b[k])
    elif isinstance(a, (list, tuple)):
        ctx.ensure(name, len(a) == len(b))
        for x, y in zip(a, b):
            same_state(ctx, name, x, y)
    elif isinstance(a, np.ndarray):
        ctx.ensure(name, isinstance(b, np.ndarray) and np.array_equal(a, b))
    else:
        ctx.ensure(name, a == b, f"{a!r} became {b!r}")


@scenario("C05", fns=[f"{SIM}.measure", f"{SIM}.measure_sensor_scan"], sym=False,
          why_num="whole simulation with the real components", trials=24)
def real_components_unchanged(ctx):
    """a measurement with the real ideal CSD, sensors and blurring changes no configured array or parameter"""
    import simcats as sc
    from simcats.ideal_csd import IdealCSDGeometric
    from contracts.geometry import valid_tcts, window
    from contracts.scan import scan_sensor
    m = ctx.mod("simcats.sensor")
    tcts, rot = valid_tcts(ctx, 4)
    a, b, c, d = window(ctx, tcts, rot)
    scan = ctx.bool("scan sensor")
    if scan:
        sens = scan_sensor(ctx)[0]
    else:
        sens = m.SensorGeneric([m.SensorPeakGaussian(0.1, 0.5), m.SensorPeakLorentzian(0.4, 0.2)], ctx.vec([-0.1, -0.2]), ctx.vec([0.3, 0.1]), 0.2)
    csd = IdealCSDGeometric(tcts, rotation=rot, lut_entries=50)
    sim = sc.Simulation(ctx.vec([a, b]), ctx.vec([c, d]), ctx.vec([-9, 9]), ctx.vec([-9, 9]), ideal_csd_config=csd, sensor=sens,
                        occupation_distortions=[sc.distortions.OccupationTransitionBlurringGaussian(0.1)])
    before = ctx.snap(state(sim))
    r1, r2 = ctx.vec([a, b]), ctx.vec([c, d])
    if scan and ctx.bool("scan"):
        r = ctx.call(sim.measure_sensor_scan, ctx.vec([-1, 1]), ctx.vec([-1, 1]), volt_g1=(a + b) / 2, volt_g2=(c + d) / 2,
                     resolution=ctx.np.array([6, 5]))
    else:
        r = ctx.call(sim.measure, r1, r2, resolution=ctx.np.array([6, 5]))
    if isinstance(r.exc, (IndexError, AssertionError)):
        ctx.assume(False)     # window reaches above the last TCT
    ctx.no_exc("measurement", r)
    same_state(ctx, "configuration", before, state(sim))
    ctx.ensure("sweep ranges", r1[0] == a and r1[1] == b and r2[0] == c and r2[1] == d)
