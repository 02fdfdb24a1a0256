"""C10: the sensor potential is affine in occupations and pixel voltages."""
from vc.ctx import scenario

SG = "simcats.sensor._sensor_generic.SensorGeneric."
SS = "simcats.sensor._sensor_scan_sensor_generic.SensorScanSensorGeneric."


def at(ctx, lim, i, n):
    """voltage of pixel i of n of an even sweep over lim, both ends included"""
    if n is None:
        return lim[0]
    return ctx.ite(n <= 1, lim[0], lim[0] + (lim[1] - lim[0]) * i / ctx.ite(n <= 1, 1, n - 1))


def occs(ctx, dim, special=False):
    """(shape, occupations): special sizes one are explored separately"""
    if dim == 2:
        shape = (ctx.size("rows", 1), ctx.size("columns", 1))
    else:
        shape = (ctx.size("pixels", 1),)
    return shape, ctx.array("occupations", shape + (2,), lo=0)


def row_col(dim, ix, shape):
    """(column index, columns, row index, rows) of pixel ix: in 1D both gates follow the one axis"""
    if dim == 2:
        return ix[1], shape[1], ix[0], shape[0]
    return ix[0], shape[0], ix[0], shape[0]


def generic(ctx, dim):
    shape, occ = occs(ctx, dim)
    ad, ag, off = ctx.array("alpha dot", (2,)), ctx.array("alpha gate", (2,)), ctx.real("offset")
    S = ctx.mod("simcats.sensor").SensorGeneric
    s = S(sensor_peak_function=None, alpha_dot=ad, alpha_gate=ag, offset_mu_sens=off)
    v1, v2 = ctx.array("range g1", (2,)), ctx.array("range g2", (2,))
    k = ctx.snap([occ, v1, v2, ad, ag])
    mu = ctx.run("potential", s.sensor_potential, occ, v1, v2)

    def want(*ix):
        c, nc, r, nr = row_col(dim, ix, shape)
        e = occ[ix + (0,)] * ad[0] + occ[ix + (1,)] * ad[1]
        return e + at(ctx, v1, c, nc) * ag[0] + at(ctx, v2, r, nr) * ag[1] + off
    ctx.arr_eq("sensor potential", mu, shape, want)
    ctx.same("inputs", [occ, v1, v2, ad, ag], k)


@scenario("C10", fns=[SG + "sensor_potential"], trials=200)
def generic_2d(ctx):
    generic(ctx, 2)


@scenario("C10", fns=[SG + "sensor_potential"], trials=200)
def generic_1d(ctx):
    generic(ctx, 1)


def volts(ctx, name, kinds):
    """one gate's voltages as passed on, and the (first, last) values they stand for"""
    kind = ctx.choice(name, kinds)
    if kind == "none":
        return None, (0, 0)
    if kind == "scalar":
        v = ctx.real(name + " voltage")
        return v, (v, v)
    if kind == "int":
        v = ctx.int(name + " whole voltage") if ctx.sym else ctx.choice(name + " voltage", [0, 3, -2])
        return v, (v, v)
    v = ctx.array(name + " range", (2,))
    return v, v


def levers(ctx, name, shared):
    """lever arms (3, 2), possibly given as one pair for all three potentials"""
    if shared:
        a = ctx.array(name, (2,))
        return a, lambda j, g: a[g]
    a = ctx.array(name, (3, 2))
    return a, lambda j, g: a[j, g]


def scan(ctx, dim, plunger, sensor, shared=False):
    shape, occ = occs(ctx, dim)
    ad, f_ad = levers(ctx, "alpha dot", shared)
    ag, f_ag = levers(ctx, "alpha gate", shared)
    asg = ctx.array("alpha sensor gate", (3, 2))
    if shared:
        off = ctx.real("offset")
        f_off = lambda j: off
    else:
        off = ctx.array("offset", (3,))
        f_off = lambda j: off[j]
    s = make(ctx, asg, ag, ad, off)
    g1, e1 = volts(ctx, "g1", plunger)
    g2, e2 = volts(ctx, "g2", plunger)
    w1, f1 = volts(ctx, "sensor g1", sensor)
    w2, f2 = volts(ctx, "sensor g2", sensor)
    mine = [x for x in (occ, g1, g2, w1, w2, ad, ag, asg, off) if x is not None]
    k = ctx.snap(mine)
    mu = ctx.run("potential", s.sensor_potential, occupations=occ, volt_limits_g1=g1, volt_limits_g2=g2,
                 volt_limits_sensor_g1=w1, volt_limits_sensor_g2=w2)
    ctx.shape_is("potentials", mu, (3,) + tuple(shape))
    for j, name in enumerate(["sensor dot", "barrier 1", "barrier 2"]):
        def want(*ix):
            c, nc, r, nr = row_col(dim, ix, shape)
            e = occ[ix + (0,)] * f_ad(j, 0) + occ[ix + (1,)] * f_ad(j, 1) + f_off(j)
            e = e + at(ctx, e1, c, nc) * f_ag(j, 0) + at(ctx, e2, r, nr) * f_ag(j, 1)
            return e + at(ctx, f1, c, nc) * asg[j, 0] + at(ctx, f2, r, nr) * asg[j, 1]
        ctx.arr_eq(f"{name} potential", mu[j], shape, want)
    ctx.same("inputs", mine, k)


def make(ctx, asg, ag, ad, off, peaks=None, barriers=None, rise=None, deformations=None):
    if barriers is None:
        B = ctx.mod("simcats.sensor.barrier_function").BarrierFunctionMultiGLF
        barriers = B(0.0, 1.0)
    S = ctx.mod("simcats.sensor").SensorScanSensorGeneric
    return S(barrier_functions=barriers, sensor_peak_function=peaks, alpha_sensor_gate=asg, alpha_gate=ag, alpha_dot=ad,
             offset_mu_sens=off, final_rise=rise, sensor_peak_deformations={} if deformations is None else deformations)


FIXED = ["none", "scalar", "int"]


@scenario("C10", fns=[SS + "sensor_potential"], trials=150)
def scan_sensor_plunger_swept_2d(ctx):
    scan(ctx, 2, ["range"] + FIXED, FIXED)


@scenario("C10", fns=[SS + "sensor_potential"], trials=150)
def scan_sensor_plunger_swept_1d(ctx):
    scan(ctx, 1, ["range"] + FIXED, FIXED)


@scenario("C10", fns=[SS + "sensor_potential"], trials=150)
def scan_sensor_sensor_swept_2d(ctx):
    scan(ctx, 2, FIXED, ["range"] + FIXED)


@scenario("C10", fns=[SS + "sensor_potential"], trials=150)
def scan_sensor_sensor_swept_1d(ctx):
    scan(ctx, 1, FIXED, ["range"] + FIXED)


@scenario("C10", fns=[SS + "sensor_potential", SS + "alpha_dot", SS + "alpha_gate", SS + "offset_mu_sens"], trials=150)
def scan_sensor_shared_levers(ctx):
    """one pair of lever arms and one offset given for all three potentials"""
    if ctx.bool("sensor swept"):
        scan(ctx, ctx.choice("dim", [1, 2]), ["scalar"], ["range"], shared=True)
    else:
        scan(ctx, ctx.choice("dim", [1, 2]), ["range"], ["scalar"], shared=True)


@scenario("C10", fns=[SS + "sensor_potential"], trials=60)
def both_swept_rejected(ctx):
    dim = ctx.choice("dim", [1, 2])
    shape, occ = occs(ctx, dim)
    s = make(ctx, ctx.array("asg", (3, 2)), ctx.array("ag", (3, 2)), ctx.array("ad", (3, 2)), ctx.array("off", (3,)))
    p, q = ctx.choice("swept plunger", [(1, 0), (0, 1), (1, 1)]), ctx.choice("swept sensor", [(1, 0), (0, 1), (1, 1)])
    a = [ctx.array(f"v{i}", (2,)) if x else ctx.choice(f"v{i} fixed", [None, 1.5]) for i, x in enumerate(p + q)]
    ctx.raises("simultaneous sweep", ctx.call(s.sensor_potential, occ, *a))
