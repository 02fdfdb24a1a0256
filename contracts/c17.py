"""C17: the sensor-scan response is the series conductance of dot and barriers."""
from vc.ctx import scenario
from contracts.c10 import make, at, row_col
from contracts.scan import scan_sensor, barrier_value, peak_value, crossing, dot_potential, pinch_off, fully, middle_distance
from vc.loops import invariant

SS = "simcats.sensor._sensor_scan_sensor_generic.SensorScanSensorGeneric."


def series(ctx, s, b1, b2):
    den = b1 * b2 + s * b1 + s * b2
    return ctx.ite(den == 0, 0, s * b1 * b2 / ctx.ite(den == 0, 1, den))


def dims(ctx, least=1):
    if ctx.choice("dim", [1, 2]) == 2:
        return (ctx.size("rows", least), ctx.size("columns", least))
    return (ctx.size("pixels", least),)


def levers(ctx):
    return (ctx.array("alpha sensor gate", (3, 2)), ctx.array("alpha gate", (3, 2)), ctx.array("alpha dot", (3, 2)),
            ctx.array("offset", (3,)))


@scenario("C17", fns=[SS + "sensor_response"], trials=200)
def series_of_given_parts(ctx):
    """arbitrary non-negative peak and barrier responses"""
    shape = dims(ctx)
    tables = [ctx.array(n, shape, lo=0, **({} if ctx.sym else {"values": [0, 0.5, 1, 2, 3.25, 1e-3]}))
              for n in ("dot response", "barrier 1 response", "barrier 2 response")]
    unit = 1e-9 if not ctx.sym and ctx.bool("small units") else 1
    tables = [t * unit for t in tables] if unit != 1 else tables
    n = ctx.choice("peaks", [1, 2])
    # peaks and barriers that look their value up: an arbitrary function of the pixel
    ps = [lookup_peak(ctx, tables[0] * (1 if i == 0 else 0.5)) for i in range(n)]
    bs = [lookup_barrier(ctx, tables[1]), lookup_barrier(ctx, tables[2])]
    asg, ag, ad, off = levers(ctx)
    s = make(ctx, asg, ag, ad, off, peaks=ps, barriers=tuple(bs))
    v1, v2 = ctx.array("range g1", (2,)), ctx.array("range g2", (2,))
    occ = ctx.array("occupations", tuple(shape) + (2,))
    if ctx.bool("sensor scan"):
        ctx.run("potential", s.sensor_potential, occ, None, 1.0, v1, v2)
    else:
        ctx.run("potential", s.sensor_potential, occ, v1, v2, 1.0, None)
    mu = ctx.array("potentials", (3,) + tuple(shape))
    k = ctx.snap(mu)
    r = ctx.run("response", s.sensor_response, mu)
    dot = lambda ix: tables[0][ix] * (1 if n == 1 else 1.5)
    ctx.arr_eq("series combination", r, shape, lambda *ix: series(ctx, dot(ix), tables[1][ix], tables[2][ix]), tol=1e-8 * unit)
    ctx.forall("zero where a part vanishes", shape, lambda *ix: ctx.implies(
        ctx.or_(tables[0][ix] == 0, tables[1][ix] == 0, tables[2][ix] == 0), lambda: ctx.exact(r[ix], 0)))
    ctx.forall("non-negative, at most every part", shape, lambda *ix: ctx.and_(
        r[ix] >= 0, ctx.le(r[ix], dot(ix)), ctx.le(r[ix], tables[1][ix]), ctx.le(r[ix], tables[2][ix])))
    ctx.ensure("each part sees its own potential", parts_seen(ctx, ps, bs, k, shape))
    ctx.same("potential", mu, k)


def lookup_peak(ctx, table):
    base = ctx.mod("simcats.sensor").SensorPeakInterface
    seen = Shared()

    class Peak(base):
        mu0 = 0.0

        def sensor_function(self, mu_sens):
            seen.append(ctx.snap(mu_sens))
            return table
    p = Peak()
    p.seen = seen
    return p


def lookup_barrier(ctx, table):
    base = ctx.mod("simcats.sensor.barrier_function").BarrierFunctionInterface
    seen = Shared()

    class Barrier(base):
        pinch_off = 0.0
        fully_conductive = 1.0

        def get_value(self, potential):
            seen.append(ctx.snap(potential))
            return table
    b = Barrier()
    b.seen = seen
    return b


class Shared(list):
    def __deepcopy__(self, memo):
        return self


def parts_seen(ctx, ps, bs, mu, shape):
    ok = True
    for p, j in [(p, 0) for p in ps] + [(bs[0], 1), (bs[1], 2)]:
        ok = ctx.and_(ok, len(p.seen) >= 1)
        for a in p.seen:
            ctx.arr_eq(f"potential {j} handed to its response", a, shape, lambda *ix: mu[(j,) + ix])
    return ok


RESP = ("simcats.sensor._sensor_scan_sensor_generic", "SensorScanSensorGeneric.sensor_response")


@invariant(*RESP, 0, modifies=["sens_resp"])
def pixels_so_far(ctx, v, k, n, say):
    say.filled("pixels so far", v.sens_resp, lambda i: i < k, lambda i: ctx.ghost["dot"]((i,)))


@invariant(*RESP, 1, modifies=["sens_resp"])
def rows_so_far(ctx, v, k, n, say):
    say.filled("rows so far", v.sens_resp, lambda i, j: i < k, lambda i, j: ctx.ghost["dot"]((i, j)))


@invariant(*RESP, 2, modifies=["sens_resp"])
def row_so_far(ctx, v, k, n, say):
    say.filled("rows above and row so far", v.sens_resp, lambda i, j: ctx.or_(i < v.y, ctx.and_(ctx.eq(i, v.y), j < k)),
               lambda i, j: ctx.ghost["dot"]((i, j)))


def full_scan(ctx, what):
    """the sensor with real components in a sensor scan or a CSD"""
    shape = dims(ctx, 2)
    deformed, rise = what == "deformed", None
    log = Shared()
    if what == "rise":
        f = ctx.func("rise")
        rise = rise_of(ctx, f, log)
    s, info = scan_sensor(ctx, n_peaks=ctx.choice("peaks", [1, 2, 3]) if not ctx.sym else 2, deformed=deformed, rise=rise)
    occ = ctx.array("occupations", tuple(shape) + (2,), lo=0, hi=3)
    kind = "sensor" if deformed else ctx.choice("swept", ["sensor", "plunger", "one plunger"])
    a = [ctx.real(f"v{i}", -2, 2) for i in range(4)]
    lims = {"sensor": (None if ctx.bool("no g1") else a[0], None if ctx.bool("no g2") else a[1], (a[2], ctx.real("w1", -2, 2)),
                       (a[3], ctx.real("w2", -2, 2))),
            "plunger": ((a[0], ctx.real("w1", -2, 2)), (a[1], ctx.real("w2", -2, 2)), a[2], a[3]),
            "one plunger": ((a[0], ctx.real("w1", -2, 2)), (a[1], a[1]), a[2], a[3])}[kind]
    if kind == "plunger":
        ctx.assume(ctx.and_(ctx.not_(lims[0][0] == lims[0][1]), ctx.not_(lims[1][0] == lims[1][1])))
    args = [ctx.vec(v) if isinstance(v, tuple) else v for v in lims]
    ctx.run("potential", s.sensor_potential, occ, *args)
    mu = ctx.array("potentials", (3,) + tuple(shape), lo=-2, hi=2)
    kept = [ctx.snap(mu), ctx.snap(occ)] + [ctx.snap(x) for x in args]
    old = [(p.mu0, p.height, p.offset) for p in s.sensor_peak_function]
    ends = [(0, 0) if v is None else v if isinstance(v, tuple) else (v, v) for v in lims]
    plunger = (ends[0][0], ends[1][0])
    o = (occ[(0,) * len(shape) + (0,)], occ[(0,) * len(shape) + (1,)])
    if what == "deformed":
        mid = crossing(info, (pinch_off(ctx, info, 0), pinch_off(ctx, info, 1)), plunger, o)
        dot = lambda ix: deformed_sum(ctx, info, kept[0][(0,) + ix], ix, shape, ends, mid)
        if ctx.sym:
            ctx.ghost["dot"] = dot
    for rep in range(2 if not ctx.sym else 1):
        del log[:]
        r = ctx.run("response", s.sensor_response, mu)
        b = [lambda ix, j=j: barrier_value(ctx, info, j, mu[(j + 1,) + ix]) for j in (0, 1)]
        if what != "deformed":
            dot = lambda ix: sum(peak_value(ctx, kd, mu[(0,) + ix], p) for kd, p in info["peaks"])
        if what == "rise":
            plain = dot
            dot = lambda ix: ctx.max2(plain(ix), f(mu[(0,) + ix] - ctx.scalar(log[-1])))
            ctx.ensure("final rise evaluated", len(log) >= 1)
            if kind != "plunger":
                full = crossing(info, (fully(ctx, info, 0), fully(ctx, info, 1)), plunger, o)
                ctx.ensure("rise starts at the fully conductive point",
                           ctx.eq(ctx.scalar(log[-1]), dot_potential(info, plunger, full, o), 1e-6))
        ctx.arr_eq("series combination", r, shape, lambda *ix: series(ctx, dot(ix), b[0](ix), b[1](ix)), 1e-6)
        ctx.ensure("peaks unchanged", all([(p.mu0, p.height, p.offset) == q for p, q in zip(s.sensor_peak_function, old)]))
    ctx.same("potential", mu, kept[0])
    ctx.same("occupations", occ, kept[1])


def rise_of(ctx, f, log):
    base = ctx.mod("simcats.sensor").SensorRiseInterface

    class Rise(base):
        fully_conductive = 0.0

        def sensor_function(self, mu_sens, offset):
            log.append(offset)
            return f(mu_sens - offset)
    return Rise()


def deformed_sum(ctx, info, mu, ix, shape, ends, mid):
    c, nc, r, nr = row_col(len(shape), ix, shape)
    point = (at(ctx, ends[2], c, nc), at(ctx, ends[3], r, nr))
    d = middle_distance(ctx, info, point, mid)
    tot = 0
    for i, (kd, p) in enumerate(info["peaks"]):
        m0 = p[0]
        if i in info["defs"]:
            m0 = centre(ctx, info, info["defs"][i], d, m0)
        tot = tot + peak_value(ctx, kd, mu, (m0,) + tuple(p[1:]))
    return tot


def centre(ctx, info, deform, d, m0):
    if hasattr(deform, "f"):
        return deform.f(d, m0)
    a = info["asg"]
    norm = ctx.sqrt(a[0, 0] * a[0, 0] + a[0, 1] * a[0, 1])
    if hasattr(deform, "angle"):
        return m0 + ctx.cos(deform.angle) / ctx.sin(deform.angle) * norm * d
    R = ctx.ite(deform.radius < 0, -deform.radius, deform.radius) / norm
    h = ctx.ite(R * R - d * d < 0, 0, R * R - d * d)
    return m0 - ctx.ite(deform.radius < 0, -1, 1) * (R - ctx.sqrt(h))


@scenario("C17", fns=[SS + "sensor_response"], trials=200)
def peaks_and_barriers(ctx):
    full_scan(ctx, "plain")


@scenario("C17", fns=[SS + "sensor_response", SS + "_calc_point_from_barrier_potentials", SS + "_single_point_potential"], trials=200)
def final_rise(ctx):
    full_scan(ctx, "rise")


@scenario("C17", fns=[SS + "sensor_response", SS + "_peak_func", SS + "_calc_point_from_barrier_potentials"], trials=200)
def deformed_peaks(ctx):
    full_scan(ctx, "deformed")


@scenario("C17", fns=[SS + "get_sensor_scan_labels", SS + "sensor_response"], sym=False, trials=1,
          why_num="history of the known finding, one concrete sensor scan")
def labels_between(ctx):
    """sensor_potential, get_sensor_scan_labels, sensor_response: the labels must not disturb the response"""
    S, D, B = (ctx.mod("simcats.sensor"), ctx.mod("simcats.sensor.deformation"), ctx.mod("simcats.sensor.barrier_function"))
    np = ctx.np

    def fresh():
        bars = tuple(B.BarrierFunctionGLF(0.1, 0.9, 0, 1, 3.0, 1.0, 1.0) for _ in range(2))
        return make(ctx, np.array([[0.2, 0.3], [0.9, 0.1], [0.1, 0.9]]), np.zeros((3, 2)), np.zeros((3, 2)), np.zeros(3),
                    peaks=[S.SensorPeakGaussian(0.1, 0.2, 1.0)], barriers=bars,
                    deformations={0: D.SensorPeakDeformationCircle(0.5)})
    occ, v = np.zeros((3, 4, 2)), np.array([-1.0, 1.0])
    s, t = fresh(), fresh()
    mu = s.sensor_potential(occ, 0.0, 0.0, v, v.copy())
    s.get_sensor_scan_labels(0.0, 0.0, v, v.copy(), mu)
    nu = t.sensor_potential(occ, 0.0, 0.0, v, v.copy())
    ctx.ensure("labels do not disturb the following response", np.allclose(s.sensor_response(mu), t.sensor_response(nu)),
               "sensor_response after get_sensor_scan_labels evaluates the deformations at the fully conductive point")
