"""C18: sensor-scan labels agree with the barrier and peak potentials."""
from vc.ctx import scenario
from contracts.c10 import at, row_col
from contracts.c17 import centre, dims
from contracts.scan import scan_sensor, crossing, dot_potential, pinch_off, fully, middle_distance

SS = "simcats.sensor._sensor_scan_sensor_generic.SensorScanSensorGeneric."


def setup(ctx, deformed=False, n_peaks=None, least=2, pairs=(('real', 'none'), ('int', 'real'))):
    shape = dims(ctx, least)
    if deformed and ctx.sym:
        deformed = [(0,)]
    s, info = scan_sensor(ctx, n_peaks=n_peaks, deformed=deformed)
    o = (ctx.real("occ 0", 0, 3), ctx.real("occ 1", 0, 3))
    occ = ctx.np.zeros(tuple(shape) + (2,))
    occ[..., 0] = o[0]
    occ[..., 1] = o[1]
    plunger = [ctx.choice(f"plunger {i}", ["none", "real", "int"]) for i in range(2)] if not (ctx.sym and pairs) else \
        ctx.choice("plungers", pairs)
    pv = [None if k == "none" else ctx.real(f"plunger voltage {i}", -2, 2) if k == "real" else
          ctx.int(f"whole voltage {i}") if ctx.sym else ctx.choice(f"int {i}", [1, -1, 0]) for i, k in enumerate(plunger)]
    if ctx.sym:
        return s, info, shape, o, occ, pv, [(ctx.real(f"w{i}"), ctx.real(f"x{i}")) for i in range(2)]
    ends = [(ctx.real(f"w{i}", -2, 0), ctx.real(f"x{i}", 0, 2)) for i in range(2)]
    ends = [e if ctx.bool(f"upwards {i}") else e[::-1] for i, e in enumerate(ends)]
    if len(shape) == 1 and ctx.bool("one gate fixed"):
        ends[0] = (ends[0][0], ends[0][0])
    return s, info, shape, o, occ, pv, ends


@scenario("C18", fns=[SS + "_calc_point_from_barrier_potentials"], trials=300)
def operating_point(ctx):
    s, info, shape, o, occ, pv, ends = setup(ctx, n_peaks=1, pairs=None)
    pot = ctx.run("potential", s.sensor_potential, occ, pv[0], pv[1], ctx.vec(ends[0]), ctx.vec(ends[1]))
    t = [ctx.real("target 1", -2, 2), ctx.real("target 2", -2, 2)]
    p = ctx.run("operating point", ctx.helper(s, "_calc_point_from_barrier_potentials"), t[0], t[1])
    one = ctx.np.array([[o[0], o[1]]])
    k = ctx.run("potential there", s.sensor_potential, one, pv[0], pv[1], p[0], p[1])
    ctx.ensure("barrier 1 potential at the operating point", ctx.eq(k[1, 0], t[0], 1e-6))
    ctx.ensure("barrier 2 potential at the operating point", ctx.eq(k[2, 0], t[1], 1e-6))


def potentials(ctx, s, shape, occ, pv, g1, g2):
    """the potentials of the scan; deductively: arbitrary ones (sensor_potential is C10's)"""
    pot = ctx.run("potential", s.sensor_potential, occ, pv[0], pv[1], g1, g2)
    return ctx.array("potentials", (3,) + tuple(shape)) if ctx.sym else pot


def labels(ctx, deformed):
    s, info, shape, o, occ, pv, ends = setup(ctx, deformed, (1 if deformed else 2) if ctx.sym else None, **({"pairs": (("real", "int"),)} if deformed else {}))
    g1, g2 = ctx.vec(ends[0]), ctx.vec(ends[1])
    po = [pinch_off(ctx, info, i) for i in range(2)]
    plunger = [0 if v is None else v for v in pv]
    fp = crossing(info, (fully(ctx, info, 0), fully(ctx, info, 1)), plunger, o)
    top = dot_potential(info, plunger, fp, o)
    if ctx.sym:     # the same point as the code computes it, shown to be the same
        potentials(ctx, s, shape, occ, pv, g1, g2)
        q = ctx.run("fully conductive point", ctx.helper(s, "_calc_point_from_barrier_potentials"), fully(ctx, info, 0), fully(ctx, info, 1))
        t = ctx.run("potential there", s.sensor_potential, ctx.np.array([[o[0], o[1]]]), pv[0], pv[1], q[0], q[1])[0, 0]
        ctx.ensure("potential of the fully conductive point", ctx.eq(t, top))
        top = t
    pot = potentials(ctx, s, shape, occ, pv, g1, g2)
    keep = [ctx.snap(x) for x in (pot, g1, g2)]
    old = [(p.mu0, p.height, p.offset) for p in s.sensor_peak_function]
    cond, coul = ctx.run("labels", s.get_sensor_scan_labels, pv[0], pv[1], g1, g2, pot)
    for x, k, name in zip((pot, g1, g2), keep, ("potential", "sensor g1", "sensor g2")):
        ctx.same(name, x, k)
    ctx.ensure("peaks unchanged", all([(p.mu0, p.height, p.offset) == q for p, q in zip(s.sensor_peak_function, old)]))
    ctx.shape_is("conductive mask", cond, shape)
    ctx.shape_is("Coulomb peak mask", coul, shape)
    def conductive(*ix):
        b = ctx.and_(pot[(1,) + ix] > po[0], pot[(2,) + ix] > po[1])
        want = ctx.ite(b, ctx.ite(pot[(0,) + ix] > top, 2, 1), 0)
        if not ctx.sym and (ctx.is_near(pot[(1,) + ix], po[0]) or ctx.is_near(pot[(2,) + ix], po[1]) or
                            ctx.is_near(pot[(0,) + ix], top)):
            return True
        return ctx.exact(cond[ix], want)
    ctx.forall("conductive label", shape, conductive)
    n = len(info["peaks"])
    ctx.forall("peaks only on conductive pixels", shape, lambda *ix: ctx.implies(ctx.not_(coul[ix] == 0), lambda: cond[ix] == 1))
    ctx.forall("labels name existing peaks", shape, lambda *ix: ctx.and_(0 <= coul[ix], coul[ix] <= n))
    mid = crossing(info, (po[0], po[1]), plunger, o)

    def off_peak(i, ix):
        m0 = info["peaks"][i][1][0]
        if i in info["defs"]:
            c, nc, r, nr = row_col(len(shape), ix, shape)
            d = middle_distance(ctx, info, (at(ctx, ends[0], c, nc), at(ctx, ends[1], r, nr)), mid)
            m0 = centre(ctx, info, info["defs"][i], d, m0)
        v = pot[(0,) + ix] - m0
        return ctx.ite(v < 0, -v, v)
    width = shape[-1]
    for i in range(n):
        # the labelled pixel is a closest one of its row
        ctx.forall(f"peak {i} label marks the closest pixel of the row", tuple(shape) + (width,),
                   lambda *jx: ctx.implies(coul[jx[:-1]] == i + 1,
                                           lambda: ctx.le(off_peak(i, jx[:-1]), off_peak(i, jx[:-2] + (jx[-1],)), 1e-7)))


@scenario("C18", fns=[SS + "get_sensor_scan_labels", SS + "_calc_point_from_barrier_potentials"], trials=200)
def plain_labels(ctx):
    labels(ctx, False)


@scenario("C18", fns=[SS + "get_sensor_scan_labels", SS + "_calc_point_from_barrier_potentials"], trials=200)
def deformed_labels(ctx):
    labels(ctx, True)


@scenario("C18", fns=[SS + "get_sensor_scan_labels"], trials=200)
def crossed_peaks_are_labelled(ctx):
    """a peak whose centre is passed inside a conductive row is labelled there, unless another peak claims the pixel"""
    s, info, shape, o, occ, pv, ends = setup(ctx, False, 2 if ctx.sym else None, least=3)
    g1, g2 = ctx.vec(ends[0]), ctx.vec(ends[1])
    pot = potentials(ctx, s, shape, occ, pv, g1, g2)
    cond, coul = ctx.run("labels", s.get_sensor_scan_labels, pv[0], pv[1], g1, g2, pot)
    if ctx.sym:
        crossed(ctx, info, shape, pot, cond, coul)
        return
    w = shape[-1]
    for i, (kd, p) in enumerate(info["peaks"]):
        for row in ([()] if len(shape) == 1 else [(r,) for r in range(shape[0])]):
            d = [abs(pot[(0,) + row + (c,)] - p[0]) for c in range(w)]
            c = min(range(w), key=lambda j: d[j])
            if 0 < c < w - 1 and cond[row + (c,)] == 1 and d[c] < min(d[c - 1], d[c + 1]) - 1e-9:
                others = [q for q, (kq, pq) in enumerate(info["peaks"]) if q != i and
                          min(range(w), key=lambda j: abs(pot[(0,) + row + (j,)] - pq[0])) == c]
                ctx.ensure("closest pixel labelled", coul[row + (c,)] == i + 1 or bool(others), f"peak {i} at {row + (c,)}")


def crossed(ctx, info, shape, pot, cond, coul):
    """a pixel inside the conductive region, nearer to the centre of peak 0 or 1 than every other pixel of its row"""
    i = ctx.choice("crossed peak", [0, 1])
    row = (ctx.int("row"),) if len(shape) == 2 else ()
    c, m0, w = ctx.int("column"), info["peaks"][i][1][0], shape[-1]
    d = lambda col: ctx.ite(pot[(0,) + row + (col,)] < m0, m0 - pot[(0,) + row + (col,)], pot[(0,) + row + (col,)] - m0)
    ctx.assume(ctx.and_(0 < c, c < w - 1, *[ctx.and_(0 <= r, r < shape[0]) for r in row]))
    ctx.assume(ctx.exact(cond[row + (c,)], 1))
    ctx.forall_assume((w,), lambda j: ctx.or_(ctx.eq(j, c), d(c) < d(j)))
    ctx.hint(pot[(0,) + row + (c,)])
    ctx.ensure("closest pixel labelled", ctx.or_(*[ctx.exact(coul[row + (c,)], k + 1) for k in range(len(info["peaks"]))]))


@scenario("C18", fns=[SS + "get_sensor_scan_labels"], trials=40)
def swept_plungers_rejected(ctx):
    s, info, shape, o, occ, pv, ends = setup(ctx, n_peaks=1)
    g1, g2 = ctx.vec(ends[0]), ctx.vec(ends[1])
    pot = ctx.run("potential", s.sensor_potential, occ, pv[0], pv[1], g1, g2)
    bad = ctx.vec([0.0, 1.0])
    a = (bad, pv[1]) if ctx.bool("g1") else (pv[0], bad)
    ctx.raises("labels of a plunger sweep", ctx.call(s.get_sensor_scan_labels, a[0], a[1], g1, g2, pot))
