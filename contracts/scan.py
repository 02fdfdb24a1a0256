"""A sensor for sensor scans composed of the components of /repo with arbitrary parameters."""
from contracts.c10 import make
from contracts.c15 import peak, shape_of
from contracts import c16


def abstract_sensor(ctx, n, deformed, rise):
    """the sensor composed of components of which only the interface is known: arbitrary barrier, peak and deformation functions"""
    S, D = ctx.mod("simcats.sensor"), ctx.mod("simcats.sensor.deformation")
    B = ctx.mod("simcats.sensor.barrier_function")
    asg, ag, ad = (ctx.array(n_, (3, 2)) for n_ in ("alpha sensor gate", "alpha gate", "alpha dot"))
    off = ctx.array("offset", (3,))
    ctx.assume(ctx.not_(asg[0, 0] == 0))
    if ctx.choice("cross capacitance of barrier 1", [1, 0]) == 0:
        asg[1, 1] = 0
        ctx.assume(ctx.and_(ctx.not_(asg[1, 0] == 0), ctx.not_(asg[2, 1] == 0)))
    else:       # smaller cross capacitances are taken for zero
        ctx.assume(ctx.or_(asg[1, 1] >= 1e-15, asg[1, 1] <= -1e-15))
        ctx.assume(ctx.not_(asg[1, 0] * asg[2, 1] - asg[1, 1] * asg[2, 0] == 0))

    class Barrier(B.BarrierFunctionInterface):
        def __init__(self, i):
            self.f = ctx.func(f"barrier {i}")
            self._p = ctx.real(f"pinch off {i}"), ctx.real(f"fully conductive {i}")

        pinch_off = property(lambda self: self._p[0])
        fully_conductive = property(lambda self: self._p[1])

        def get_value(self, potential):
            return self.f(potential)

        def __deepcopy__(self, memo):
            return self

    class Peak(S.SensorPeakInterface):
        mu0, height, offset = None, 1, 0

        def __init__(self, mu0, f):
            self.mu0, self.f = mu0, f

        def sensor_function(self, mu_sens):
            return self.f(mu_sens, self.mu0)

        def __deepcopy__(self, memo):
            return Peak(self.mu0, self.f)

    class Deformation(D.SensorPeakDeformationInterface):
        def __init__(self, i):
            super().__init__()
            self.f = ctx.func(f"deformation {i}", 2)

        def calc_mu(self, dist, mu0):
            return self.f(dist, mu0)
    bars = [Barrier(i) for i in range(2)]
    peaks = [Peak(ctx.real(f"peak {i} mu0"), ctx.func(f"peak {i}", 2)) for i in range(n)]
    if deformed is True:
        deformed = [(0,) + tuple(range(1, k)) for k in range(1, n + 1)]
    defs = {i: Deformation(i) for i in ctx.choice("deformed peaks", deformed)} if deformed else {}
    s = make(ctx, asg, ag, ad, off, peaks=peaks, barriers=bars, rise=rise, deformations=dict(defs))
    return s, dict(asg=asg, ag=ag, ad=ad, off=off, barriers=[("abstract", b._p[0], b._p[1], b.f) for b in bars],
                   peaks=[("abstract", (p.mu0, p.f)) for p in peaks], defs=defs)


def barrier_value(ctx, info, j, x):
    b = info["barriers"][j]
    return b[3](x) if b[0] == "abstract" else c16.ref(ctx, x, b[0])


def peak_value(ctx, kind, mu, p):
    return p[1](mu, p[0]) if kind == "abstract" else shape_of(ctx, kind, mu, p)


def scan_sensor(ctx, n_peaks=None, peaks_spread=1.0, deformed=False, rise=None, den=1.0):
    """(sensor, info): barriers rising logistically, lever arms of a usual sensor dot (barrier i mostly coupled to gate i)"""
    n = ctx.choice("number of peaks", [1, 2, 3]) if n_peaks is None else n_peaks
    if ctx.sym:
        return abstract_sensor(ctx, n, deformed, rise)
    S, D = ctx.mod("simcats.sensor"), ctx.mod("simcats.sensor.deformation")
    B = ctx.mod("simcats.sensor.barrier_function")
    asg = ctx.array("alpha sensor gate", (3, 2), lo=0.1, hi=0.3)
    asg[1, 0] = ctx.real("lever barrier 1", 0.5, 1.0)
    asg[2, 1] = ctx.real("lever barrier 2", 0.5, 1.0)
    if ctx.choice("cross capacitance of barrier 1", [1, 0], [4, 1]) == 0:
        asg[1, 1] = 0
    ag, ad = ctx.array("alpha gate", (3, 2), lo=-0.3, hi=0.3), ctx.array("alpha dot", (3, 2), lo=-0.3, hi=0.3)
    off = ctx.array("offset", (3,), lo=-0.5, hi=0.5)
    bars, bp = [], []
    for i in range(2):
        a, b = ctx.real(f"pinch off percentage {i}", 0.01, 0.4), ctx.real(f"fully conductive percentage {i}", 0.6, 0.99)
        K, gr, nu, q, o = (ctx.real(f"barrier {i} height", 0.2, 3), ctx.real(f"barrier {i} growth", 1, 6),
                           ctx.real(f"barrier {i} asymmetry", 0.5, 2), ctx.real(f"barrier {i} shape", 0.3, 2),
                           ctx.real(f"barrier {i} offset", -1, 1))
        bars.append(B.BarrierFunctionGLF(pinch_off_percentage=a, fully_conductive_percentage=b, asymptote_left=0.0,
                                         asymptote_right=K, growth_rate=gr, asymmetry=nu, shape_factor=q, offset=o))
        bp.append(((0.0, K, gr, nu, q, 1, o), a, b))
    peaks, pp = [], []
    for i in range(n):
        kind = ctx.choice(f"kind of peak {i}", ["gauss", "lorentz"])
        m0, w = ctx.real(f"peak {i} mu0", -peaks_spread, peaks_spread), ctx.real(f"peak {i} width", 0.02, 0.5)
        h = ctx.real(f"peak {i} height", 0.1, 2)
        peaks.append(S.SensorPeakGaussian(mu0=m0, sigma=w, height=h, offset=0) if kind == "gauss" else
                     S.SensorPeakLorentzian(mu0=m0, gamma=w, height=h, offset=0))
        pp.append((kind, (m0, w, h, 0)))
    defs = {}
    if deformed:
        for i in range(n):
            k = ctx.choice(f"deformation of peak {i}", ["none", "linear", "circle"]) if i else \
                ctx.choice(f"deformation of peak {i}", ["linear", "circle"])
            if k == "linear":
                defs[i] = D.SensorPeakDeformationLinear(ctx.real(f"angle {i}", 0.3, 2.8))
            elif k == "circle":
                defs[i] = D.SensorPeakDeformationCircle(ctx.real(f"radius {i}", nz=True))
    s = make(ctx, asg, ag, ad, off, peaks=peaks, barriers=bars, rise=rise, deformations=defs)
    return s, dict(asg=asg, ag=ag, ad=ad, off=off, barriers=bp, peaks=pp, defs=defs)


def crossing(info, pots, plunger, occ):
    """sensor gate voltages at which the two barrier potentials take the values `pots`"""
    a = info["asg"]
    r = []
    for j in (1, 2):
        r.append(pots[j - 1] - (info["ag"][j, 0] * plunger[0] + info["ag"][j, 1] * plunger[1] + info["off"][j] +
                                info["ad"][j, 0] * occ[0] + info["ad"][j, 1] * occ[1]))
    det = a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]
    return (r[0] * a[2, 1] - r[1] * a[1, 1]) / det, (a[1, 0] * r[1] - a[2, 0] * r[0]) / det


def dot_potential(info, plunger, gates, occ):
    a = info
    return (a["asg"][0, 0] * gates[0] + a["asg"][0, 1] * gates[1] + a["ag"][0, 0] * plunger[0] + a["ag"][0, 1] * plunger[1] +
            a["ad"][0, 0] * occ[0] + a["ad"][0, 1] * occ[1] + a["off"][0])


def inverse(ctx, p, value):
    A, K, B, nu, Q, C, o = p
    return o - ctx.log((ctx.power((K - A) / (value - A), nu) - C) / Q) / B


def pinch_off(ctx, info, i):
    if info["barriers"][i][0] == "abstract":
        return info["barriers"][i][1]
    p, a, b = info["barriers"][i]
    return inverse(ctx, p, p[0] + a * (p[1] - p[0]))


def fully(ctx, info, i):
    if info["barriers"][i][0] == "abstract":
        return info["barriers"][i][2]
    p, a, b = info["barriers"][i]
    return inverse(ctx, p, p[0] + b * (p[1] - p[0]))


def middle_distance(ctx, info, point, middle):
    """signed distance from the middle line: through the pinch-off point with slope asg[0,1]/asg[0,0], positive to the
    right of its direction (1, slope)"""
    m = info["asg"][0, 1] / info["asg"][0, 0]
    return ((point[0] - middle[0]) * m - (point[1] - middle[1])) / ctx.sqrt(1 + m * m)
