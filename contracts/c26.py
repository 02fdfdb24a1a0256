"""C26: sampled random configurations are complete, in range and simulate.

The ranges are those the random_variations_v3 family documents (the tables at the top of the sampling functions)."""
import math

from vc.ctx import scenario
from contracts.geometry import Tct

CS = "simcats.config_samplers._GaAs_v1_random_variations_v3_config_sampler."
WHY = "sampling loops over random numbers, whole-simulation calls"
LIM = (-0.2, -0.06)


class Streams:
    """every default_rng() of the sampler becomes a seeded generator that records the distributions drawn from"""

    def __init__(self, np, seed):
        self.np, self.seed, self.k, self.log = np, seed, 0, []

    def __enter__(self):
        np, me = self.np, self

        class Rng(np.random.Generator):
            def __new__(cls, s):
                return super().__new__(cls, np.random.PCG64(s))

            def __init__(self, s):
                super().__init__(np.random.PCG64(s))

            def exponential(self, scale=1.0, size=None):
                v = super().exponential(scale, size)
                me.log.append(("exponential", scale, v))
                return v

            def normal(self, loc=0.0, scale=1.0, size=None):
                v = super().normal(loc, scale, size)
                me.log.append(("normal", loc, scale, v))
                return v

            def uniform(self, low=0.0, high=1.0, size=None):
                v = super().uniform(low, high, size)
                me.log.append(("uniform", low, high, v))
                return v

        self.old = np.random.default_rng

        def make(seed=None):
            self.k += 1
            return Rng(self.seed * 1000 + self.k) if seed is None else self.old(seed)
        np.random.default_rng = make
        return self

    def __exit__(self, *a):
        self.np.random.default_rng = self.old


def within(ctx, name, v, lo, hi, lo_open=False):
    eps = 1e-9 * max(abs(lo), abs(hi) if math.isfinite(hi) else 1)
    ctx.ensure(name, math.isfinite(float(v)) and lo - (0 if lo_open else eps) <= v <= hi + eps and not (lo_open and v <= lo),
               f"{v} not in [{lo}, {hi}]")


def draw(ctx, st, kind, log=None, **kw):
    import random
    np = ctx.np
    f = ctx.get(CS + kind)
    seed = ctx.int("stream", 0, 10 ** 6)
    random.seed(seed)
    with Streams(np, seed) as s:
        c = ctx.run("sampling", f, **kw)
        if log is not None:
            log.extend(s.log)
    return c


def quality(ctx):
    return ctx.choice("quality", [1.0, 0.5, 0.1, None]) or ctx.real("quality value", 0, 1, lo_open=True)


def tct_params(ctx, csd):
    np = ctx.np
    ps = csd.tct_params
    ctx.ensure("some TCTs", len(ps) >= 1)
    x = np.linspace(-0.25, 0.25, 400)
    prev = None
    for k, p in enumerate(ps, 1):
        l, r, a, b, xl, yl, xr, yr = [float(v) for v in p]
        ctx.ensure("slopes: left one positive, right one negative", a > 0 > b, str(list(p)))
        within(ctx, "left slope", a, 0.21429, 0.54688)
        within(ctx, "right slope", b, -0.44, -0.07692)
        within(ctx, "angle between lead transitions", math.atan(a) - math.atan(b), 0.43760867228, 1.6789624091)
        within(ctx, "left length", l, 0.01, 0.025)
        within(ctx, "right length", r, 0.01, 0.025)
        t = Tct(p, k)
        ctx.ensure("bend ordered and on both lines", t.e1 > 0 and t.e2 > 0, str(list(p)))
        ctx.ensure("lengths at least twice the bend", l >= 2 * t.e1 and r >= 2 * t.e2, str(list(p)))
        within(ctx, "bend width", math.hypot(xr - xl, yr - yl), 0.00043, 0.00814)
        y = np.array([t.y(v) for v in x])
        if k == 1:
            # first bend at the corner of the family
            ctx.ensure("first bend", ctx.eq(xl, 0, 1e-9) and ctx.eq(yl, -0.28 * math.sqrt(0.5), 1e-9), f"{xl} {yl}")
        if prev is not None:
            ctx.ensure("nested: every TCT above the previous one", bool((y > prev - 1e-12).all()), f"TCT {k}")
        prev = y
        if k > 1:
            q = ps[k - 2]
            ctx.ensure("same shape for every TCT", all(ctx.eq(p[i], q[i], 1e-12) for i in range(4)))
            u, d0 = Tct(q, k - 1), None
            # interdot transition: from the lower bend of TCT k to the upper bend of TCT k-1
            dx = p[4] - q[4] + r
            dy = p[5] - q[5] + r * b
            within(ctx, "interdot length", math.hypot(dx, dy), 0.00261, 0.00987)
            within(ctx, "interdot length to bend width", math.hypot(dx, dy) / math.hypot(xr - xl, yr - yl),
                   0.8692269873603532, 9.055385138137407)
            ang = math.atan2(dy, dx) - math.atan(a)
            within(ctx, "interdot angle", ang, 0.58153916891, 1.396938844)
            c, s = math.cos(-math.pi / 4), math.sin(-math.pi / 4)
            vx, vy = c * dx - s * dy, s * dx + c * dy
            ctx.ensure("interdot transitions ascend in both voltages", vx >= -1e-12 and vy >= -1e-12)


def lever_arms(ctx, s, q, comp, alpha_gate, alpha_dot):
    lo, hi = (0.0001, 0.0005) if comp else (0.02805, 0.15093)
    within(ctx, "first gate lever arm", alpha_gate[0], lo, hi)
    within(ctx, "second gate lever arm", alpha_gate[1], 0.5 * alpha_gate[0], 2 * alpha_gate[0])
    m1, m2 = -0.0007994, -0.0005214
    x1, x2 = m1 + q * (-0.0000961 - m1), m2 + q * (-0.0000630 - m2)
    within(ctx, "first dot lever arm", alpha_dot[0], m1, min(2 * alpha_gate[0] * -0.03 / 100, x1))
    within(ctx, "second dot lever arm", alpha_dot[1], max(2 * alpha_dot[0], m2),
           min(0.5 * alpha_dot[0], 2 * alpha_gate[1] * -0.03 / 100, x2))


def sensor_generic(ctx, s, q, comp, steep, log):
    np = ctx.np
    lever_arms(ctx, s, q, comp, s.alpha_gate, s.alpha_dot)
    peaks = s.sensor_peak_function
    ctx.ensure("three to six peaks", 3 <= len(peaks) <= 6, str(len(peaks)))
    pots = [0 * s.alpha_dot.sum() + LIM[0] * s.alpha_gate.sum(), 5 * s.alpha_dot.sum() + LIM[1] * s.alpha_gate.sum()]
    span = max(pots) - min(pots)
    for i, p in enumerate(peaks):
        ctx.ensure("Lorentzian peak", type(p).__name__ == "SensorPeakLorentzian")
        within(ctx, "peak width", p.gamma, 0.0009636, 0.0029509, lo_open=True)
        within(ctx, "peak position", p.mu0, min(pots), max(pots))
        if i == 0:
            within(ctx, "peak height", p.height, 0.02245, 0.19204)
            within(ctx, "peak offset", p.offset, -0.42275, -0.0838)
        else:
            within(ctx, "height near that of the first peak", p.height, 0.8 * peaks[0].height, 1.2 * peaks[0].height)
            within(ctx, "offset near that of the first peak", p.offset, 1.2 * peaks[0].offset, 0.8 * peaks[0].offset)
            gap = min(abs(p.mu0 - o.mu0) for o in peaks[:i])
            ctx.ensure("peaks apart", gap > span / (len(peaks) * 2) * (1 - 1e-9))
    ctx.ensure("height prefers large values in the share given by the quality",
               any(e[0] == "exponential" and ctx.eq(e[1], 0.6 * q / math.log(100), 1e-6) for e in log), f"quality {q}")
    if steep:
        lo, hi = min(pots) - 0.2 * span, max(pots) + 0.2 * span
        within(ctx, "operating point on the sampled range", s.offset_mu_sens, lo, hi)
        mu = np.linspace(lo, hi, 20001)
        r = np.zeros(mu.shape)
        # independent of the sensor: sum of Lorentzian slopes
        d = lambda m: sum(p.height * -2 * (m - p.mu0) * p.gamma ** 2 / ((m - p.mu0) ** 2 + p.gamma ** 2) ** 2 for p in peaks)
        ctx.ensure("operating point is the steepest rise", d(s.offset_mu_sens) >= np.max(d(mu)) * (1 - 1e-3) - 1e-9,
                   f"{d(s.offset_mu_sens)} < {np.max(d(mu))}")
    else:
        ctx.ensure("no sensor offset", s.offset_mu_sens == 0)


def sensor_scan(ctx, s, q, comp, log):
    np = ctx.np
    lever_arms(ctx, s, q, comp, np.ravel(s.alpha_gate)[:2] if np.ndim(s.alpha_gate) == 1 else s.alpha_gate[0],
               np.ravel(s.alpha_dot)[:2] if np.ndim(s.alpha_dot) == 1 else s.alpha_dot[0])
    g = np.asarray(s.alpha_sensor_gate)
    ctx.ensure("sensor gate lever arms 3x2", g.shape == (3, 2))
    ctx.ensure("largest sensor dot lever arm", ctx.eq(max(g[0]), 0.1, 1e-9) and g[0].min() > 0)
    r = g[0][0] / g[0][1]
    within(ctx, "sensor gate ratio", r, 0, 2, lo_open=True)
    ctx.ensure("barrier lever arms", ctx.eq(g[1][0], 0.99) and ctx.eq(g[2][1], 0.99))
    within(ctx, "barrier 1 cross lever arm", g[1][1], 0.1, 0.3)
    within(ctx, "barrier 2 cross lever arm", g[2][0], 0.1, 0.3)
    peaks = s.sensor_peak_function
    ctx.ensure("20 to 30 peaks", 20 <= len(peaks) <= 30)
    for i, p in enumerate(peaks):
        ctx.ensure("Lorentzian peak", type(p).__name__ == "SensorPeakLorentzian")
        ctx.ensure("positive width", p.gamma > 0 and math.isfinite(p.gamma))
        ctx.ensure("non-negative height", p.height >= 0 and math.isfinite(p.height))
        if i:
            ctx.ensure("peaks ascend", p.mu0 > peaks[i - 1].mu0)
            f = p.gamma / peaks[i - 1].gamma
            ok = 0.85 - 1e-9 <= f <= 1.5 + 1e-9
            capped = i >= 2 and 0.002 * 0.9 - 1e-12 <= p.gamma <= 0.002 * 1.1 + 1e-12
            ctx.ensure("width grows within its limits", ok or capped, f"{f}")
            if i >= 2:
                ctx.ensure("width capped", p.gamma <= 0.002 * 1.1 + 1e-12)
    if len(peaks) > 1:
        d1 = peaks[1].mu0 - peaks[0].mu0
        within(ctx, "first spacing", d1, 0, 0.00367179654343025 * 4)
        sd = 0.09509839063162284 / 2
        for i in range(2, len(peaks)):
            m = -0.0374000174907983 / 4 * (min(i, 10) - 1) + 1.0189427890611187
            within(ctx, "spacing", (peaks[i].mu0 - peaks[i - 1].mu0) / d1, m - sd, m + sd)
    rise = s.final_rise
    ctx.ensure("final rise present", rise is not None)
    ctx.ensure("reference height scaled by the quality",
               any(e[0] == "normal" and ctx.eq(e[1], 0.07543071921134054 * q, 1e-9) for e in log), f"quality {q}")
    # the final rise exceeds the highest point of the peaks by five percent
    x = np.linspace(-5, 5, 500000)
    top = np.max(sum(p.height * p.gamma ** 2 / ((x - p.mu0) ** 2 + p.gamma ** 2) for p in peaks))
    ctx.ensure("final rise above the peaks", ctx.eq(rise.asymptote_right, 1.05 * top, 1e-6) and rise.asymptote_left == 0)
    within(ctx, "rise growth rate", rise.growth_rate, 400, 600)
    within(ctx, "rise asymmetry", rise.asymmetry, 0.01, 1)
    within(ctx, "rise shape factor", rise.shape_factor, 0.01, 100)
    ctx.ensure("rise fully conductive percentage", ctx.eq(rise.fully_conductive_percentage, 0.95))
    ctx.ensure("two barriers", len(s.barrier_functions) == 2)
    first = peaks[0].mu0
    for i, b in enumerate(s.barrier_functions):
        ctx.ensure("barrier height scaled by the quality", ctx.eq(b.asymptote_right, 0.25 * q, 1e-9) and b.asymptote_left == 0)
        within(ctx, "barrier growth rate", b.growth_rate, 20, 40)
        within(ctx, "barrier asymmetry", b.asymmetry, 1e-6, 1e-4)
        within(ctx, "barrier shape factor", b.shape_factor, 0.01, 100)
        ctx.ensure("barrier percentages", ctx.eq(b.pinch_off_percentage, 0.001) and ctx.eq(b.fully_conductive_percentage, 0.999))
    # first peak and both pinch-offs belong to one base point inside its range
    m = np.array([g[1], g[2]])
    base = np.linalg.solve(m, [b.pinch_off for b in s.barrier_functions])
    for v in base:
        within(ctx, "base point", round(float(v), 9), -0.688, -0.509)
    ctx.ensure("first peak at the base point", ctx.eq(first, float(g[0] @ base) - 0.05, 1e-7))
    ctx.ensure("no deformations in this family", not s.sensor_peak_deformations)


def distortions(ctx, c, q):
    np = ctx.np
    names = [type(d).__name__ for k in ("occupation", "sensor_potential", "sensor_response") for d in c[k + "_distortions"]]
    ctx.ensure("all distortions", names == ["OccupationTransitionBlurringFermiDirac", "OccupationDotJumps", "OccupationDotJumps",
                                            "SensorPotentialPinkNoise", "SensorPotentialRTN", "SensorResponseRTN",
                                            "SensorResponseWhiteNoise"], str(names))
    blur, j2, j1 = c["occupation_distortions"]
    pink, prtn = c["sensor_potential_distortions"]
    rrtn, white = c["sensor_response_distortions"]
    lo, hi = 0.25 * 0.03 / 100, 2 * 0.03 / 100
    for _ in range(20):
        within(ctx, "blurring sigma", blur.sigma.sample_parameter(), lo, hi)
    for d, ax, ra in ((j2, 0, 0.01), (j1, 1, 0.01 / 6)):
        ctx.ensure("dot jump", ctx.eq(d.scale, 0.03, 1e-12) and ctx.eq(d.lam, 0.0018, 1e-12) and d.axis == ax
                   and ctx.eq(d.ratio, ra, 1e-12))
    ctx.ensure("potential telegraph noise", ctx.eq(prtn.scale, 74.56704 * 0.03 / 100, 1e-12) and ctx.eq(prtn.std, 3.491734e-05, 1e-12)
               and ctx.eq(prtn.height, 2.53855325e-05, 1e-12))
    ctx.ensure("response telegraph noise", ctx.eq(rrtn.scale, 3.0, 1e-12) and ctx.eq(rrtn.std, 0.047453767599999995, 1e-12)
               and ctx.eq(rrtn.height, 0.0152373696, 1e-12))
    ctx.ensure("quality scales how often telegraph noise occurs", ctx.eq(prtn.ratio, q / 6, 1e-9) and ctx.eq(rrtn.ratio, 0.01 * q, 1e-9),
               f"{prtn.ratio} {rrtn.ratio} for quality {q}")
    return pink, white


def strengths(ctx, streams, pink, white, q):
    for d, nm in ((pink, "pink noise"), (white, "white noise")):
        n = len(streams.log)
        for _ in range(20):
            within(ctx, nm + " strength", d.sigma.sample_parameter(), 1e-10, 0.0005)
        new = [e for e in streams.log[n:] if e[0] == "exponential"]
        ctx.ensure("quality scales the " + nm, bool(new) and all(ctx.eq(e[1], 0.6 * q / math.log(100), 1e-9) for e in new), f"quality {q}")


KEYS = {"volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2", "ideal_csd_config", "sensor",
        "occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"}


@scenario("C26", fns=[CS + n for n in ("sample_random_variations_v3_config", "sample_SensorGeneric", "sample_SensorScanSensorGeneric",
                                       "sample_sensor_function", "sample_barrier_function", "_sample_simple_barrier_function",
                                       "_sensor_peak_list_add_peak", "_sample_sensor_peak_list", "sample_IdealCSDGeometric",
                                       "_add_one_tct", "sample_occupation_distortions", "sample_sensor_potential_distortions",
                                       "sample_sensor_response_distortions")], sym=False, why_num=WHY, trials=100, slow=True)
def whole_configuration(ctx):
    import random
    np = ctx.np
    scan = ctx.bool("sensor scan sensor")
    q, comp = quality(ctx), ctx.bool("compensated")
    steep = not scan and ctx.bool("steepest point")
    seed = ctx.int("stream", 0, 10 ** 6)
    random.seed(seed)
    with Streams(np, seed) as st:
        kw = dict(set_sensor_potential_offset_to_steepest_point=True) if steep else {}
        c = ctx.run("sampling", ctx.get(CS + "sample_random_variations_v3_config"),
                    "SensorScanSensorGeneric" if scan else "SensorGeneric", q, comp, **kw)
        ctx.ensure("all settings of a simulation", set(c) == KEYS, str(set(c) ^ KEYS))
        for k in KEYS:
            if k.startswith("volt_limits"):
                ctx.ensure("ascending voltage range", np.size(c[k]) == 2 and c[k][0] < c[k][1], f"{k}: {c[k]}")
        for k in ("volt_limits_g1", "volt_limits_g2"):
            ctx.ensure("plunger gate range", np.allclose(c[k], LIM))
        for k in ("volt_limits_sensor_g1", "volt_limits_sensor_g2"):
            ctx.ensure("sensor gate range", np.allclose(c[k], [-1, 0]))
        tct_params(ctx, c["ideal_csd_config"])
        if scan:
            sensor_scan(ctx, c["sensor"], q, comp, st.log)
        else:
            sensor_generic(ctx, c["sensor"], q, comp, steep, st.log)
        pink, white = distortions(ctx, c, q)
        strengths(ctx, st, pink, white, q)
        sim = ctx.run("simulation", ctx.mod("simcats").Simulation, **c)
        n = ctx.choice("resolution", [np.array([10, 10]), np.array([10, 14]), 20, np.array([25, 25])])
        dist = ctx.bool("with the family's distortions")
        if not dist:
            for d in c["occupation_distortions"][1:]:
                d.ratio = 0
        m = ctx.run("measurement over its own limits", sim.measure, c["volt_limits_g1"], c["volt_limits_g2"], resolution=n)
        ctx.ensure("finite image", bool(np.isfinite(m[0]).all()))
        if scan:
            m = ctx.run("sensor scan over its own limits", sim.measure_sensor_scan, c["volt_limits_sensor_g1"],
                        c["volt_limits_sensor_g2"], c["volt_limits_g1"][0], c["volt_limits_g2"][0], resolution=np.array([10, 8]))
            ctx.ensure("finite scan", bool(np.isfinite(m[0]).all()))


@scenario("C26", fns=[CS + "sample_random_variations_v3_config"], sym=False, why_num=WHY, trials=20)
def rejected_arguments(ctx):
    f = ctx.get(CS + "sample_random_variations_v3_config")
    if ctx.bool("quality"):
        q = ctx.choice("q", [0.0, -0.5, 1.0000001, 2.0, float("nan")])
        ctx.raises("quality outside (0, 1]", ctx.call(f, "SensorGeneric", q))
    else:
        ctx.raises("unknown sensor type", ctx.call(f, "Sensor"))
