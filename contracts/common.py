"""Stand-ins for the components a Simulation is composed of.  They implement the interface classes of /repo, record
every call and apply a known, distinguishable (affine) map, so that a composition contract can be stated exactly."""


class Log(list):
    """shared call log: copying a component copies neither the log nor its entries"""
    def __deepcopy__(self, memo):
        return self

    def kinds(self, k):
        return [e for e in self if e[0] == k]


def res_shape(resolution):
    """shape of a scan of the given resolution (g2 rows, g1 columns)"""
    if isinstance(resolution, int):
        return (resolution,)
    r = [int(x) for x in resolution]
    return tuple(reversed(r))


def make_csd(ctx, log, occ_fun=None, lead_fun=None):
    """ideal CSD: occupations and transitions are functions of (v1 limits, v2 limits, shape)"""
    base = ctx.mod("simcats.ideal_csd").IdealCSDInterface

    class Csd(base):
        def __init__(self):
            self.tag = [0]

        def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
            shape = res_shape(resolution)
            log.append(("csd", ctx.snap(volt_limits_g1), ctx.snap(volt_limits_g2), ctx.snap(resolution)))
            a, b = volt_limits_g1[0], volt_limits_g1[1]
            c, d = volt_limits_g2[0], volt_limits_g2[1]
            return ideal(ctx, a, b, c, d, shape)
    return Csd()


def ideal(ctx, a, b, c, d, shape):
    """the occupations/transitions the fake ideal CSD produces for limits (a, b), (c, d)"""
    occ = ctx.np.zeros(shape + (2,))
    lead = ctx.np.zeros(shape)
    occ[..., 0] = a + 10 * b + 100 * c + 1000 * d
    occ[..., 1] = 2 * a - 3 * b + 5 * c - 7 * d
    lead[...] = 3 * a + b - c + 2 * d
    # tell pixels apart
    for ax in range(len(shape)):
        ramp = ctx.np.arange(shape[ax]) * (0.5 + ax)
        if len(shape) == 2 and ax == 0:
            ramp = ramp.reshape(shape[0], 1)
        occ[..., 0] += ramp
        occ[..., 1] -= 2 * ramp
        lead[...] += 4 * ramp
    return occ, lead


def make_occ_dist(ctx, log, k, mul, add):
    """Occupation distortion k.  It looks at the generator it is handed at voltages of its own, so that what the
    generator computes is visible in the result."""
    base = ctx.mod("simcats.distortions").OccupationDistortionInterface

    class Occ(base):
        def __init__(self):
            self.k = k
            self.par = [mul, add]

        def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None,
                           freeze=False):
            log.append(("occ" if not freeze else "frozen", self.k, ctx.snap(occupations), ctx.snap(lead_transitions),
                        ctx.snap(volt_limits_g1), ctx.snap(volt_limits_g2)))
            v1, v2, shape = probe(ctx, volt_limits_g1, volt_limits_g2, self.k)
            before = len(log)
            if self.k % 2:
                go, gl = generate_csd(volt_limits_g1=v1, volt_limits_g2=v2, resolution=shape)
            else:
                go, gl = generate_csd(v1, v2, shape)
            del log[before:]
            occ_map(occupations, lead_transitions, self.par, freeze, go, gl)
            return occupations, lead_transitions
    return Occ()


def probe(ctx, v1, v2, k):
    """where distortion k evaluates its generator"""
    return ctx.vec([v1[0] - 1 - k, v1[1] - 1]), ctx.vec([v2[0] + 2, v2[1] + 3 + k]), 2


def occ_map(occ, lead, par, freeze, go, gl):
    f = 1 if freeze else 0
    occ[...] = occ * par[0] + par[1] + f + go[0, 0] * 0.25 - go[1, 1] * 0.125
    lead[...] = lead * par[0] - par[1] + 2 * f + gl[0] * 0.5


def generated(ctx, pars, n, v1, v2, shape):
    """what a generator replaying distortions 0..n-1 in frozen mode over the ideal CSD yields at v1, v2, shape"""
    occ, lead = ideal(ctx, v1[0], v1[1], v2[0], v2[1], shape)
    for k in range(n):
        p1, p2, s = probe(ctx, v1, v2, k)
        go, gl = generated(ctx, pars, k, p1, p2, (s,))
        occ_map(occ, lead, pars[k], True, go, gl)
    return occ, lead


def make_dist(ctx, log, which, k, mul, add):
    d = ctx.mod("simcats.distortions")
    if which == "pot":
        class Pot(d.SensorPotentialDistortionInterface):
            def __init__(self):
                self.k, self.par = k, [mul, add]

            def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
                log.append(("pot", self.k, ctx.snap(mu_sens), ctx.snap(volt_limits_g1), ctx.snap(volt_limits_g2)))
                return mu_sens * self.par[0] + self.par[1]
        return Pot()

    class Resp(d.SensorResponseDistortionInterface):
        def __init__(self):
            self.k, self.par = k, [mul, add]

        def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
            log.append(("resp", self.k, ctx.snap(sensor_response), ctx.snap(volt_limits_g1), ctx.snap(volt_limits_g2)))
            return sensor_response * self.par[0] + self.par[1]
    return Resp()


def make_sensor(ctx, log, scan, channels):
    """scan: implements the sensor-scan interface; channels: 1 or 3 potential arrays"""
    m = ctx.mod("simcats.sensor")
    np = ctx.np

    def pot_of(occ, a, b):
        p = occ[..., 0] * 2 + occ[..., 1] * 3 + a
        if channels == 1:
            return p
        return np.array([p, occ[..., 0] + 7 + b, occ[..., 1] - 5])

    def resp_of(mu):
        if channels == 1:
            return mu * 5 + 1
        return mu[0] * 5 + mu[1] * 2 - mu[2] * 3 + 1

    if not scan:
        class Sens(m.SensorInterface):
            def __init__(self):
                self.par = [0]

            def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2):
                log.append(("potential", ctx.snap(occupations), ctx.snap(volt_limits_g1), ctx.snap(volt_limits_g2)))
                return pot_of(occupations, volt_limits_g1[0] - volt_limits_g1[1], volt_limits_g2[0] * 2)

            def sensor_response(self, mu_sens):
                log.append(("response", ctx.snap(mu_sens)))
                return resp_of(mu_sens)
    else:
        class Sens(m.SensorScanSensorInterface):
            def __init__(self):
                self.par = [0]

            def sensor_potential(self, occupations, volt_limits_g1=None, volt_limits_g2=None,
                                 volt_limits_sensor_g1=None, volt_limits_sensor_g2=None):
                log.append(("potential", ctx.snap(occupations), ctx.snap(volt_limits_g1), ctx.snap(volt_limits_g2),
                            ctx.snap(volt_limits_sensor_g1), ctx.snap(volt_limits_sensor_g2)))
                return pot_of(occupations, first(volt_limits_g1) + 11 * first(volt_limits_sensor_g1),
                              first(volt_limits_g2) * 2 - 13 * first(volt_limits_sensor_g2))

            def sensor_response(self, mu_sens):
                log.append(("response", ctx.snap(mu_sens)))
                return resp_of(mu_sens)

            def get_sensor_scan_labels(self, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1,
                                       volt_limits_sensor_g2, potential):
                log.append(("labels", ctx.snap(potential), ctx.snap(volt_limits_g1), ctx.snap(volt_limits_g2),
                            ctx.snap(volt_limits_sensor_g1), ctx.snap(volt_limits_sensor_g2)))
                p = potential if channels == 1 else potential[0]
                return p * 17 + 1, p * 19 + 2
    s = Sens()
    s.pot_of, s.resp_of = None, None
    return s, pot_of, resp_of


def first(v):
    if v is None:
        return 0
    try:
        return v[0] + 3 * v[1]
    except (TypeError, IndexError):
        return v


def limits(ctx, name):
    """None or an ordered pair of configured limits"""
    if ctx.bool(name + " unset"):
        return None
    lo = ctx.real(name + " lo", -5, 5)
    hi = ctx.real(name + " hi", lo, None)
    return ctx.vec([lo, hi])


def inside(ctx, v, lim):
    if lim is None:
        return True
    return ctx.and_(lim[0] <= v, v <= lim[1])
