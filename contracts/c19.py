"""C19: peak deformations are anchored at the middle line and shaped as documented."""
from vc.ctx import scenario

DE = "simcats.sensor.deformation."
LI = DE + "_sensor_peak_deformation_linear.SensorPeakDeformationLinear.calc_mu"
CI = DE + "_sensor_peak_deformation_circle.SensorPeakDeformationCircle.calc_mu"


class FakeSensor:
    """carries the lever arms a deformation looks at"""


def sensor(ctx):
    s = FakeSensor()
    s.alpha_sensor_gate = ctx.array("alpha sensor gate", (3, 2))
    a = s.alpha_sensor_gate
    ctx.assume(ctx.not_(ctx.and_(a[0, 0] == 0, a[0, 1] == 0)))
    if not ctx.sym:
        ctx.assume(abs(a[0, 0]) + abs(a[0, 1]) > 1e-3)
    return s, ctx.sqrt(a[0, 0] * a[0, 0] + a[0, 1] * a[0, 1])


@scenario("C19", fns=[LI], trials=300)
def linear(ctx):
    s, norm = sensor(ctx)
    ang = ctx.real("angle", 0.05, 3.09)
    d = ctx.run("linear", ctx.mod("simcats.sensor.deformation").SensorPeakDeformationLinear, ang)
    d.sensor = s
    mu0 = ctx.real("mu0")
    x, y = ctx.real("distance"), ctx.real("other distance")
    slope = ctx.cos(ang) / ctx.sin(ang) * norm
    r = ctx.run("calc_mu", d.calc_mu, dist=x, mu0=mu0)
    ctx.ensure("proportional with the documented slope", ctx.eq(r, mu0 + slope * x, 1e-7))
    ctx.ensure_eq("anchored at the middle line", ctx.run("calc_mu", d.calc_mu, dist=0.0, mu0=mu0), mu0)
    q = ctx.run("calc_mu", d.calc_mu, dist=y, mu0=mu0)
    ctx.ensure("shift proportional to the distance", ctx.eq((r - mu0) * y, (q - mu0) * x, 1e-6))
    arrays(ctx, d, lambda v, t: ctx.eq(v, mu0 + slope * t, 1e-6), mu0)


def arrays(ctx, d, ok, mu0):
    shape = (ctx.size("rows", 1), ctx.size("columns", 1)) if ctx.choice("dim", [1, 2]) == 2 else (ctx.size("pixels", 1),)
    a = ctx.array("distances", shape)
    k = ctx.snap(a)
    r = ctx.run("array", d.calc_mu, dist=a, mu0=mu0)
    ctx.shape_is("array", r, shape)
    ctx.forall("array entries like scalars", shape, lambda *ix: ok(r[ix], a[ix]))
    ctx.same("distances", a, k)


@scenario("C19", fns=[LI], trials=100)
def right_angle(ctx):
    s, norm = sensor(ctx)
    d = ctx.mod("simcats.sensor.deformation").SensorPeakDeformationLinear(ctx.pi / 2)
    d.sensor = s
    mu0, x = ctx.real("mu0"), ctx.real("distance")
    r = ctx.run("calc_mu", d.calc_mu, dist=x, mu0=mu0)
    if ctx.sym:
        # the machine number pi/2 is no right angle: up to its rounding error
        e = 2e-15 * norm * ctx.ite(x < 0, -x, x)
        ctx.ensure("no shift at a right angle", ctx.and_(mu0 - e <= r, r <= mu0 + e))
    else:
        ctx.ensure("no shift at a right angle", ctx.eq(r, mu0, 1e-9))


@scenario("C19", fns=[CI], trials=300)
def circle(ctx):
    s, norm = sensor(ctx)
    rad = ctx.real("radius", nz=True)
    d = ctx.run("circle", ctx.mod("simcats.sensor.deformation").SensorPeakDeformationCircle, rad)
    d.sensor = s
    mu0 = ctx.real("mu0")
    R = ctx.ite(rad < 0, -rad, rad) / norm
    sign = ctx.ite(rad < 0, -1, 1)

    def on_circle(v, t):
        """v lies on the circle through (0, mu0) with centre mu0 - sign*R, respectively level with the centre beyond it"""
        e = sign * (v - mu0) + R
        h = R * R - t * t
        if ctx.sym:
            return ctx.and_(e >= 0, ctx.eq(e * e, ctx.ite(h < 0, 0, h)))
        return ctx.eq(e, ctx.sqrt(max(h, 0)), 1e-6)
    x = ctx.real("distance", near=(0, float(R), -float(R)) if not ctx.sym else ())
    y = ctx.real("other distance", near=(x, -x) if not ctx.sym else ())
    r = ctx.run("calc_mu", d.calc_mu, dist=x, mu0=mu0)
    ctx.ensure("circle in voltage units, level beyond it", on_circle(r, x))
    ctx.ensure("even", ctx.eq(ctx.run("calc_mu", d.calc_mu, dist=-x, mu0=mu0), r, 1e-12))
    ctx.ensure_eq("anchored at the middle line", ctx.run("calc_mu", d.calc_mu, dist=0.0, mu0=mu0), mu0)
    ctx.ensure("towards the circle's centre", ctx.le(0, sign * (mu0 - r), 1e-9))
    ctx.ensure("never further than the radius", ctx.le(sign * (mu0 - r), R, 1e-9))
    q = ctx.run("calc_mu", d.calc_mu, dist=y, mu0=mu0)
    ax, ay = ctx.ite(x < 0, -x, x), ctx.ite(y < 0, -y, y)
    ctx.ensure("ever further with distance", ctx.implies(ax <= ay, lambda: ctx.le(sign * (mu0 - r), sign * (mu0 - q), 1e-9)))
    ctx.ensure("strictly inside the radius", ctx.implies(ctx.and_(ax < ay, ay < R), lambda: sign * (mu0 - r) < sign * (mu0 - q)
               if ctx.sym or ay - ax > 1e-4 * R and ax > 1e-4 * R and R > 1e-3 * abs(mu0) else True))
    level = ctx.run("calc_mu", d.calc_mu, dist=R, mu0=mu0)
    ctx.ensure("level beyond the radius, continuously", ctx.implies(ay >= R, lambda: ctx.eq(q, level, 1e-6)))
    arrays(ctx, d, on_circle, mu0)
