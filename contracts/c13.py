"""C13: plane-geometry helpers satisfy their defining equations."""
from vc.ctx import scenario

SF = "simcats.support_functions."
ROT = SF + "_rotate_points.rotate_points"
DIST = SF + "_signed_dist_points_line.signed_dist_points_line"
LA = SF + "_linear_algebra."
PV = SF + "_pixel_volt_transformation.pixel_to_volt_1d"


def pt(ctx, name):
    return [ctx.real(name + " x"), ctx.real(name + " y")]


@scenario("C13", fns=[ROT], trials=200)
def rotate_point(ctx):
    f, ang = ctx.get(ROT), ctx.real("angle")
    p = ctx.vec(pt(ctx, "p"))
    k = ctx.snap(p)
    q = ctx.run("rotate", f, p, ang)
    ctx.shape_is("rotated point", q, (2,))
    c, s = ctx.cos(ang), ctx.sin(ang)
    ctx.ensure_eq("x of the rotated point", q[0], c * p[0] - s * p[1])
    ctx.ensure_eq("y of the rotated point", q[1], s * p[0] + c * p[1])
    ctx.ensure_eq("distance to the origin kept", q[0] * q[0] + q[1] * q[1], p[0] * p[0] + p[1] * p[1])
    b = ctx.run("rotate back", f, q, -ang)
    ctx.ensure_eq("undone x", b[0], p[0])
    ctx.ensure_eq("undone y", b[1], p[1])
    ctx.same("the given point", p, k)


@scenario("C13", fns=[ROT], trials=200)
def rotate_points(ctx):
    f, ang = ctx.get(ROT), ctx.real("angle")
    n = ctx.size("points", 1)
    p = ctx.array("points", (n, 2))
    k = ctx.snap(p)
    q = ctx.run("rotate", f, p, ang)
    c, s = ctx.cos(ang), ctx.sin(ang)
    ctx.arr_eq("rotated points", q, (n, 2), lambda i, j: ctx.ite(j == 0, c * p[i, 0] - s * p[i, 1], s * p[i, 0] + c * p[i, 1]))
    ctx.forall("distances kept", (n, n), lambda i, j: ctx.eq(sq(q, i, j), sq(p, i, j)))
    b = ctx.run("rotate back", f, q, -ang)
    ctx.arr_eq("undone", b, (n, 2), lambda i, j: p[i, j])
    ctx.same("the given points", p, k)


def sq(a, i, j):
    x, y = a[i, 0] - a[j, 0], a[i, 1] - a[j, 1]
    return x * x + y * y


@scenario("C13", fns=[DIST], trials=300)
def signed_distance(ctx):
    f = ctx.get(DIST)
    n = ctx.size("points", 1)
    p = ctx.array("points", (n, 2))
    a, b = pt(ctx, "a"), pt(ctx, "b")
    ctx.assume(ctx.not_(ctx.and_(a[0] == b[0], a[1] == b[1])))
    line = ctx.np.array([a, b])
    k = ctx.snap([p, line])
    d = ctx.run("distance", f, p, line)
    r = ctx.run("distance to the reversed line", f, p, ctx.np.array([b, a]))
    dx, dy = b[0] - a[0], b[1] - a[1]
    norm = ctx.sqrt(dx * dx + dy * dy)
    cr = lambda i: (p[i, 0] - a[0]) * dy - (p[i, 1] - a[1]) * dx
    # Euclidean magnitude: |d| * norm = |cross product|; the sign says on which side the point is
    ctx.shape_is("distances", d, (n,))
    ctx.shape_is("distances to the reversed line", r, (n,))
    ctx.forall("signed distance", (n,), lambda i: ctx.eq(d[i] * norm, cr(i)))
    ctx.forall("flips with the orientation", (n,), lambda i: ctx.eq(r[i], -d[i]))
    # points on the line: zero
    t = ctx.real("t")
    z = ctx.run("distance of a point on the line", f, ctx.np.array([[a[0] + t * dx, a[1] + t * dy]]), line)
    ctx.ensure("zero on the line", ctx.eq(z[0], 0, 1e-7))
    # mirror images have opposite distances
    u = ctx.real("u")
    m1 = ctx.run("one side", f, ctx.np.array([[a[0] + t * dx - u * dy, a[1] + t * dy + u * dx]]), line)
    m2 = ctx.run("other side", f, ctx.np.array([[a[0] + t * dx + u * dy, a[1] + t * dy - u * dx]]), line)
    ctx.ensure("opposite across the line", ctx.eq(m1[0], -m2[0], 1e-7))
    ctx.ensure("distance of the foot point", ctx.eq(ctx.ite(u < 0, m1[0], -m1[0]), ctx.ite(u < 0, -u, u) * norm, 1e-7))
    ctx.same("inputs", [p, line], k)


def seq(ctx, name, xs):
    kind = ctx.choice(name, ["tuple", "list", "array"])
    return tuple(xs) if kind == "tuple" else list(xs) if kind == "list" else ctx.vec(xs)


@scenario("C13", fns=[LA + "line_line_intersection"], trials=300)
def two_sloped_lines(ctx):
    f = ctx.get(LA + "line_line_intersection")
    m1, b1 = ctx.real("m1"), ctx.real("b1")
    m2, b2 = ctx.real("m2", near=(m1,)), ctx.real("b2", near=(b1,))
    out = ctx.call(f, seq(ctx, "line 1", [m1, b1]), seq(ctx, "line 2", [m2, b2]))
    if ctx.case("parallel", m1 == m2):
        ctx.raises("parallel lines", out)
        return
    r = ctx.no_exc("intersection", out)
    ctx.shape_is("intersection", r, (2,))
    ctx.ensure_eq("on the first line", r[1], m1 * r[0] + b1, 1e-6)
    ctx.ensure_eq("on the second line", r[1], m2 * r[0] + b2, 1e-6)


@scenario("C13", fns=[LA + "line_line_intersection"], trials=150)
def vertical_lines(ctx):
    f = ctx.get(LA + "line_line_intersection")
    c, m, b = ctx.real("vertical"), ctx.real("m"), ctx.real("b")
    which = ctx.choice("which", ["first", "second", "both"])
    if which == "both":
        c2 = ctx.real("vertical 2", near=(c,))
        ctx.raises("two vertical lines", ctx.call(f, c, c2))
        return
    other = seq(ctx, "other line", [m, b])
    r = ctx.run("intersection", f, *((c, other) if which == "first" else (other, c)))
    ctx.shape_is("intersection", r, (2,))
    ctx.ensure_eq("on the vertical line", r[0], c)
    ctx.ensure_eq("on the sloped line", r[1], m * c + b)


@scenario("C13", fns=[LA + "line_line_intersection"], trials=60)
def malformed_lines(ctx):
    f = ctx.get(LA + "line_line_intersection")
    bad = [ctx.real(f"x{i}") for i in range(ctx.choice("length", [0, 1, 3]))]
    good = ctx.choice("other", [(1.0, 2.0), 3.0])
    if ctx.bool("swap"):
        ctx.raises("malformed line", ctx.call(f, bad, good))
    else:
        ctx.raises("malformed line", ctx.call(f, good, bad))


def circle(ctx):
    return ctx.real("center x"), ctx.real("center y"), ctx.real("radius")


def on_both(ctx, pts, cx, cy, r, on_line):
    for q in pts:
        ctx.ensure("on the circle", ctx.eq((q[0] - cx) * (q[0] - cx) + (q[1] - cy) * (q[1] - cy), r * r, 1e-6))
        ctx.ensure("on the line", on_line(q))


@scenario("C13", fns=[LA + "line_circle_intersection"], trials=400)
def sloped_line_circle(ctx):
    f = ctx.get(LA + "line_circle_intersection")
    cx, cy, r = circle(ctx)
    m = ctx.real("m")
    b = ctx.biased("b", None, None, False)
    ctx.away((m * cx - cy + b) * (m * cx - cy + b), r * r * (1 + m * m), 1e-6)
    count(ctx, f, (m, b), cx, cy, r, (m * cx - cy + b) * (m * cx - cy + b), r * r * (1 + m * m),
          lambda q: ctx.eq(q[1], m * q[0] + b, 1e-6))


@scenario("C13", fns=[LA + "line_circle_intersection"], trials=400)
def vertical_line_circle(ctx):
    f = ctx.get(LA + "line_circle_intersection")
    cx, cy, r = circle(ctx)
    c = ctx.real("c", near=(cx, cx + r, cx - r))
    ctx.away((c - cx) * (c - cx), r * r, 1e-6)
    count(ctx, f, c, cx, cy, r, (c - cx) * (c - cx), r * r, lambda q: ctx.eq(q[0], c))


def count(ctx, f, line, cx, cy, r, d2, r2, on_line):
    """d2 <=> r2: squared distance of the centre to the line against the squared radius (scaled alike)"""
    out = ctx.call(f, line, (cx, cy), r)
    if ctx.case("radius not positive", r <= 0):
        ctx.raises("non-positive radius", out)
        return
    pts = ctx.no_exc("intersection", out)
    on_both(ctx, pts, cx, cy, r, on_line)
    if len(pts) == 0:
        ctx.ensure("no intersection only if the line passes outside", d2 > r2)
    elif len(pts) == 1:
        ctx.ensure("one intersection only for a tangent", ctx.eq(d2, r2))
    else:
        ctx.ensure("at most two intersections", len(pts) == 2)
        ctx.ensure("two intersections only if the line passes inside", d2 < r2)
        ctx.ensure("two different intersections", ctx.not_(ctx.and_(pts[0][0] == pts[1][0], pts[0][1] == pts[1][1])))


@scenario("C13", fns=[LA + "line_circle_intersection"], sym=False, why_num="the same contract at small and large scales", trials=600)
def scaled_circles(ctx):
    """a circle and a line at any scale: scaling the picture scales the intersections"""
    f = ctx.get(LA + "line_circle_intersection")
    k = 2.0 ** ctx.int("scale", -22, 12)
    cx, cy = ctx.choice("centre x", [0, 1, -3]), ctx.choice("centre y", [0, 2, -1])
    r = ctx.int("radius", 1, 8)
    rel = ctx.int("distance in eighths of the radius", 0, 16) / 8       # of the line from the centre
    ctx.assume(abs(rel - 1) > 0.05)
    side = ctx.choice("side", [1, -1])
    if ctx.bool("vertical"):
        line, d = k * (cx + side * rel * r), rel * r
        on = lambda q: q[0] == line
    else:
        m = ctx.choice("m", [0.0, -0.5, -4.0, 0.25, 3.0])
        line = (m, k * (cy - m * cx + side * rel * r * (1 + m * m) ** 0.5))
        on = lambda q: abs(q[1] - m * q[0] - line[1]) <= 1e-7 * k * 100
    pts = ctx.run("intersection", f, line, (k * cx, k * cy), k * r)
    ctx.ensure("number of intersections", len(pts) == (2 if rel < 1 else 0), f"{len(pts)} for a line at {rel} radii, scale {k}")
    for q in pts:
        ctx.ensure("on the circle", abs(((q[0] / k - cx) ** 2 + (q[1] / k - cy) ** 2) ** 0.5 - r) <= 1e-5)
        ctx.ensure("on the line", on(q))


@scenario("C13", fns=[LA + "line_circle_intersection"], trials=200)
def tangents(ctx):
    """exact tangents in floats"""
    f = ctx.get(LA + "line_circle_intersection")
    n = ctx.real("r", 0, None, lo_open=True)
    r = ctx.native(lambda: max(1, round(8 * n)) / 8) if not ctx.sym else n
    cx, cy = (ctx.real("cx"), ctx.real("cy"))
    if not ctx.sym:
        cx, cy = round(8 * cx) / 8, round(8 * cy) / 8
    side = ctx.choice("side", [1, -1])
    if ctx.bool("vertical"):
        pts = ctx.run("tangent", f, cx + side * r, (cx, cy), r)
        want = (cx + side * r, cy)
    else:
        pts = ctx.run("tangent", f, (0.0, cy + side * r), (cx, cy), r)
        want = (cx, cy + side * r)
    ctx.ensure("a tangent yields one point", len(pts) == 1)
    ctx.ensure_eq("touching point x", pts[0][0], want[0])
    ctx.ensure_eq("touching point y", pts[0][1], want[1])


@scenario("C13", fns=[LA + "is_point_below_line"], trials=200)
def below_line(ctx):
    f = ctx.get(LA + "is_point_below_line")
    m, b = ctx.real("m"), ctx.real("b")
    x = ctx.real("x")
    y = ctx.real("y", near=(m * x + b,))
    r = ctx.run("sloped", f, (x, y), (m, b))
    ctx.ensure("below means strictly smaller y", ctx.iff(r, y < m * x + b))
    c = ctx.choice("horizontal", [0, 3, -2])
    z = ctx.real("z", near=(c,))
    r = ctx.run("horizontal", f, (x, z), c)
    ctx.ensure("below a horizontal line means strictly smaller y", ctx.iff(r, z < c))
    ctx.raises("malformed line", ctx.call(f, (x, y), (m, b, 1.0)))


@scenario("C13", fns=[PV], trials=200)
def pixel_to_volt(ctx):
    f = ctx.get(PV)
    n = ctx.int("pixels", 1, cap=50)
    a, b = ctx.real("first"), ctx.real("last")
    i = ctx.int("pixel", 0, n) if not ctx.sym else ctx.int("pixel")
    lim = ctx.vec([a, b])
    ctx.ensure_eq("first pixel", ctx.run("first", f, 0, n, lim), a)
    ctx.ensure_eq("last pixel", ctx.run("last", f, n, n, lim), b)
    v, w = ctx.run("pixel", f, i, n, lim), ctx.run("next pixel", f, i + 1, n, lim)
    ctx.ensure_eq("even steps", (w - v) * n, b - a, 1e-7)
    ctx.ensure_eq("affine", (v - a) * n, (b - a) * i, 1e-7)
    ctx.ensure("limits unchanged", ctx.and_(lim[0] == a, lim[1] == b))
