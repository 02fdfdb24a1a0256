"""C14: broadening functions are proper cumulative distributions."""
from vc.ctx import scenario

CD = "simcats.support_functions._cumulative_distribution_functions."


def ref(ctx, kind, x, x0, g):
    if kind == "sigmoid":
        return 0.5 * (1 + ctx.tanh((x - x0) / g))
    return ctx.atan((x - x0) / g) / ctx.pi + 0.5


def cdf(ctx, kind):
    f = ctx.get(CD + kind + "_cdf")
    n = ctx.size("points", 1)
    x0 = ctx.real("centre")
    g = ctx.real("width", 1e-6, None)
    x = ctx.array("x", (n,))
    k = ctx.snap(x)
    y = ctx.run("cdf", f, x, x0, g)
    ctx.arr_eq("value", y, (n,), lambda i: ref(ctx, kind, x[i], x0, g))
    ctx.forall("between 0 and 1", (n,), lambda i: ctx.and_(0 <= y[i], y[i] <= 1))
    ctx.forall("never decreases", (n, n), lambda i, j: ctx.implies(x[i] <= x[j], lambda: ctx.le(y[i], y[j], 1e-12)))
    ctx.forall("one half at the centre", (n,), lambda i: ctx.implies(x[i] == x0, lambda: ctx.eq(y[i], 0.5)))
    m = ctx.run("mirrored", f, 2 * x0 - x, x0, g)
    ctx.arr_eq("point symmetric about the centre", m, (n,), lambda i: 1 - y[i])
    c = ctx.run("centre", f, ctx.vec([x0]), x0, g)
    ctx.ensure_eq("one half at the centre value", c[0], 0.5)
    ctx.same("x", x, k)


@scenario("C14", fns=[CD + "sigmoid_cdf"], trials=200)
def sigmoid(ctx):
    cdf(ctx, "sigmoid")


@scenario("C14", fns=[CD + "cauchy_cdf"], trials=200)
def cauchy(ctx):
    cdf(ctx, "cauchy")


@scenario("C14", fns=[CD + "sigmoid_cdf", CD + "cauchy_cdf"], trials=200)
def zero_width(ctx):
    kind = ctx.choice("kind", ["sigmoid", "cauchy"])
    n = ctx.size("points", 1)
    x0 = ctx.real("centre")
    x = ctx.array("x", (n,))
    k = ctx.snap(x)
    y = ctx.run("cdf", ctx.get(CD + kind + "_cdf"), x, x0, 0.0)
    ctx.shape_is("step", y, (n,))
    ctx.forall("0 below the centre", (n,), lambda i: ctx.implies(x[i] < x0, lambda: ctx.exact(y[i], 0)))
    ctx.forall("1 above the centre", (n,), lambda i: ctx.implies(x[i] > x0, lambda: ctx.exact(y[i], 1)))
    ctx.forall("between 0 and 1", (n,), lambda i: ctx.and_(0 <= y[i], y[i] <= 1))
    ctx.same("x", x, k)


@scenario("C14", fns=[CD + "multi_sigmoid_cdf", CD + "multi_cauchy_cdf"], trials=200)
def multi(ctx):
    kind = ctx.choice("kind", ["sigmoid", "cauchy"])
    f = ctx.get(CD + "multi_" + kind + "_cdf")
    n, m = ctx.size("points", 1), ctx.choice("pairs", [1, 2, 3])
    x = ctx.array("x", (n,))
    ps = [(ctx.real(f"centre{i}"), ctx.real(f"width{i}", 1e-6, None)) for i in range(m)]
    flat = [v for p in ps for v in p]
    k = ctx.snap([x, flat])
    y = ctx.run("multi cdf", f, x, flat)
    ctx.arr_eq("sum over the pairs", y, (n,), lambda i: sum(ref(ctx, kind, x[i], c, g) for c, g in ps))
    ctx.same("inputs", [x, flat], k)
    j = ctx.int("cut", 0, m - 1)
    out = ctx.call(f, x, flat[:2 * m - 1])
    ctx.raises("odd parameter list", out, AssertionError)
