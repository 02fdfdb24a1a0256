"""Transcendental functions on symbolic scalars (uninterpreted + axioms in solve.py)."""
import z3

from .core import SNum, SInf, zr, num_value, o_or, engine, lift_num, PY_FLOAT, F8, b_if, Unsupported
from . import solve


def _res(x, e, undef=None):
    return SNum(e, F8, o_or(x.undef, undef), x.nan)


def canon(e):
    return z3.simplify(e, som=True)


def neg_of(e):
    """(sign, canonical argument): picks one representative of {e, -e}"""
    a = canon(e)
    v = num_value(a)
    if v is not None:
        return (1, a) if v >= 0 else (-1, canon(-a))
    b = canon(-a)
    return (1, a) if (len(a.sexpr()), a.sexpr()) <= (len(b.sexpr()), b.sexpr()) else (-1, b)


def sqrt_(x):
    a = canon(x.real)
    v = num_value(a)
    if v is not None and v >= 0:
        import math
        n, d = v.numerator, v.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return _res(x, z3.RealVal(f"{rn}/{rd}"))
    und = None if v is not None and v >= 0 else (a < 0)
    if und is not None and engine().known(a >= 0):
        und = None
    return _res(x, solve.F_SQRT(a), und)


def exp_(x):
    a = canon(x.real)
    if num_value(a) == 0:
        return _res(x, z3.RealVal(1))
    return _res(x, solve.F_EXP(a))


def log_(x):
    a = canon(x.real)
    if num_value(a) == 1:
        return _res(x, z3.RealVal(0))
    # log(exp(y)) = y
    if z3.is_app(a) and a.decl().name() == "exp_":
        return _res(x, a.arg(0))
    und = None if engine().known(a > 0) else (a <= 0)
    return _res(x, solve.F_LOG(a), und)


def pow_(x, y):
    b, e = canon(x.real), canon(y.real)
    und = None if engine().known(b > 0) else (b <= 0)
    r = SNum(solve.F_POW(b, e), F8, o_or(o_or(x.undef, y.undef), und), o_or(x.nan, y.nan))
    return r


def _odd(f):
    def g(x):
        s, a = neg_of(x.real)
        if num_value(a) == 0:
            return _res(x, z3.RealVal(0))
        t = f(a)
        return _res(x, t if s > 0 else -t)
    return g


tanh_ = _odd(solve.F_TANH)
atan_ = _odd(solve.F_ATAN)
sin_ = _odd(solve.F_SIN)


def asin_(x):
    s, a = neg_of(x.real)
    und = None if engine().known(z3.And(a >= -1, a <= 1)) else z3.Or(a < -1, a > 1)
    if num_value(a) == 0:
        return _res(x, z3.RealVal(0))
    t = solve.F_ASIN(a)
    return _res(x, t if s > 0 else -t, und)


def cos_(x):
    s, a = neg_of(x.real)
    if z3.is_app(a) and a.decl().name() == "asin_":       # the angle lies in [-pi/2, pi/2]
        return sqrt_(SNum(1 - a.arg(0) * a.arg(0), F8, x.undef, x.nan))
    if num_value(a) == 0:
        return _res(x, z3.RealVal(1))
    return _res(x, solve.F_COS(a))


def cosh_(x):
    s, a = neg_of(x.real)
    if num_value(a) == 0:
        return _res(x, z3.RealVal(1))
    return _res(x, solve.F_COSH(a))


def tan_(x):
    """sin/cos; an angle that is a machine number is rational, so its cosine does not vanish"""
    from .core import num_op
    c = cos_(x)
    eng = engine()
    if num_value(z3.simplify(c.e)) is None:
        eng.note("angles handed to tan are machine numbers (rational), so the tangent exists")
        eng.add_fact([], c.e != 0, None) if eng.nest else eng.assume(c.e != 0)
    return num_op("div", sin_(x), c)


def floor_(x):
    if x.is_int:
        return x
    return SNum(z3.ToInt(x.e), "pi", x.undef, x.nan)
