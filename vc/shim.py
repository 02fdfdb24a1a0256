"""What the modules under contract see instead of numpy, math, scipy, ... and of some builtins.
Concrete arguments go to the real library; symbolic ones to vc/arr.py and vc/fun.py."""
import builtins
import importlib
import math as _math
import numbers
import types

import numpy as np
import z3

from . import arr, core, fun, loops, solve
from .arr import SArr, SymSeq, asarray, array, elementwise, lift, cast_val, ix, iz, holds, icmp, pdim, iadd, isub, imul, isame
from .core import (SNum, SBool, SInf, SVal, Unsupported, engine, lift_num, num_op, num_cmp, b_and, b_or, b_not, zr, num_value,
                   mk_bool, v_if, PY_INT, PY_FLOAT, I8, F8, U1, o_or)

PI_F = SNum(solve.PI, PY_FLOAT)


def is_sym(x):
    if isinstance(x, (SVal, SArr, SymSeq, SymRange)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    if isinstance(x, dict):
        return any(is_sym(y) for y in x.values())
    return False


# ----------------------------------------------------------------------------- builtins
class _TypeMeta(type):
    def __new__(m, name, bases, ns, **k):
        if bases:       # a class of the program that derives from a builtin type
            return types.new_class(name, tuple(getattr(b, "__vc_real__", b) for b in bases), k, lambda d: d.update(ns))
        return super().__new__(m, name, bases, ns)

    def __instancecheck__(cls, x):
        return sym_isinstance(x, cls)

    def __eq__(cls, o):
        return o is cls or o is cls.__vc_real__

    def __hash__(cls):
        return hash(cls.__vc_real__)

    def __or__(cls, o):
        return cls.__vc_real__ | (getattr(o, "__vc_real__", o))

    def __ror__(cls, o):
        return (getattr(o, "__vc_real__", o)) | cls.__vc_real__

    def __repr__(cls):
        return repr(cls.__vc_real__)


class float_(metaclass=_TypeMeta):
    __vc_builtin__, __vc_real__ = "float", builtins.float

    def __new__(cls, x=0.0):
        if isinstance(x, SArr):
            x = x._one()
        if isinstance(x, SBool):
            x = core.bool_num(x)
        if isinstance(x, SNum):
            if isinstance(x, SInf):
                return x
            return SNum(zr(x.e), PY_FLOAT, x.undef, x.nan)
        return builtins.float(x)


class int_(metaclass=_TypeMeta):
    __vc_builtin__, __vc_real__ = "int", builtins.int

    def __new__(cls, x=0, *a):
        if isinstance(x, SArr):
            x = x._one()
        if isinstance(x, SBool):
            return core.bool_num(SBool(x.e))
        if isinstance(x, SNum):
            if x.undef is not None or x.nan is not None:
                if holds(z3.simplify(b_or(x.undef, x.nan))):
                    raise ValueError("cannot convert float NaN to integer")
            return concrete_int(core.py_trunc(SNum(x.e, x.dt)))
        return builtins.int(x, *a)


def concrete_int(v):
    w = z3.simplify(v.e)
    if z3.is_int_value(w):
        return w.as_long()
    return SNum(w, PY_INT)


def real_type(c):
    return getattr(c, "__vc_real__", c)


def sym_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(sym_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(sym_isinstance(x, c) for c in cls.__args__)
    cls = real_type(cls)
    if isinstance(x, SNum):
        if cls in (SNum, SVal, object):
            return builtins.isinstance(x, cls)
        k = x.dt
        table = {PY_INT: 0, PY_FLOAT: 0.0, I8: np.int64(0), F8: np.float64(0), U1: np.uint8(0)}
        return builtins.isinstance(table[k], cls)
    if isinstance(x, SBool):
        if cls in (SBool, SVal, object):
            return builtins.isinstance(x, cls)
        return builtins.isinstance(np.bool_(True) if x.np_ else True, cls)
    if isinstance(x, SArr):
        if cls is np.ndarray:
            return True
        return cls in (SArr, object)
    if isinstance(x, SymSeq):
        return cls in (list, object, SymSeq)
    if isinstance(x, SymRng):
        return cls in (np.random.Generator, SymRng, object)
    return builtins.isinstance(x, cls)


class type_(type):
    """type(x) on symbolic values; the metaclass itself otherwise"""
    def __new__(m, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SNum):
                return {PY_INT: builtins.int, PY_FLOAT: builtins.float, I8: np.int64, F8: np.float64, U1: np.uint8}[x.dt]
            if isinstance(x, SBool):
                return np.bool_ if x.np_ else bool
            if isinstance(x, SArr):
                return np.ndarray
            if isinstance(x, SymSeq):
                return list
            return builtins.type(x)
        return builtins.type(*a, **k)


def len_(x):
    if isinstance(x, SArr):
        if not x.shp:
            raise TypeError("len() of unsized object")
        return pdim(x.shp[0])
    if isinstance(x, (SymSeq, SymRange)):
        return pdim(x.n)
    return builtins.len(x)


class SymRange:
    """range with a symbolic bound"""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = ix(start), ix(stop), ix(step)
        if not isinstance(self.step, int) or self.step == 0:
            raise Unsupported("symbolic range step")
        if self.step > 0:
            lo, hi = self.start, self.stop
        else:
            lo, hi = self.stop, self.start
        d = isub(hi, lo)
        st = abs(self.step)
        if not holds(icmp("le", 0, d)):
            self.n = 0
        elif isinstance(d, int):
            self.n = (d + st - 1) // st
        else:
            self.n = d if st == 1 else ix((d + (st - 1)) / st)

    def get(self, k):
        v = iadd(self.start, imul(self.step, k))
        return v if isinstance(v, int) else SNum(v, PY_INT)

    def __len__(self):
        return len_(self).__index__()

    def __iter__(self):
        n = self.n
        if not isinstance(n, int):
            n = engine().concretize(SNum(n, PY_INT))
            if n is None:
                raise Unsupported("loop with a symbolic number of iterations")
        return iter([self.get(k) for k in builtins.range(n)])


class range_(metaclass=_TypeMeta):
    __vc_builtin__, __vc_real__ = "range", builtins.range

    def __new__(cls, *a):
        vs = []
        for x in a:
            if isinstance(x, SNum):
                if not x.is_int:
                    raise TypeError("'float' object cannot be interpreted as an integer")
                x = ix(x)
            elif isinstance(x, SArr):
                x = ix(x._one())
            vs.append(x)
        if any(core.is_z3(v) for v in vs):
            if len(vs) == 1:
                vs = [0, vs[0], 1]
            elif len(vs) == 2:
                vs.append(1)
            return SymRange(*vs)
        return builtins.range(*vs)


def _minmax(kind):
    nat = getattr(builtins, kind)

    def f(*a, **k):
        if k:
            return nat(*a, **k)
        if len(a) == 1:
            if isinstance(a[0], SArr):
                return a[0].min() if kind == "min" else a[0].max()
            xs = list(a[0])
        else:
            xs = list(a)
        if not any(isinstance(x, SVal) for x in xs):
            return nat(xs)
        r = xs[0]
        for x in xs[1:]:
            p, q = lift(x), lift(r)
            if p is None or q is None:
                c = (x < r) if kind == "min" else (x > r)
                r = x if c else r
                continue
            if isinstance(p, SInf) or isinstance(q, SInf):
                if num_cmp("lt" if kind == "min" else "gt", p, q) is True:
                    r = x
                elif num_cmp("lt" if kind == "min" else "gt", p, q) is False:
                    pass
                else:
                    r = x if num_cmp("lt" if kind == "min" else "gt", p, q) else r
                continue
            c = num_cmp("lt" if kind == "min" else "gt", arr.num_of(p), arr.num_of(q))
            if isinstance(c, bool):
                r = x if c else r
            elif p.dt == q.dt if isinstance(p, SNum) and isinstance(q, SNum) else False:
                r = v_if(c.e, p, q)
            else:
                r = x if c else r
        return r
    return f


def sum_(xs, start=0):
    if isinstance(xs, SymSeq) or (isinstance(xs, SArr) and not all(isinstance(d, int) for d in xs.shp[:1])):
        a = asarray(xs)
        return a.sum(axis=0) + start
    return builtins.sum(xs, start)


def round_(x, nd=None):
    if isinstance(x, SArr):
        x = x._one()
    if isinstance(x, SNum):
        if nd is not None:
            raise Unsupported("round with digits")
        if x.undef is not None or x.nan is not None:
            if holds(z3.simplify(b_or(x.undef, x.nan))):
                raise ValueError("cannot convert float NaN to integer")
        return concrete_int(core.py_round(SNum(x.e, x.dt)))
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def hash_guard(*a):
    return builtins.hash(*a)


# ----------------------------------------------------------------------------- ufunc helpers
def _u(f):
    """lift a scalar function to arrays"""
    def g(x, *a, out=None, where=None, **k):
        if isinstance(x, (list, tuple)):
            x = asarray(x)
        if isinstance(x, np.ndarray):
            x = asarray(x)
        if isinstance(x, SArr):
            if x.buf.dt == arr.B1:
                x = x.astype("i8")
            r = x.map(lambda v: cast_val(f(v), F8), F8)
            if out is not None:
                out[...] = r
                return out
            return r
        v = lift(x)
        if v is None:
            raise TypeError("ufunc not supported for the input type")
        r = f(arr.num_of(v))
        return SNum(zr(r.e), F8, r.undef, r.nan) if not isinstance(r, SInf) else r
    return g


def _u2(f, dt=None):
    def g(x, y, *a, **k):
        if k or a:
            raise Unsupported("ufunc with out/where")
        if any(isinstance(v, (SArr, list, tuple, np.ndarray)) for v in (x, y)):
            da, db = arr.operand(x)[2], arr.operand(y)[2]
            t = dt or core.np_dt(core.promote(I8 if da == arr.B1 else da, I8 if db == arr.B1 else db))
            return elementwise(lambda p, q: cast_val(f(arr.num_of(p), arr.num_of(q)), t), t, x, y)
        p, q = lift(x), lift(y)
        if p is None or q is None:
            raise TypeError("ufunc not supported for the input types")
        p, q = arr.num_of(p), arr.num_of(q)
        r = f(p, q)
        if isinstance(r, SInf):
            return r
        return cast_val(r, dt or core.np_dt(core.promote(p.dt, q.dt))) if not isinstance(r, bool) else np.bool_(r)
    return g


def _cmp(op):
    def g(x, y):
        if any(isinstance(v, (SArr, list, tuple, np.ndarray)) for v in (x, y)):
            return arr.binop(op, x, y)
        r = num_cmp(op, lift_num(x), lift_num(y))
        return np.bool_(r) if isinstance(r, bool) else SBool(r.e, True)
    return g


def math1(f, dom=None):
    def g(x):
        if isinstance(x, SArr):
            x = x._one()
        v = lift_num(x)
        if v is None:
            raise TypeError("must be real number")
        if dom is not None and holds(z3.simplify(dom(zr(v.e)))):
            raise ValueError("math domain error")
        r = f(v)
        return SNum(zr(r.e), PY_FLOAT, r.undef, r.nan)
    return g


def f_sign(v):
    one, zero, m = (z3.IntVal(1), z3.IntVal(0), z3.IntVal(-1)) if v.is_int else (z3.RealVal(1), z3.RealVal(0), z3.RealVal(-1))
    return SNum(z3.If(v.e > 0, one, z3.If(v.e < 0, m, zero)), v.dt, v.undef, v.nan)


def acos_(v):
    s = fun.asin_(v)
    return num_op("sub", num_op("div", SNum(solve.PI, F8), lift_num(2)), s)


def trunc_np(v):
    r = core.py_trunc(v)
    return SNum(z3.ToReal(r.e), F8, v.undef, v.nan)


def floor_np(v):
    return SNum(z3.ToReal(z3.ToInt(zr(v.e))), F8, v.undef, v.nan)


def ceil_np(v):
    return SNum(-z3.ToReal(z3.ToInt(-zr(v.e))), F8, v.undef, v.nan)


def rint_np(v):
    return SNum(z3.ToReal(core.py_round(SNum(zr(v.e), F8)).e), F8, v.undef, v.nan)


def is_nan(v):
    if isinstance(v, SInf):
        return SBool(core.FALSE, True)
    if v.undef is not None:
        # undefined: nan or infinite
        f = engine().fresh_bool_for(("isnan", v.e, v.undef))
        return SBool(b_or(v.nan, b_and(v.undef, f)), True)
    return SBool(b_or(v.nan), True)


def is_finite(v):
    if isinstance(v, SInf):
        return SBool(core.FALSE, True)
    return SBool(b_not(b_or(v.nan, v.undef)), True)


def _ub(f):
    def g(x):
        if isinstance(x, (SArr, list, tuple, np.ndarray)):
            return asarray(x).map(lambda v: f(arr.num_of(v)), arr.B1)
        v = lift(x)
        if v is None:
            raise TypeError("ufunc not supported for the input type")
        r = f(arr.num_of(v))
        return np.bool_(True) if z3.is_true(r.e) else np.bool_(False) if z3.is_false(r.e) else r
    return g


# ----------------------------------------------------------------------------- numpy
class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, np.ndarray))


class ndarray_(metaclass=_NdMeta):
    __vc_real__ = np.ndarray


class Shim(types.ModuleType):
    def __init__(self, name, real=None, table=None, concrete=True):
        super().__init__(name)
        self.__dict__["_real"], self.__dict__["_concrete"] = real, concrete
        for k, v in (table or {}).items():
            setattr(self, k, v)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = self.__dict__["_real"]
        if real is None:
            def miss(*a, **k):
                raise Unsupported(f"{self.__name__}.{n}")
            return miss
        v = getattr(real, n)
        if isinstance(v, types.ModuleType) or not callable(v) or isinstance(v, builtins.type):
            return v

        def f(*a, **k):
            if is_sym(a) or is_sym(k):
                raise Unsupported(f"{self.__name__}.{n} on symbolic arguments")
            r = v(*a, **k)
            return arr.from_native(r) if isinstance(r, np.ndarray) else r
        return f


def np_linspace(a, b, num=50, endpoint=True, dtype=None):
    n = arr.shape_arg(num)[0]
    if not endpoint:
        raise Unsupported("linspace without end point")
    x, y = lift_num(a if not isinstance(a, SArr) else a._one() if a.ndim == 0 else a), lift_num(b if not isinstance(b, SArr) else b._one())
    if x is None or y is None:
        raise Unsupported("linspace of arrays")
    x, y = cast_val(x, F8), cast_val(y, F8)
    if isinstance(n, int):
        den = SNum(z3.RealVal(builtins.max(n - 1, 1)), F8)
        one = n <= 1
    else:
        one = None
        den = SNum(z3.ToReal(n - 1 if arr.sure(n >= 2) else z3.If(n <= 1, 1, n - 1)), F8)
    d = num_op("sub", y, x)
    still = num_value(z3.simplify(d.e)) == 0 and d.undef is None and d.nan is None

    def fn(idx):
        if one or still:
            return x
        i = idx[0]
        if isinstance(i, int) and i == 0:
            return x
        if isinstance(i, int) and isinstance(n, int) and i == n - 1:
            return y
        q = num_op("mul", d, SNum(zr(iz(i)), F8))
        return num_op("add", x, SNum(q.e / den.e, F8, q.undef, q.nan))       # the divisor is at least one
    return SArr.make(F8, (n,), fn)


def np_arange(*a, dtype=None):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    s, e, d = lift_num(start), lift_num(stop), lift_num(step)
    t = core.np_dt(core.promote(core.promote(s.dt, e.dt), d.dt))
    if core.is_int_dt(t) and num_value(z3.simplify(d.e)) is not None:
        r = SymRange(SNum(s.e, PY_INT), SNum(e.e, PY_INT), SNum(d.e, PY_INT))
        n = r.n
        res = SArr.make(I8, (n,), lambda idx: SNum(iz(iadd(r.start, imul(r.step, idx[0]))), I8))
    else:
        q = num_op("div", num_op("sub", np_f(e), np_f(s)), np_f(d))
        n = ix(-z3.ToInt(-zr(q.e)))
        if not holds(icmp("lt", 0, n)):
            n = 0
        res = SArr.make(F8, (n,), lambda idx: num_op("add", np_f(s), num_op("mul", np_f(d), SNum(zr(iz(idx[0])), F8))))
    return res if dtype is None else res.astype(dtype)


def np_f(v):
    return SNum(zr(v.e), F8, v.undef, v.nan)


def np_concatenate(xs, axis=0):
    xs = [asarray(x) for x in xs]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    if axis is None:
        xs, axis = [x.ravel() for x in xs], 0
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs):
        raise ValueError("all the input array dimensions must match")
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd if -nd <= axis < nd else None
    if axis is None:
        raise ValueError("axis out of bounds")
    for j in builtins.range(nd):
        if j != axis:
            for x in xs[1:]:
                if not arr.dims_equal(x.shp[j], xs[0].shp[j]):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    # drop empty parts
    dt = arr.join_dts([x.buf.dt for x in xs])
    xs = [x for x in xs if not (isinstance(x.shp[axis], int) and x.shp[axis] == 0)] or [xs[0]]
    offs, tot = [], 0
    for x in xs:
        offs.append(tot)
        tot = iadd(tot, x.shp[axis])
    rds = [x.frozen() for x in xs]

    def fn(idx):
        i = idx[axis]

        def part(q):
            return cast_val(rds[q](idx[:axis] + (isub(i, offs[q]),) + idx[axis + 1:]), dt)
        if isinstance(i, int):
            for q in builtins.range(len(xs)):
                c = icmp("lt", i, iadd(offs[q], xs[q].shp[axis]))
                if c is True or (c is not False and arr.sure(c)):
                    return part(q)
                if c is not False:
                    break
        r = part(len(xs) - 1)
        for q in builtins.range(len(xs) - 2, -1, -1):
            c = icmp("lt", i, iadd(offs[q], xs[q].shp[axis]))
            if c is True:
                r = part(q)
            elif c is not False:
                r = v_if(c, part(q), r)
        return r
    shp = xs[0].shp[:axis] + (tot,) + xs[0].shp[axis + 1:]
    return SArr.make(dt, shp, fn)


def at_least(x, n):
    x = asarray(x)
    if n == 1 and x.ndim == 0:
        return x.reshape(1)
    if n == 2 and x.ndim < 2:
        return x.reshape(1, 1) if x.ndim == 0 else x[None, :]
    if n == 3:
        if x.ndim == 0:
            return x.reshape(1, 1, 1)
        if x.ndim == 1:
            return x[None, :, None]
        if x.ndim == 2:
            return x[:, :, None]
    return x


def np_hstack(xs):
    xs = [at_least(x, 1) for x in xs]
    return np_concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def np_vstack(xs):
    return np_concatenate([at_least(x, 2) for x in xs], 0)


def np_dstack(xs):
    return np_concatenate([at_least(x, 3) for x in xs], 2)


def np_stack(xs, axis=0):
    a = array(list(xs))
    p = list(builtins.range(1, a.ndim))
    p.insert(axis % a.ndim, 0)
    return a.transpose(*p)


def np_like(v):
    def f(a, dtype=None, **k):
        a = asarray(a)
        return arr.full(tuple(pdim(d) for d in a.shp), v, dtype if dtype is not None else a.buf.dt)
    return f


def np_empty(shape, dtype=None, **k):
    shp = arr.shape_arg(shape)
    dt = arr.dt_of(dtype)
    eng = engine()
    srt = {F8: z3.RealSort(), I8: z3.IntSort(), U1: z3.IntSort(), arr.B1: z3.BoolSort()}[dt]
    f, _ = eng.fresh_fun("empty", [z3.IntSort()] * len(shp), srt)
    mk = (lambda e: SBool(e, True)) if dt == arr.B1 else (lambda e: SNum(e, dt))
    if not shp:
        c = eng.fresh("empty", srt)
        return SArr.make(dt, (), lambda idx: mk(c))
    return SArr.make(dt, shp, lambda idx: mk(f(*[iz(i) for i in idx])))


def np_size(a, axis=None):
    a = asarray(a)
    return a.size if axis is None else pdim(a.shp[axis])


def np_prod(a, axis=None, **k):
    if isinstance(a, (tuple, list)) and all(lift(x) is not None for x in a):
        r = SNum(z3.IntVal(1), I8)
        for x in a:
            r = num_op("mul", r, lift_num(x))
        v = num_value(z3.simplify(r.e)) if r.is_int else None
        return np.int64(int(v)) if v is not None else SNum(r.e, core.np_dt(r.dt))
    return asarray(a).prod(axis)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _abs(arr_sub(a, b)) <= (atol + rtol * _abs(asarray(b) if not is_scalar(b) else b))
    return r


def is_scalar(x):
    return lift(x) is not None


def arr_sub(a, b):
    if is_scalar(a) and is_scalar(b):
        return SNum(zr(lift_num(a).e), F8) - SNum(zr(lift_num(b).e), F8)
    return arr.binop("sub", a, b)


def _abs(x):
    if isinstance(x, (list, tuple, np.ndarray)):
        x = asarray(x)
    v = x if isinstance(x, SArr) else lift_num(x)
    return abs(v)


def np_diff(a, n=1, axis=-1):
    a = asarray(a)
    if n != 1:
        raise Unsupported("diff of higher order")
    k = [slice(None)] * a.ndim
    k1, k0 = list(k), list(k)
    k1[axis], k0[axis] = slice(1, None), slice(None, -1)
    return a[tuple(k1)] - a[tuple(k0)]


def np_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm order")
    a = asarray(x)
    if a.buf.dt != F8:
        a = a.astype("f8")
    s = arr.reduce_sum(a * a, axis)
    return _u(fun.sqrt_)(s)


def np_where(c, *ab):
    if not ab:
        return arr.where1(c)
    a, b = ab
    if not any(isinstance(x, (SArr, list, tuple, np.ndarray)) for x in (c, a, b)):
        r = arr.where3(c, a, b)
        return asarray(cast_val(r, core.np_dt(r.dt) if isinstance(r, SNum) else arr.B1))
    return arr.where3(c, a, b)


def np_clip(a, lo, hi):
    r = a
    if lo is not None:
        r = N["maximum"](r, lo)
    if hi is not None:
        r = N["minimum"](r, hi)
    return r


def np_meshgrid(*xs, indexing="xy"):
    if len(xs) != 2 or indexing != "xy":
        raise Unsupported("meshgrid")
    a, b = asarray(xs[0]), asarray(xs[1])
    ra, rb = a.frozen(), b.frozen()
    shp = (b.shp[0], a.shp[0])
    return [SArr.make(a.buf.dt, shp, lambda i: ra((i[1],))), SArr.make(b.buf.dt, shp, lambda i: rb((i[0],)))]


def np_fill_diagonal(a, v):
    if a.ndim != 2:
        raise Unsupported("fill_diagonal")
    v = asarray(v)
    if v.ndim == 0:
        x = v._one()
        rv = lambda i: x
    else:
        if v.ndim != 1 or not any(holds(icmp("le", d, v.shp[0])) for d in a.shp):
            raise Unsupported("fill_diagonal with fewer values than places")
        rv = (lambda rd: lambda i: rd((i,)))(v.frozen())
    if dims_conc(a):
        for i in builtins.range(builtins.min(a.shp)):
            a[i, i] = rv(i)
        return
    old, dt = a.frozen(), a.buf.dt
    a[:, :] = SArr.make(dt, a.shp, lambda i: v_ifb(icmp("eq", i[0], i[1]), lambda: cast_val(lift_num(rv(i[0])), dt), old(i)))


def dims_conc(a):
    return all(isinstance(d, int) for d in a.shp)


def np_diag(a):
    a = asarray(a)
    rd = a.frozen()
    if a.ndim == 1:
        n = a.shp[0]
        zero = cast_val(lift(0), a.buf.dt)
        return SArr.make(a.buf.dt, (n, n), lambda i: v_ifb(icmp("eq", i[0], i[1]), lambda: rd((i[0],)), zero))
    short = a.shp[0] if holds(icmp("le", a.shp[0], a.shp[1])) else a.shp[1]
    return SArr.make(a.buf.dt, (short,), lambda i: rd((i[0], i[0])))


def v_ifb(c, a, b):
    if c is True:
        return a()
    if c is False:
        return b
    return v_if(c, a(), b)


def np_cross(a, b, axis=-1):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1 and a.shp[0] == 3 and b.shp[0] == 3:
        return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    if isame(a.shp[-1], 2) and isame(b.shp[-1], 2):
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    if isame(a.shp[-1], 3) and isame(b.shp[-1], 3):
        xs = [a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
              a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]]
        return np_stack(xs, -1)
    raise Unsupported("cross")


def np_unique(a):
    a = asarray(a).ravel()
    if dims_conc(a):
        vs = [a.at((i,)) for i in builtins.range(a.shp[0])]
        out = []
        for v in vs:
            if not any(bool(num_cmp("eq", arr.num_of(v), arr.num_of(w))) for w in out):
                out.append(v)
        # ascending
        res = []
        for v in out:
            p = 0
            while p < len(res) and bool(num_cmp("lt", arr.num_of(res[p]), arr.num_of(v))):
                p += 1
            res.insert(p, v)
        t = a.buf.dt
        return SArr.make(t, (len(res),), lambda idx: arr.chain(res, idx[0]))
    if a.buf.dt in (I8, U1):
        # integers in a small provable range: fork on the presence of every value
        eng = engine()
        k = eng.key("u")
        eng.keyguards.append(z3.And(k >= 0, k < iz(a.shp[0])))
        try:
            v = a.at((k,)).e
            hi = None
            for h in (0, 1, 2, 3, 4, 5, 6, 8, 16):
                if eng.prove(z3.And(v >= 0, v <= h)) == "proved":
                    hi = h
                    break
        finally:
            eng.keyguards.pop()
        if hi is not None:
            vals = [w for w in builtins.range(hi + 1) if bool(arr.reduce_any(a == w, None, False))]
            return array(vals, "i8") if vals else SArr.make(I8, (0,), lambda i: SNum(z3.IntVal(0), I8))
    raise Unsupported("unique of a symbolic array")


def np_searchsorted(*a, **k):
    raise Unsupported("searchsorted")


def np_array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim or not all(arr.dims_equal(x, y) for x, y in zip(a.shp, b.shp)):
        return False
    return (a == b).all()


def np_gradient(f, *a, **k):
    f = asarray(f)
    if a or k or f.ndim != 1:
        raise Unsupported("gradient")
    n = f.shp[0]
    if not holds(icmp("le", 2, n)):
        raise ValueError("Shape of array too small to calculate a numerical gradient")
    rd = f.astype("f8").frozen()

    def fn(idx):
        i = idx[0]
        half = SNum(z3.RealVal("1/2"), F8)
        inner = lambda: num_op("mul", num_op("sub", rd((iadd(i, 1),)), rd((isub(i, 1),))), half)
        first = lambda: num_op("sub", rd((1,)), rd((0,)))
        last = lambda: num_op("sub", rd((isub(n, 1),)), rd((isub(n, 2),)))
        r = v_ifb(icmp("eq", i, isub(n, 1)), last, inner() if not (isinstance(i, int) and i == 0) else SNum(z3.RealVal(0), F8))
        return v_ifb(icmp("eq", i, 0), first, r)
    return SArr.make(F8, (n,), fn)


def np_divide(a, b, out=None, where=None):
    if out is None and where is None:
        if is_scalar(a) and is_scalar(b):
            return arr.np_scalar(lift_num(a)) / arr.np_scalar(lift_num(b))
        return arr.binop("div", a, b)
    if out is None:
        raise Unsupported("divide(where) without out")
    if where is None:
        out[...] = arr.binop("div", a, b)
        return out
    q = arr.binop("div", asarray(a), b)
    out[...] = arr.where3(where, q, out)
    return out


class np_errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def np_round(a, decimals=0):
    if decimals != 0:
        raise Unsupported("np.round with decimals")
    return _u(rint_np)(a)


def np_copy(a, order=None, **k):
    return array(a)


def np_array(x, dtype=None, copy=True, order=None, ndmin=0):
    if dtype is object:
        raise Unsupported("object array")
    return array(x, dtype)


def np_asarray(x, dtype=None, **k):
    return asarray(x, dtype)


def np_pow(a, b):
    if isinstance(a, (SArr, list, tuple, np.ndarray)) or isinstance(b, (SArr, list, tuple, np.ndarray)):
        return arr.binop("pow", a, b)
    r = arr.np_scalar(lift_num(a)) ** arr.np_scalar(lift_num(b))
    return r


def np_sum(a, axis=None, dtype=None, **k):
    return arr.reduce_sum(asarray(a), axis)


def np_cumsum(a, axis=None):
    a = asarray(a)
    if a.ndim != 1 or not dims_conc(a):
        raise Unsupported("cumsum")
    out, s = [], None
    for i in builtins.range(a.shp[0]):
        v = a.at((i,))
        v = arr.num_of(v)
        s = v if s is None else num_op("add", s, v)
        out.append(s)
    return array([SNum(v.e, core.np_dt(v.dt), v.undef, v.nan) for v in out])


def np_repeat(a, n, axis=None):
    a = asarray(a)
    if axis is not None or not isinstance(ix(n) if not isinstance(n, SArr) else None, int):
        raise Unsupported("repeat")
    n = ix(n)
    rd = a.ravel().frozen()
    return SArr.make(a.buf.dt, (imul(a.ravel().shp[0], n),), lambda i: rd((i[0] // n if isinstance(i[0], int) else ix(i[0] / n),)))


def np_expand_dims(a, axis):
    a = asarray(a)
    k = [slice(None)] * a.ndim
    k.insert(axis if axis >= 0 else a.ndim + 1 + axis, None)
    return a[tuple(k)]


def np_flip(a, axis=None):
    a = asarray(a)
    k = [slice(None, None, -1) if axis is None or j == axis % a.ndim else slice(None) for j in builtins.range(a.ndim)]
    return a[tuple(k)]


def np_ndim(a):
    return 0 if is_scalar(a) else asarray(a).ndim


def np_shape(a):
    return () if is_scalar(a) else asarray(a).shape


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return arr.reduce_any(asarray(np_isclose(asarray(a), asarray(b), rtol, atol)), None, True)


def np_solve(A, b):
    A, b = asarray(A), asarray(b)
    if A.shp != (2, 2) or b.shp != (2,):
        raise Unsupported("linalg.solve")
    det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    if bool(det == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    return array([(b[0] * A[1, 1] - A[0, 1] * b[1]) / det, (A[0, 0] * b[1] - A[1, 0] * b[0]) / det])


def np_inv(A):
    A = asarray(A)
    if A.shp != (2, 2):
        raise Unsupported("linalg.inv")
    det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    if bool(det == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    return array([[A[1, 1] / det, -A[0, 1] / det], [-A[1, 0] / det, A[0, 0] / det]])


N = dict(
    ndarray=ndarray_, array=np_array, asarray=np_asarray, ascontiguousarray=np_asarray, asfortranarray=np_array, copy=np_copy,
    zeros=lambda shape, dtype=None, **k: arr.full(shape, cast_val(lift(0), arr.dt_of(dtype)), dtype),
    ones=lambda shape, dtype=None, **k: arr.full(shape, cast_val(lift(1), arr.dt_of(dtype)), dtype),
    full=lambda shape, v, dtype=None, **k: arr.full(shape, v, dtype), empty=np_empty,
    zeros_like=np_like(0), ones_like=np_like(1), empty_like=np_like(0),
    full_like=lambda a, v, dtype=None, **k: np_like(v)(a, dtype),
    linspace=np_linspace, arange=np_arange, concatenate=np_concatenate, hstack=np_hstack, vstack=np_vstack, dstack=np_dstack,
    stack=np_stack, column_stack=lambda xs: np_stack([asarray(x) for x in xs], -1), append=lambda a, b, axis=None: np_concatenate(
        [asarray(a), asarray(b).reshape(1) if np_ndim(b) == 0 else asarray(b)], axis),
    reshape=lambda a, s, **k: asarray(a).reshape(s) if not isinstance(s, int) else asarray(a).reshape(s),
    ravel=lambda a, **k: asarray(a).ravel(), transpose=lambda a, ax=None: asarray(a).transpose(*(ax or ())),
    squeeze=lambda a: asarray(a).squeeze(), expand_dims=np_expand_dims, flip=np_flip, flipud=lambda a: np_flip(a, 0),
    fliplr=lambda a: np_flip(a, 1), swapaxes=lambda a, i, j: asarray(a).swapaxes(i, j),
    size=np_size, shape=np_shape, ndim=np_ndim, prod=np_prod, isclose=np_isclose, allclose=np_allclose,
    min=lambda a, axis=None, **k: arr.reduce_minmax(asarray(a), axis, "min"),
    max=lambda a, axis=None, **k: arr.reduce_minmax(asarray(a), axis, "max"),
    amin=lambda a, axis=None: arr.reduce_minmax(asarray(a), axis, "min"),
    amax=lambda a, axis=None: arr.reduce_minmax(asarray(a), axis, "max"),
    argmin=lambda a, axis=None: arr.arg_minmax(asarray(a), "min", axis),
    argmax=lambda a, axis=None: arr.arg_minmax(asarray(a), "max", axis),
    sum=np_sum, mean=lambda a, axis=None, **k: asarray(a).mean(axis), cumsum=np_cumsum,
    any=lambda a, axis=None, **k: arr.reduce_any(asarray(a), axis, False),
    all=lambda a, axis=None, **k: arr.reduce_any(asarray(a), axis, True),
    abs=_abs, absolute=_abs, fabs=_abs, sign=lambda x: asarray(x).map(f_sign) if not is_scalar(x) else f_sign(lift_num(x)),
    where=np_where, nonzero=lambda a: arr.where1(a), argwhere=lambda a: np_stack(arr.where1(a), -1),
    flatnonzero=lambda a: arr.where1(asarray(a).ravel())[0],
    sort=lambda a, axis=-1, **k: arr.sort1(a), unique=np_unique, clip=np_clip, diff=np_diff, gradient=np_gradient,
    meshgrid=np_meshgrid, fill_diagonal=np_fill_diagonal, diag=np_diag, cross=np_cross, repeat=np_repeat,
    dot=lambda a, b: arr.dot(asarray(a), asarray(b)), matmul=lambda a, b: arr.dot(asarray(a), asarray(b)),
    add=lambda a, b: arr.binop("add", asarray(a), b), subtract=arr_sub, multiply=lambda a, b: arr.binop("mul", asarray(a), b),
    divide=np_divide, true_divide=np_divide, power=np_pow, square=lambda a: a * a, negative=lambda a: -a,
    floor_divide=lambda a, b: arr.binop("floordiv", a, b) if not (is_scalar(a) and is_scalar(b)) else
    arr.np_scalar(lift_num(a)) // arr.np_scalar(lift_num(b)),
    divmod=lambda a, b: (N["floor_divide"](a, b), N["mod"](a, b)),
    mod=lambda a, b: arr.binop("mod", a, b) if not (is_scalar(a) and is_scalar(b)) else arr.np_scalar(lift_num(a)) % arr.np_scalar(lift_num(b)),
    maximum=_u2(lambda a, b: arr.pick("max", a, b)), minimum=_u2(lambda a, b: arr.pick("min", a, b)),
    greater=_cmp("gt"), greater_equal=_cmp("ge"), less=_cmp("lt"), less_equal=_cmp("le"), equal=_cmp("eq"), not_equal=_cmp("ne"),
    logical_and=lambda a, b: arr.binop("and", asarray(a).astype(bool), asarray(b).astype(bool)),
    logical_or=lambda a, b: arr.binop("or", asarray(a).astype(bool), asarray(b).astype(bool)),
    logical_not=lambda a: ~asarray(a).astype(bool),
    sqrt=_u(fun.sqrt_), exp=_u(fun.exp_), log=_u(fun.log_), tanh=_u(fun.tanh_), arctan=_u(fun.atan_), sin=_u(fun.sin_),
    cos=_u(fun.cos_), tan=_u(fun.tan_), arcsin=_u(fun.asin_), arccos=_u(acos_), cosh=_u(fun.cosh_), floor=_u(floor_np),
    ceil=_u(ceil_np), rint=_u(rint_np), trunc=_u(trunc_np), round=np_round, around=np_round,
    isnan=_ub(is_nan), isfinite=_ub(is_finite), isscalar=lambda x: is_scalar(x) or isinstance(x, str),
    array_equal=np_array_equal, errstate=np_errstate, pi=PI_F, nan=float("nan"), inf=_math.inf,
)


def mk_numpy():
    m = Shim("numpy", np, N)
    m.linalg = Shim("numpy.linalg", np.linalg, dict(norm=np_norm, solve=np_solve, inv=np_inv, LinAlgError=np.linalg.LinAlgError))
    m.random = Shim("numpy.random", np.random, dict(Generator=GenType, default_rng=default_rng))
    return m


# ----------------------------------------------------------------------------- random
class _GenMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymRng, np.random.Generator))


class GenType(metaclass=_GenMeta):
    __vc_real__ = np.random.Generator


class SymRng:
    """numpy.random.Generator: a draw is an arbitrary value of its distribution's support"""
    far = 0

    def __init__(self, name, ctx=None):
        self.name, self.c, self.draws = name, ctx, []
        engine().rngs.append(self)

    @staticmethod
    def alive(eng):
        return list(eng.rngs)

    def __repr__(self):
        return f"SymRng({self.name})"

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Generator.{n}")

    def _draw(self, kind, size, dt, support, rec=()):
        """support(e) -> z3 constraint on one drawn value"""
        eng = engine()
        nm = f"{self.name}.{kind}"
        if self.c is not None:
            nm = self.c._nm(nm)
        srt = z3.RealSort() if dt == F8 else z3.IntSort()
        if size is None:
            e = eng.fresh(nm, srt, exact=None if self.c is None or eng.keystack else "in:" + nm)
            eng.assume(support(e))
            v = SNum(e, PY_FLOAT if dt == F8 else PY_INT)
            # numpy returns Python floats / ints for scalar draws
            if self.c is not None:
                self.c.record(nm, lambda m: self.c.val(m, v))
        else:
            shp = arr.shape_arg(size)
            f, fd = eng.fresh_fun(nm, [z3.IntSort()] * len(shp), srt, exact=None if self.c is None or eng.keystack else "in:" + nm)
            ks = [eng.key("d") for _ in shp]
            eng.add_fact(ks, support(f(*ks)), [(fd.name(), tuple(eng.keystack) + tuple(ks))])
            v = SArr.make(dt, shp, lambda idx: SNum(f(*[iz(i) for i in idx]), dt))
            if self.c is not None:
                self.c.record(nm, lambda m, w=v.copy(): self.c.val(m, w))
        self.draws.append((kind, v if not isinstance(v, SArr) else v.copy()) + rec)
        return v

    def _num(self, x):
        if isinstance(x, SArr):
            if x.ndim:
                raise Unsupported("array parameter of a distribution")
            x = x._one()
        v = lift_num(x)
        if v is None:
            raise TypeError("must be real number")
        return zr(v.e)

    def normal(self, loc=0.0, scale=1.0, size=None):
        m, s = self._num(loc), self._num(scale)
        if holds(z3.simplify(s < 0)):
            raise ValueError("scale < 0")
        return self._draw("normal", size, F8, lambda e: z3.Implies(s == 0, e == m), (loc, scale))

    def uniform(self, low=0.0, high=1.0, size=None):
        a, b = self._num(low), self._num(high)
        if holds(z3.simplify(b < a)):
            raise ValueError("high - low < 0")
        return self._draw("uniform", size, F8, lambda e: z3.If(a == b, e == a, z3.And(e >= a, e < b)), (low, high))

    def random(self, size=None, dtype=float, out=None):
        return self.uniform(0.0, 1.0, size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        m, s = self._num(mean), self._num(sigma)
        if holds(z3.simplify(s < 0)):
            raise ValueError("sigma < 0")
        return self._draw("lognormal", size, F8, lambda e: z3.And(e > 0, z3.Implies(s == 0, e == solve.F_EXP(m))), (mean, sigma))

    def exponential(self, scale=1.0, size=None):
        s = self._num(scale)
        if holds(z3.simplify(s < 0)):
            raise ValueError("scale < 0")
        return self._draw("exponential", size, F8, lambda e: z3.And(e >= 0, z3.Implies(s == 0, e == 0)), (scale,))

    def binomial(self, n, p, size=None):
        q = self._num(p)
        if holds(z3.simplify(z3.Or(q < 0, q > 1))):
            raise ValueError("p < 0, p > 1 or p is NaN")
        k = iz(ix(n)) if not isinstance(n, float) else z3.IntVal(int(n))
        return self._draw("binomial", size, I8, lambda e: z3.And(e >= 0, e <= k, z3.Implies(q == 0, e == 0), z3.Implies(q == 1, e == k)), (n, p))

    def geometric(self, p, size=None):
        q = self._num(p)
        if holds(z3.simplify(z3.Or(q <= 0, q > 1))):
            raise ValueError("p <= 0, p > 1 or p contains NaNs")
        return self._draw("geometric", size, I8, lambda e: z3.And(e >= 1, z3.Implies(q == 1, e == 1)), (p,))

    def poisson(self, lam=1.0, size=None):
        q = self._num(lam)
        if holds(z3.simplify(q < 0)):
            raise ValueError("lam < 0 or lam contains NaNs")
        return self._draw("poisson", size, I8, lambda e: z3.And(e >= 0, z3.Implies(q == 0, e == 0)), (lam,))

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        a, b = (0, low) if high is None else (low, high)
        a, b = iz(ix(a)), iz(ix(b))
        if endpoint:
            b = b + 1
        if holds(z3.simplify(a >= b)):
            raise ValueError("low >= high")
        return self._draw("integers", size, I8, lambda e: z3.And(e >= a, e < b), (low, high))

    def kinds(self, *ks):
        return [d for d in self.draws if d[0] in ks]

    def flat(self, kind):
        out = []
        for d in self.draws:
            if d[0] == kind:
                v = d[1]
                out.extend([v] if not isinstance(v, SArr) else list(v.ravel()))
        return out


def default_rng(seed=None):
    if isinstance(seed, (SymRng, np.random.Generator)):
        return seed
    eng = engine()
    eng.counter += 1
    if seed is not None and not is_sym(seed):
        eng.note("numpy.random.default_rng(seed): draws are arbitrary values of their distribution; that equal seeds give equal draws is not used")
    return SymRng(f"rng!{eng.counter}")


# ----------------------------------------------------------------------------- math
def math_floor(x):
    v = lift_num(x if not isinstance(x, SArr) else x._one())
    return concrete_int(SNum(v.e if v.is_int else z3.ToInt(v.e), PY_INT))


def math_ceil(x):
    v = lift_num(x if not isinstance(x, SArr) else x._one())
    return concrete_int(SNum(v.e if v.is_int else -z3.ToInt(-v.e), PY_INT))


def math_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    x, y = lift_num(a), lift_num(b)
    d = abs(x - y)
    m = _minmax("max")(abs(x), abs(y))
    bound = _minmax("max")(rel_tol * m, lift_num(abs_tol))
    return d <= bound


M = dict(
    pi=PI_F, floor=math_floor, ceil=math_ceil, isclose=math_isclose, inf=_math.inf, nan=float("nan"),
    sqrt=math1(fun.sqrt_, lambda e: e < 0), exp=math1(fun.exp_), log=math1(fun.log_, lambda e: e <= 0), tanh=math1(fun.tanh_),
    atan=math1(fun.atan_), sin=math1(fun.sin_), cos=math1(fun.cos_), tan=math1(fun.tan_), cosh=math1(fun.cosh_),
    asin=math1(fun.asin_, lambda e: z3.Or(e < -1, e > 1)), acos=math1(acos_, lambda e: z3.Or(e < -1, e > 1)),
    fabs=lambda x: abs(float_(x)), hypot=lambda *xs: math1(fun.sqrt_)(builtins.sum(lift_num(x) * lift_num(x) for x in xs)),
    isnan=lambda x: bool(_ub(is_nan)(x)), isfinite=lambda x: bool(_ub(is_finite)(x)), trunc=int_,
    prod=lambda xs: _prod(xs), pow=lambda a, b: float_(a) ** float_(b), radians=lambda x: x * PI_F / 180,
)


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def mk_math():
    t = {}
    for k, v in M.items():
        if callable(v):
            t[k] = concrete_first(v, getattr(_math, k))
        else:
            t[k] = v
    return Shim("math", _math, t)


def concrete_first(f, real):
    def g(*a, **k):
        if not is_sym(a) and not is_sym(k):
            return real(*a, **k)
        return f(*a, **k)
    return g


# ----------------------------------------------------------------------------- sequences of symbolic length
def sym_len(it):
    """symbolic length (z3) of an iterable, None if it can be iterated concretely"""
    if isinstance(it, (SymRange, SymSeq)):
        n = it.n
    elif isinstance(it, SArr):
        if not it.shp:
            return None
        n = it.shp[0]
    else:
        return None
    if isinstance(n, int):
        return None
    s = z3.simplify(n)
    if z3.is_int_value(s):
        return None
    return n


def seq_get(it, k):
    """element at an in-range position (z3 Int or int)"""
    if isinstance(it, SymRange):
        return it.get(k)
    if isinstance(it, SymSeq):
        return it.elem(k)
    if it.ndim == 1:
        return it.scalar(it.at((k,)))
    return SArr(it.buf, [a if a[0] == "f" else ("f", iadd(a[2], imul(a[3], k))) if a[1] == 0 else ("r", a[1] - 1, a[2], a[3])
                         for a in it.axes], it.shp[1:], None, it.ro)


def generic_element(fn, n):
    """value of fn(k) for 0 <= k < n as a function of k; exceptions of some element are forked off"""
    eng = engine()
    k = eng.key("k")
    eng.use_index(k)
    bad = []

    def one():
        try:
            return ("ok", fn(k))
        except Exception as ex:
            return ("exc", ex)
    outs = eng.nested(one, [k], z3.And(k >= 0, k < iz(n)))
    good = [(c, r[1]) for c, r in outs if r[0] == "ok"]
    for c, r in outs:
        if r[0] == "exc":
            bad.append((c, r[1]))
    if bad:
        w = eng.fresh("wexc", z3.IntSort())
        ex = eng.fresh("raises", z3.BoolSort())
        if eng.branch(ex):
            for c, e in bad[:-1]:
                cw = b_and(w >= 0, w < iz(n), z3.substitute(c, (k, w)))
                f = eng.fresh("which", z3.BoolSort())
                if eng.branch(f):
                    eng.assume(cw)
                    raise e
            eng.assume(b_and(w >= 0, w < iz(n), z3.substitute(bad[-1][0], (k, w))))
            raise bad[-1][1]
        body = z3.Implies(z3.And(k >= 0, k < iz(n)), b_and(*[b_not(c) for c, _ in bad]))
        eng.add_fact([k], body, arr.auto_trigger(body, [k]))
    if not good:
        raise core.PathDone()
    v = core.merge_values(good)
    return lambda i: core.subst(v, [(k, iz(i))])


def comp(f, it):
    n = sym_len(it)
    if n is None:
        return [f(x) for x in it]
    return SymSeq(n, generic_element(lambda k: f(seq_get(it, k)), n))


def enumerate_(it, start=0):
    n = sym_len(it)
    if n is None:
        return builtins.enumerate(it, start)
    return SymSeq(n, lambda k: (SNum(iz(iadd(k, start)), PY_INT) if not isinstance(k, int) else k + start, seq_get(it, k)))


def zip_(*its, **kw):
    ns = [sym_len(i) for i in its]
    if not any(n is not None for n in ns):
        return builtins.zip(*its, **kw)
    ds = [n if n is not None else builtins.len(list(i) if not hasattr(i, "__len__") else i) for n, i in builtins.zip(ns, its)]
    m = ds[0]
    for d in ds[1:]:
        if not isame(m, d) and not holds(icmp("le", m, d)):
            m = d
    if any(n is None for n in ns):
        raise Unsupported("zip of symbolic and concrete sequences")
    return SymSeq(m, lambda k: tuple(seq_get(i, k) for i in its))


def list_(x=()):
    if isinstance(x, (SymSeq,)):
        return x
    n = sym_len(x)
    if n is not None:
        return SymSeq(n, lambda k: seq_get(x, k))
    return builtins.list(x)


class list_t(metaclass=_TypeMeta):
    __vc_real__ = builtins.list

    def __new__(cls, *a):
        return list_(*a)

    def __class_getitem__(cls, i):
        return builtins.list[i]


# ----------------------------------------------------------------------------- scipy
def line_filter(kind, a, sigma, axis, what):
    """assumed contract of a linear filter: along `axis`, every output pixel is a weighted sum of the pixels of its line, with
    weights w(p, q) that depend on the filter, its width, the line's length and the two positions p, q only"""
    eng = engine()
    eng.note(what)
    a = asarray(a)
    if axis < 0:
        axis += a.ndim
    if not 0 <= axis < a.ndim:
        raise ValueError("invalid axis")
    n, old = a.shp[axis], a.frozen()
    w = filter_weights(kind, sigma, n)

    def fn(idx):
        return arr.sum_term([n], lambda r: num_op("mul", SNum(w(idx[axis], r[0]), F8),
                                                  cast_val(old(tuple(idx[:axis]) + (r[0],) + tuple(idx[axis + 1:])), F8)), F8)
    return SArr.make(F8, a.shp, fn)


def filter_weights(kind, sigma, n):
    """w(p, q) of a filter; the same function for provably equal widths and lengths"""
    eng = engine()
    s = zr(lift_num(sigma).e)
    known = eng.filters.setdefault(kind, [])
    for k, (s2, n2) in enumerate(known):
        if isame(n, n2) and (s.eq(s2) or eng.prove(s == s2) == "proved"):
            break
    else:
        k = len(known)
        known.append((s, n))
    f = z3.Function(f"weight:{kind}:{k}", z3.IntSort(), z3.IntSort(), z3.RealSort())
    return lambda p, q: f(iz(p), iz(q))


def gaussian_filter1d(a, sigma, axis=-1, order=0, output=None, mode="reflect", cval=0.0, truncate=4.0, *, radius=None):
    if order != 0 or output is not None or mode != "reflect" or truncate != 4.0 or radius is not None:
        raise Unsupported("gaussian_filter1d with non-default options")
    return line_filter("gauss", a, sigma, axis, "assumed contract: scipy.ndimage.gaussian_filter1d is a weighted sum along one axis "
                       "with the Gaussian weights of the given width (weights uninterpreted)")


def convolve1d(input, weights, axis=-1, output=None, mode="reflect", cval=0.0, origin=0):
    if output is not None or origin != 0:
        raise Unsupported("convolve1d with output or origin")
    eng = engine()
    eng.note("assumed contract: scipy.ndimage.convolve1d is the correlation of each line with the reversed weights (the arguments are "
             "verified, the result is an arbitrary array of the input's shape)")
    a = asarray(input)
    r = eng.ctx.array("convolved", tuple(a.shape))
    eng.ctx.ghost.setdefault("convolutions", []).append((a, asarray(weights), axis, mode, cval, r))
    return r


def powerlaw_psd_gaussian(exponent, size, fmin=0, random_state=None):
    engine().note("assumed contract: colorednoise.powerlaw_psd_gaussian returns an array of the given size which depends on its "
                  "arguments and the random generator only (values arbitrary)")
    if not isinstance(random_state, SymRng):
        raise Unsupported("pink noise without a given generator")
    return random_state._draw("pink", size, F8, lambda e: z3.BoolVal(True), (exponent, fmin))


_SHIMS = {}


def shims():
    if not _SHIMS:
        _SHIMS["numpy"] = mk_numpy()
        _SHIMS["math"] = mk_math()
        nd = Shim("scipy.ndimage", None, dict(gaussian_filter1d=gaussian_filter1d, convolve1d=convolve1d))
        sp = Shim("scipy", None, dict(ndimage=nd))
        _SHIMS["scipy"], _SHIMS["scipy.ndimage"] = sp, nd
        _SHIMS["colorednoise"] = Shim("colorednoise", None, dict(powerlaw_psd_gaussian=powerlaw_psd_gaussian))
        for m in ("diplib", "bezier", "sympy"):
            _SHIMS[m] = Shim(m, None)
        plt = Shim("matplotlib.pyplot", None)
        _SHIMS["matplotlib"] = Shim("matplotlib", None, dict(pyplot=plt))
        _SHIMS["matplotlib.pyplot"] = plt
    return _SHIMS


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    s = shims()
    if level == 0 and name in s:
        if fromlist or "." not in name:
            return s[name]
        return s[name.split(".")[0]]
    return builtins.__import__(name, globals, locals, fromlist, level)


def mk_builtins():
    b = dict(builtins.__dict__)
    b.update(__import__=sym_import, isinstance=sym_isinstance, type=type_, float=float_, int=int_, len=len_, range=range_,
             min=_minmax("min"), max=_minmax("max"), sum=sum_, round=round_, enumerate=enumerate_,
             zip=zip_, list=list_t, __vc_comp__=comp, __vc_for__=loops.ForLoop, __vc_while__=loops.WhileLoop)
    return b
