"""Verification-condition engine, core: symbolic scalars, path exploration, facts.

The functions under contract are executed by CPython itself on symbolic scalars and arrays
(see xform.py for how the source gets here).  This file defines
  * SNum / SBool: symbolic numbers (mathematical integers / reals) and truth values,
  * Engine: path condition, forking by re-execution with a decision prefix, nested exploration
    with merging (used for loop bodies and comprehension elements), fresh symbols that depend
    on the enclosing loop keys, universally quantified facts instantiated by trigger.
"""
import math
import numbers
import os
import sys
import time
from fractions import Fraction

import z3

from . import field, solve


class Unsupported(BaseException):
    """The construct is outside the verifier's reach: the scenario becomes a bounded stand-in."""


class PathDone(BaseException):
    """The current path is infeasible or was cut (assume(False))."""


class Budget(BaseException):
    pass


# ----------------------------------------------------------------------------- helpers on z3
def is_z3(e):
    return isinstance(e, z3.ExprRef)


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def zr(x):
    """z3 Real from number / z3 expr"""
    if isinstance(x, z3.ArithRef):
        if x.is_real():
            return x
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def zi(x):
    if isinstance(x, z3.ArithRef):
        if x.is_int():
            return x
        raise Unsupported("real used as an integer")
    return z3.IntVal(int(x))


def num_value(e):
    """Fraction of a numeral, else None"""
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def b_and(*xs):
    ys = []
    for x in xs:
        if x is None or x is True or z3.is_true(x):
            continue
        if x is False or z3.is_false(x):
            return FALSE
        ys.append(x)
    if not ys:
        return TRUE
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def b_or(*xs):
    ys = []
    for x in xs:
        if x is None or x is False or z3.is_false(x):
            continue
        if x is True or z3.is_true(x):
            return TRUE
        ys.append(x)
    if not ys:
        return FALSE
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def b_not(x):
    if x is None or x is False or z3.is_false(x):
        return TRUE
    if x is True or z3.is_true(x):
        return FALSE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def b_if(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or (is_z3(a) and is_z3(b) and a.eq(b)):
        return a
    return z3.If(c, a, b)


def o_or(a, b):
    """or of optional Bools (None = False)"""
    if a is None:
        return b
    if b is None:
        return a
    r = b_or(a, b)
    return None if z3.is_false(r) else r


def o_gate(c, a):
    """c and a for optional a"""
    if a is None:
        return None
    r = b_and(c, a)
    return None if z3.is_false(r) else r


# ----------------------------------------------------------------------------- scalars
PY_INT, PY_FLOAT, I8, F8, U1 = "pi", "pf", "i8", "f8", "u1"
_INTS = (PY_INT, I8, U1)


def is_int_dt(dt):
    return dt in _INTS


def promote(a, b, op=None):
    if a == b:
        return a
    s = {a, b}
    if F8 in s:
        return F8
    if PY_FLOAT in s:
        return PY_FLOAT if s <= {PY_INT, PY_FLOAT} else F8
    if I8 in s:
        return I8
    if U1 in s:
        return U1      # NEP 50: a Python int is weak
    return PY_INT


def np_dt(dt):
    return {PY_INT: I8, PY_FLOAT: F8}.get(dt, dt)


def wrap_u1(e):
    v = num_value(e)
    if v is not None:
        return z3.IntVal(int(v) % 256)
    return e % 256


class SVal:
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1000


class SNum(SVal):
    __slots__ = ("e", "dt", "undef", "nan")

    def __init__(self, e, dt, undef=None, nan=None):
        self.e, self.dt, self.undef, self.nan = e, dt, undef, nan

    # ---- identity
    def __repr__(self):
        return f"<{self.dt}:{str(self.e)[:80]}>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __hash__(self):
        return hash(self.e)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def is_int(self):
        return self.dt in _INTS

    @property
    def real(self):
        return zr(self.e)

    # numpy-scalar-like attributes
    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def item(self):
        return SNum(self.e, PY_INT if self.is_int else PY_FLOAT, self.undef, self.nan)

    def astype(self, dt, copy=True):
        from .arr import dt_of, cast_val
        return cast_val(self, dt_of(dt))

    def copy(self):
        return self

    def is_integer(self):
        if self.is_int:
            return True
        return SBool(z3.IsInt(self.e))

    def _bin(self, o, op):
        from .arr import SArr
        if isinstance(o, SArr):
            return NotImplemented
        o2 = lift_num(o)
        if o2 is None:
            return NotImplemented
        return num_op(op, self, o2)

    def _rbin(self, o, op):
        o2 = lift_num(o)
        if o2 is None:
            return NotImplemented
        return num_op(op, o2, self)

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._rbin(o, "add")
    def __sub__(self, o): return self._bin(o, "sub")
    def __rsub__(self, o): return self._rbin(o, "sub")
    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            from .arr import repeat_seq
            return repeat_seq(o, self)
        return self._bin(o, "mul")
    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from .arr import repeat_seq
            return repeat_seq(o, self)
        return self._rbin(o, "mul")
    def __truediv__(self, o): return self._bin(o, "div")
    def __rtruediv__(self, o): return self._rbin(o, "div")
    def __floordiv__(self, o): return self._bin(o, "floordiv")
    def __rfloordiv__(self, o): return self._rbin(o, "floordiv")
    def __mod__(self, o): return self._bin(o, "mod")
    def __rmod__(self, o): return self._rbin(o, "mod")
    def __pow__(self, o): return self._bin(o, "pow")
    def __rpow__(self, o): return self._rbin(o, "pow")
    def __divmod__(self, o): return self // o, self % o

    def __and__(self, o): return bit_and(self, o)
    __rand__ = __and__

    def __neg__(self):
        return num_op("sub", SNum(z3.IntVal(0) if self.is_int else z3.RealVal(0), self.dt), self)

    def __pos__(self):
        return self

    def __abs__(self):
        zero = 0
        return SNum(b_if(self.e >= zero, self.e, -self.e), self.dt, self.undef, self.nan)

    def _cmp(self, o, op):
        from .arr import SArr
        if isinstance(o, SArr):
            return NotImplemented
        o2 = lift_num(o)
        if o2 is None:
            return NotImplemented
        return num_cmp(op, self, o2)

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(num_cmp("ne", self, SNum(z3.IntVal(0), PY_INT)))

    def __index__(self):
        v = num_value(z3.simplify(self.e))
        if v is not None and self.is_int:
            return int(v)
        v = engine().concretize(self)
        if v is not None:
            return v
        raise Unsupported("symbolic integer used where CPython needs a concrete one")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        v = num_value(z3.simplify(self.e))
        if v is not None:
            return float(v)
        raise Unsupported("symbolic number used where CPython needs a concrete float")

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported("round with digits")
        return py_round(self)

    def __iter__(self):
        raise TypeError("'float' object is not iterable")

    def __len__(self):
        raise TypeError("object of type 'float' has no len()")

    def __getitem__(self, i):
        if i == ():
            return self
        raise TypeError("'float' object is not subscriptable")

    # numpy scalar methods
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def any(self): return self != 0
    def all(self): return self != 0


numbers.Real.register(SNum)


class SBool(SVal):
    __slots__ = ("e", "np_")

    def __init__(self, e, np_=False):
        self.e, self.np_ = e, np_

    def __repr__(self):
        return f"<bool:{str(self.e)[:80]}>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __hash__(self):
        return hash(self.e)

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return engine().branch(self.e)

    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    @property
    def size(self): return 1

    def item(self):
        return SBool(self.e)

    def _b(self, o):
        if isinstance(o, SBool):
            return o.e
        if isinstance(o, bool) or type(o).__name__ == "bool_":
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = self._b(o)
        if b is None:
            from .arr import SArr
            if isinstance(o, SArr):
                return NotImplemented
            return bit_and(o, self)
        return SBool(b_and(self.e, b), self.np_)
    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return SBool(b_or(self.e, b), self.np_)
    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return SBool(z3.Xor(self.e, b), self.np_)

    def __invert__(self):
        if not self.np_:
            raise Unsupported("~ on a Python bool")
        return SBool(b_not(self.e), True)

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            n = lift_num(o)
            if n is None:
                return False
            return num_cmp("eq", bool_num(self), n)
        return SBool(self.e == b, self.np_)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(b_not(r.e), self.np_)

    def _n(self):
        return bool_num(self)

    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __lt__(self, o): return self._n() < o
    def __gt__(self, o): return self._n() > o
    def __le__(self, o): return self._n() <= o
    def __ge__(self, o): return self._n() >= o

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def astype(self, dt, copy=True):
        from .arr import dt_of, cast_val
        return cast_val(self, dt_of(dt))

    def any(self): return self
    def all(self): return self


def bool_num(b):
    return SNum(b_if(b.e, z3.IntVal(1), z3.IntVal(0)), I8 if b.np_ else PY_INT)


def mk_bool(e, np_=False):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e, np_)


def lift_num(x):
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return bool_num(x)
    if isinstance(x, bool):
        return SNum(z3.IntVal(int(x)), PY_INT)
    if isinstance(x, int):
        return SNum(z3.IntVal(x), PY_INT)
    if isinstance(x, float):   # includes np.float64
        dt = PY_FLOAT if type(x) is float else F8
        if x != x:
            return SNum(z3.RealVal(0), dt, None, TRUE)
        if x in (math.inf, -math.inf):
            return SInf(x)
        return SNum(zr(x), dt)
    if isinstance(x, Fraction):
        return SNum(zr(x), PY_FLOAT)
    tn = type(x)
    if tn.__module__ == "numpy":
        import numpy as np
        if isinstance(x, np.bool_):
            return SNum(z3.IntVal(int(x)), I8)
        if isinstance(x, np.uint8):
            return SNum(z3.IntVal(int(x)), U1)
        if isinstance(x, np.integer):
            return SNum(z3.IntVal(int(x)), I8)
        if isinstance(x, np.floating):
            return lift_num(float(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return lift_num(x[()])
    return None


class SInf(SNum):
    """A literal +-inf.  Only comparisons are supported."""
    __slots__ = ("sign",)

    def __init__(self, v):
        super().__init__(z3.RealVal(0), PY_FLOAT)
        self.sign = 1 if v > 0 else -1


def num_op(op, a, b):
    if isinstance(a, SInf) or isinstance(b, SInf):
        if op in ("add", "sub", "mul") and not (isinstance(a, SInf) and isinstance(b, SInf)):
            if op == "add":
                return a if isinstance(a, SInf) else b
            if op == "sub":
                return a if isinstance(a, SInf) else SInf(-b.sign)
        raise Unsupported("arithmetic on infinity")
    dt = promote(a.dt, b.dt)
    if op == "div":
        dt = PY_FLOAT if dt in (PY_INT, PY_FLOAT) else F8
    undef, nan = o_or(a.undef, b.undef), o_or(a.nan, b.nan)
    isint = dt in _INTS
    if isint:
        x, y = a.e, b.e
    else:
        x, y = zr(a.e), zr(b.e)
    vx, vy = num_value(x), num_value(y)
    if op == "add":
        e = y if vx == 0 else x if vy == 0 else x + y
    elif op == "sub":
        e = x if vy == 0 else (x - y if vx != 0 else -y)
    elif op == "mul":
        if vx == 0 or vy == 0:
            e = z3.IntVal(0) if isint else z3.RealVal(0)
            # 0 * undefined is still undefined; flags are kept
        elif vx == 1:
            e = y
        elif vy == 1:
            e = x
        else:
            e = x * y
    elif op == "div":
        if vy is not None and vy != 0:
            e = x if vy == 1 else x / y
        else:
            if dt == PY_FLOAT and a.dt in (PY_INT, PY_FLOAT) and b.dt in (PY_INT, PY_FLOAT):
                if engine().branch(y == 0):
                    raise ZeroDivisionError("division by zero")
            else:
                if not engine().nonzero(y):
                    undef = o_or(undef, y == 0)
            if vx == 0:
                e = z3.RealVal(0)
            else:
                e = x / y
    elif op in ("floordiv", "mod"):
        if vy is None or vy == 0:
            if dt in (PY_INT, PY_FLOAT):
                if engine().branch(y == 0):
                    raise ZeroDivisionError("division by zero")
            else:
                undef = o_or(undef, y == 0)
        if isint:
            if vy is not None and vy > 0 or engine().known(y > 0):
                q = x / y
                r = x % y
            else:
                q = z3.If(y > 0, x / y, (-x) / (-y))
                r = x - y * q
        else:
            q = z3.ToReal(z3.ToInt(x / y))
            r = x - y * q
        e = q if op == "floordiv" else r
    elif op == "pow":
        return pow_op(a, b, dt, undef, nan)
    else:
        raise AssertionError(op)
    if vx is not None and vy is not None and op != "div" or (op == "div" and vx is not None and vy not in (None, 0)):
        e = z3.simplify(e)
    if dt == U1:
        if op in ("add", "sub", "mul"):
            for o in (a, b):
                v = num_value(o.e)
                if o.dt == PY_INT:
                    if v is None:
                        raise Unsupported("symbolic Python int with uint8")
                    if not 0 <= v <= 255:
                        raise OverflowError(f"Python integer {v} out of bounds for uint8")
            e = wrap_u1(e)
    return SNum(e, dt, undef, nan)


def pow_op(a, b, dt, undef, nan):
    n = num_value(b.e)
    if n is not None and n.denominator == 1 and abs(n) <= 8:
        n = int(n)
        if n == 0:
            return SNum(z3.IntVal(1) if dt in _INTS else z3.RealVal(1), dt, undef, nan)
        r = a
        for _ in range(abs(n) - 1):
            r = num_op("mul", r, a)
        if n < 0:
            r = num_op("div", lift_num(1), r)
        return SNum(r.e if dt in _INTS else zr(r.e), dt, r.undef, r.nan)
    from . import fun
    if n is not None and n == Fraction(1, 2):
        r = fun.sqrt_(a)
        return SNum(r.e, dt, r.undef, r.nan)
    if dt in _INTS:
        raise Unsupported("integer power with symbolic exponent")
    r = fun.pow_(a, b)
    return SNum(r.e, dt, r.undef, r.nan)


def num_cmp(op, a, b):
    np_ = not (a.dt in (PY_INT, PY_FLOAT) and b.dt in (PY_INT, PY_FLOAT))
    if isinstance(a, SInf) or isinstance(b, SInf):
        if isinstance(a, SInf) and isinstance(b, SInf):
            x, y = a.sign, b.sign
        elif isinstance(a, SInf):
            x, y = a.sign, 0
        else:
            x, y = 0, b.sign
        r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
        c = z3.BoolVal(r)
        fin = a if isinstance(b, SInf) else b
        if fin.nan is not None or fin.undef is not None:
            raise Unsupported("comparison of a possibly undefined value with infinity")
        return mk_bool(c, np_)
    if a.dt in _INTS and b.dt in _INTS:
        x, y = a.e, b.e
    else:
        x, y = zr(a.e), zr(b.e)
    if x.eq(y):
        c = {"lt": FALSE, "le": TRUE, "gt": FALSE, "ge": TRUE, "eq": TRUE, "ne": FALSE}[op]
    else:
        vx, vy = num_value(x), num_value(y)
        if vx is not None and vy is not None:
            c = z3.BoolVal({"lt": vx < vy, "le": vx <= vy, "gt": vx > vy, "ge": vx >= vy,
                            "eq": vx == vy, "ne": vx != vy}[op])
        else:
            c = {"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y,
                 "ge": lambda: x >= y, "eq": lambda: x == y, "ne": lambda: x != y}[op]()
    nan = o_or(a.nan, b.nan)
    if nan is not None:
        c = b_or(nan, c) if op == "ne" else b_and(b_not(nan), c)
    undef = o_or(a.undef, b.undef)
    if undef is not None:
        # the value is inf or nan: the outcome of the comparison is left open
        f = engine().fresh_bool_for(("cmp", op, x, y))
        c = b_if(undef, f, c)
    return mk_bool(c, np_)


def bit_and(a, b):
    """& of bools / ints: supported where one side is a truth value (numpy: True & 2 == 0)"""
    def is_b(v):
        return isinstance(v, (bool, SBool)) or type(v).__name__ in ("bool_", "bool")
    if is_b(a) and is_b(b):
        a = a if isinstance(a, SBool) else SBool(z3.BoolVal(bool(a)), True)
        b = b if isinstance(b, SBool) else SBool(z3.BoolVal(bool(b)), True)
        return SBool(b_and(a.e, b.e), True)
    if is_b(b):
        a, b = b, a
    if is_b(a):
        ae = a.e if isinstance(a, SBool) else z3.BoolVal(bool(a))
        n = lift_num(b)
        if n is None or not n.is_int:
            raise TypeError("ufunc 'bitwise_and' not supported for the input types")
        return SNum(b_if(ae, n.e % 2, z3.IntVal(0)), np_dt(n.dt))
    raise Unsupported("bitwise and of integers")


def py_round(x):
    """round half to even, Python int result"""
    if x.is_int:
        return SNum(x.e, PY_INT, x.undef, x.nan)
    fl = z3.ToInt(x.e)
    d = x.e - z3.ToReal(fl)
    half = z3.RealVal("1/2")
    e = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    return SNum(e, PY_INT, x.undef, x.nan)


def py_trunc(x):
    if x.is_int:
        return SNum(x.e, PY_INT, x.undef, x.nan)
    r = z3.simplify(x.e)
    if z3.is_to_real(r):
        return SNum(r.arg(0), PY_INT, x.undef, x.nan)
    e = z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))
    return SNum(e, PY_INT, x.undef, x.nan)


# ----------------------------------------------------------------------------- deep substitution
def subst(v, pairs, memo=None):
    """Substitute z3 constants in a structured value."""
    from .arr import SArr, SymSeq
    if isinstance(v, SInf):
        return v
    if isinstance(v, SNum):
        return SNum(z3.substitute(v.e, *pairs), v.dt,
                    None if v.undef is None else z3.substitute(v.undef, *pairs),
                    None if v.nan is None else z3.substitute(v.nan, *pairs))
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.e, *pairs), v.np_)
    if isinstance(v, SArr):
        return v.substituted(pairs)
    if isinstance(v, SymSeq):
        return v.substituted(pairs)
    if type(v) is tuple:
        return tuple(subst(x, pairs) for x in v)
    if type(v) is list:
        return [subst(x, pairs) for x in v]
    if is_z3(v):
        return z3.substitute(v, *pairs)
    return v


def occurs(v, consts):
    """Do any of the z3 constants occur in the structured value?"""
    from .arr import SArr, SymSeq
    if isinstance(v, SNum):
        return any(solve.contains(x, consts) for x in (v.e, v.undef, v.nan) if x is not None)
    if isinstance(v, SBool):
        return solve.contains(v.e, consts)
    if isinstance(v, (tuple, list)):
        return any(occurs(x, consts) for x in v)
    if is_z3(v):
        return solve.contains(v, consts)
    if isinstance(v, (SArr, SymSeq)):
        return True   # conservative
    return False


# ----------------------------------------------------------------------------- engine
class Fact:
    """forall keys. body -- instantiated when an application of one of the trigger symbols occurs
    (pattern = arguments of the trigger application) or, without trigger, at all index terms."""
    __slots__ = ("keys", "body", "trigger")

    def __init__(self, keys, body, trigger=None):
        self.keys, self.body, self.trigger = tuple(keys), body, trigger


class Obligation:
    __slots__ = ("name", "path", "status", "backend", "time", "model", "tainted", "goal", "detail")

    def __init__(self, name, path):
        self.name, self.path = name, path
        self.status = self.backend = self.model = self.detail = None
        self.time = 0.0
        self.tainted = ()
        self.goal = None


_ENGINE = None


def engine():
    if _ENGINE is None:
        raise Unsupported("symbolic value used outside a verification run")
    return _ENGINE


def set_engine(e):
    global _ENGINE
    _ENGINE = e


class Engine:
    def __init__(self, name, deadline=None, max_paths=400, solver_ms=4000, verbose=False):
        self.name = name
        self.deadline = deadline
        self.max_paths = max_paths
        self.solver_ms = solver_ms
        self.verbose = verbose
        self.paths = []
        self.obligations = []
        self.unsupported = []      # reasons
        self.n_paths = 0
        self.assumption_notes = set()
        self.stats = solve.Stats()
        self.dropped = {}
        self.contracts_used = set()
        self.goal_ms = None
        self._memo_prove = {}
        self._alive = {}
        self.loops_used = set()
        self.models = []
        self._conj = {}
        self.ctx = None

    # -------------------------------------------------- exploration
    def explore(self, fn):
        """Run fn() on every feasible path."""
        work = [[]]
        while work:
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append("time budget of the proof attempt used up")
                break
            if self.n_paths >= self.max_paths:
                self.unsupported.append(f"more than {self.max_paths} paths")
                break
            prefix = work.pop()
            self.n_paths += 1
            self._begin(prefix, work)
            try:
                fn()
            except PathDone:
                pass
            except Unsupported as ex:
                self.unsupported.append(str(ex) or "unsupported construct")
                if self.verbose:
                    import traceback
                    traceback.print_exc()
            except RecursionError:
                self.unsupported.append("recursion limit")
            except Budget:
                self.unsupported.append("time budget of the proof attempt used up")
                break
            except Exception as ex:      # an unexpected error inside the engine or the spec
                import traceback
                if self.verbose:
                    traceback.print_exc()
                tb = traceback.extract_tb(ex.__traceback__)
                last = tb[-1] if tb else None
                self.unsupported.append(f"{type(ex).__name__}: {ex} at {last.filename.split('/')[-1]}:{last.lineno}" if last else repr(ex))
        return self

    def _begin(self, prefix, work):
        self.prefix, self.pos, self.work = list(prefix), 0, work
        self.decisions = []
        self.pc = []
        self.facts = []
        self.counter = 0
        self.keystack = []
        self.keyguards = []
        self.journal = []
        self.taint = []
        self.path_obls = 0
        self.index_terms = []
        self.nest = 0
        self.allocs = []
        self._conc = {}
        self.names = {}
        self.writes = []
        self.rngs = []
        self.filters = {}
        self.sums = {}

    # -------------------------------------------------- fresh symbols
    def _fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def _apply(self, name, sort):
        if self.keystack:
            f = z3.Function(name, *[k.sort() for k in self.keystack], sort)
            return f(*self.keystack)
        return z3.Const(name, sort)

    def fresh(self, base, sort, exact=None):
        return self._apply(exact or self._fresh_name(base), sort)

    def fresh_fun(self, base, argsorts, sort, exact=None):
        """A function of argsorts, implicitly also of the enclosing loop keys."""
        name = exact or self._fresh_name(base)
        ks = list(self.keystack)
        f = z3.Function(name, *[k.sort() for k in ks], *argsorts, sort)
        return (lambda *a: f(*ks, *a)), f

    def fresh_bool_for(self, key):
        """an unspecified truth value determined by the given terms"""
        name = "open:" + ":".join(str(x) for x in key if not is_z3(x))
        args = [x for x in key if is_z3(x)]
        return z3.Function(name, *[x.sort() for x in args], z3.BoolSort())(*args) if args else z3.Const(name, z3.BoolSort())

    def key(self, base="k"):
        return z3.Const(self._fresh_name(base), z3.IntSort())

    # -------------------------------------------------- assumptions and facts
    def assume(self, c, note=None):
        if isinstance(c, SBool):
            c = c.e
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_false(z3.simplify(c)):
            raise PathDone()
        if self.keystack or self.keyguards:
            self.add_fact([], c)
        else:
            self.pc.append(c)

    def fork(self, n):
        """one of 0..n-1, all explored"""
        for v in range(n - 1):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
            else:
                self.work.append(self.decisions + [False])
                d = True
                self.prefix.append(d)
            self.pos += 1
            self.decisions.append(d)
            if d:
                return v
        return n - 1

    def add_fact(self, keys, body, trigger=None):
        """forall keys: body; enclosing loop keys are quantified as well."""
        ks = tuple(self.keystack) + tuple(keys)
        if self.keyguards:
            body = z3.Implies(b_and(*self.keyguards), body)
        if not ks:
            self.pc.append(body)
            return
        self.facts.append(Fact(ks, body, trigger))

    def note(self, text):
        self.assumption_notes.add(text)

    def add_taint(self, text):
        if text not in self.taint:
            self.taint.append(text)

    def use_index(self, t):
        if is_z3(t) and not z3.is_int_value(t):
            self.index_terms.append(t)

    # -------------------------------------------------- solving
    def known(self, c, ms=300):
        """Quick proof attempt under the current path condition (False = don't know)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.literally(c):
            return True
        return self.decided(c, (False, True))[1] is False

    def nonzero(self, y):
        """is y != 0 one of the assumptions of the path, or easily seen?  (False: don't know)"""
        memo = self.__dict__.setdefault("_nonzero", {})
        if memo.get("path") != self.n_paths:
            memo.clear()
            memo.update(path=self.n_paths, polys=[], upto=0, field=field.Field())
        fl = memo["field"]
        if memo["upto"] > len(self.pc) or memo["upto"] and self.pc[memo["upto"] - 1] is not memo["last"]:
            memo["polys"], memo["upto"] = [], 0
        for f in self.pc[memo["upto"]:]:
            for g in solve.conjuncts(z3.simplify(f)):
                if z3.is_not(g) and z3.is_eq(g.arg(0)) and z3.is_arith(g.arg(0).arg(0)):
                    try:
                        n1, d1, _ = fl.norm(g.arg(0).arg(0) - g.arg(0).arg(1))
                    except field.TooBig:
                        continue
                    if d1 == field.ONE:
                        memo["polys"].append(field.scaled(n1))
        memo["upto"], memo["last"] = len(self.pc), self.pc[-1] if self.pc else None
        key = (y.get_id(), len(self.pc), tuple(x.get_id() for x in self.keyguards))
        if key not in memo:
            r = False
            if memo["polys"]:
                try:
                    n, d, _ = fl.norm(z3.simplify(y))
                    r = d == field.ONE and field.scaled(n) in memo["polys"]
                except field.TooBig:
                    pass
            if not r and solve.dag_size(y, 10) < 10:
                r = self.known(y != 0)
            memo[key] = (r, y)
        return memo[key][0]

    def prove(self, goal, ms=None, quick=False, want_model=False):
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        key = self._state(goal, quick)
        if key in self._memo_prove:
            r = self._memo_prove[key]
            if r == "proved" or not want_model:
                return (r, None, "same as before") if want_model else r
        r = solve.prove(self.pc + list(self.keyguards), self.facts, goal, self.stats,
                        ms=ms or self.solver_ms, quick=quick, want_model=want_model,
                        index_terms=self.index_terms)
        self._memo_prove[key] = r[0] if want_model else r
        return r

    def _state(self, goal, kind):
        """the question goal, with everything assumed: paths share their beginnings, and the terms are kept, so their ids last"""
        al = self._alive
        ids = []
        for x in [goal] + self.pc + self.keyguards + self.index_terms + [f.body for f in self.facts]:
            if is_z3(x):
                k = x.get_id()
                al[k] = x
            else:
                k = ("n", x)
            ids.append(k)
        return (kind, len(self.pc), len(self.keyguards), len(self.facts), tuple(ids))

    def decided(self, c, want):
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        key = self._state(c, want)
        r = self._memo_prove.get(key)
        if r is None:
            try:
                r = solve.decide(self.pc + list(self.keyguards), self.facts, c, self.stats, self.index_terms, self.models, want=want), c
            except z3.Z3Exception:
                r = (True, True), c
            self._memo_prove[key] = r
        return r[0]

    def feasible(self):
        return self.decided(z3.BoolVal(True), (True, False))[0] is not False

    def literally(self, c):
        """every conjunct of c is one of the assumptions"""
        have = set()
        for f in self.pc + list(self.keyguards):
            key = f.get_id()
            g = self._conj.get(key)
            if g is None:
                h = z3.simplify(f)
                hs = h.children() if z3.is_and(h) else [h]
                g = self._conj[key] = (f, hs, {x.get_id() for x in hs})
            have |= g[2]
        cs = c.children() if z3.is_and(c) else [c]
        return all(x.get_id() in have for x in cs)

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self._take(cond, d)
            return d
        # decide
        if self.literally(c):
            can_t, can_f = True, False
        else:
            can_t, can_f = self.decided(c, (True, True))
        if not can_t and not can_f:
            raise PathDone()
        if can_t and can_f:
            self.work.append(self.decisions + [False])
            d = True
        else:
            d = can_t
        self.pos += 1
        self.prefix.append(d)
        self.decisions.append(d)
        self._take(cond, d)
        return d

    def _take(self, cond, d):
        c = cond if d else b_not(cond)
        if self.nest:
            self.keyguards.append(c)
        else:
            self.pc.append(c)

    def concretize(self, x):
        """Is the integer determined by the path condition (small range)?  Fork over values 0..N if bounded."""
        if not x.is_int:
            return None
        e = z3.simplify(x.e)
        for v in range(0, 12):
            if self.known(z3.And(e >= 0, e <= v), ms=200):
                for w in range(0, v):
                    if self.branch(e == w):
                        return w
                return v
        return None

    # -------------------------------------------------- nested exploration
    def nested(self, fn, keys, guard=None, keep_effects=None):
        """Explore fn() for arbitrary values of the given key constants (guard: their range).
        Returns a list of (cond, result) over the sub-paths; cond excludes guard.
        Heap effects are undone after each sub-path; keep_effects(result) is called before undoing."""
        saved_prefix, saved_pos, saved_dec, saved_work = self.prefix, self.pos, self.decisions, self.work
        base_guards = len(self.keyguards)
        self.keystack = self.keystack + list(keys)
        if guard is not None:
            self.keyguards = self.keyguards + [guard]
        gl = len(self.keyguards)
        out = []
        work = [[]]
        self.nest += 1
        n = 0
        cnt0 = self.counter
        cmax = cnt0
        try:
            while work:
                n += 1
                if n > 200:
                    raise Unsupported("more than 200 sub-paths in a loop body")
                self.counter = cmax     # fresh names are never shared between sub-paths
                pfx = work.pop()
                self.prefix, self.pos, self.work, self.decisions = pfx, 0, work, []
                jl = len(self.journal)
                try:
                    r = fn()
                    cond = b_and(*self.keyguards[gl:])
                    if keep_effects is not None:
                        r = keep_effects(r, jl)
                    out.append((cond, r))
                except PathDone:
                    pass
                except (IndexError, ValueError, ZeroDivisionError):
                    c = b_and(*self.keyguards[base_guards:])
                    if solve.decide(self.pc + self.keyguards[:base_guards], self.facts, c, self.stats, self.index_terms, [],
                                    want=(True, False))[0]:
                        raise       # (a contradictory sub-path does not count)
                finally:
                    self._undo(jl)
                    del self.keyguards[gl:]
                    cmax = max(cmax, self.counter)
        finally:
            self.nest -= 1
            self.counter = cmax
            self.prefix, self.pos, self.decisions, self.work = saved_prefix, saved_pos, saved_dec, saved_work
            self.keystack = self.keystack[:len(self.keystack) - len(keys)] if keys else self.keystack
            del self.keyguards[base_guards:]
        return out

    def _undo(self, jl):
        while len(self.journal) > jl:
            undo = self.journal.pop()
            undo()

    def merged(self, fn, keys, guard=None):
        """Value of fn() at arbitrary keys, sub-paths merged with If."""
        outs = self.nested(fn, keys, guard)
        if not outs:
            raise Unsupported("empty nested exploration")
        return merge_values(outs)


def merge_values(outs):
    r = outs[-1][1]
    for c, v in reversed(outs[:-1]):
        r = v_if(c, v, r)
    return r


def v_if(c, a, b):
    """If on structured values"""
    from .arr import SArr, where_arr
    if a is b:
        return a
    if isinstance(a, (SNum, int, float, bool, SBool)) or (type(a).__module__ == "numpy" and getattr(a, "shape", 1) == ()):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) or \
                (type(a).__name__ == "bool_" or type(b).__name__ == "bool_"):
            ae = a.e if isinstance(a, SBool) else z3.BoolVal(bool(a))
            be = b.e if isinstance(b, SBool) else z3.BoolVal(bool(b))
            return SBool(b_if(c, ae, be), getattr(a, "np_", False) or getattr(b, "np_", False))
        x, y = lift_num(a), lift_num(b)
        if x is not None and y is not None:
            if isinstance(x, SInf) or isinstance(y, SInf):
                raise Unsupported("merge of infinities")
            dt = promote(x.dt, y.dt)
            if dt in _INTS:
                e = b_if(c, x.e, y.e)
            else:
                e = b_if(c, zr(x.e), zr(y.e))
            return SNum(e, dt, o_or(o_gate(c, x.undef), o_gate(b_not(c), y.undef)),
                        o_or(o_gate(c, x.nan), o_gate(b_not(c), y.nan)))
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(v_if(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SArr) and isinstance(b, SArr):
        return where_arr(c, a, b)
    if a is None and b is None:
        return None
    if isinstance(a, str) and a == b:
        return a
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")
