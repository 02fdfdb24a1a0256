"""The deciding reading of a scenario: inputs are symbolic, every ensure is an obligation."""
import importlib
import math
from fractions import Fraction

import numpy as np
import z3

from . import arr, core, fun, shim, solve
from .arr import SArr, SymSeq, asarray, lift, cast_val, ix, iz, pdim, icmp, holds
from .core import (SNum, SBool, SInf, Unsupported, PathDone, engine, lift_num, num_op, num_cmp, b_and, b_or, b_not, zr, v_if,
                   PY_INT, PY_FLOAT, I8, F8, Obligation)
from .ctx import BaseCtx, NumCtx, Outcome


def size_condition(e):
    """a comparison of sizes (integer constants) only"""
    return all(t.num_args() or z3.is_int_value(t) or z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
               for t in solve.subterms([e])) and all(t.num_args() == 0 or t.decl().kind() != z3.Z3_OP_UNINTERPRETED for t in solve.subterms([e]))


class SymCtx(BaseCtx):
    sym = True
    pi = shim.PI_F

    def __init__(self, eng, sizes=None, prover=None):
        self.eng = eng
        eng.ctx = self
        self.ghost, self.patched = {}, []
        self.sizes = sizes          # None: symbolic sizes; else the largest concrete size explored
        self.prover = prover
        self.inputs = {}
        self._seq = {}
        self.np = shim.shims()["numpy"]

    # ---- access
    def mod(self, name):
        return importlib.import_module(name)

    get, helper = NumCtx.get, NumCtx.helper

    def out_of_reach(self, why):
        raise Unsupported(why)

    def stub(self, *a, **k):
        return None

    def native(self, fn):
        return fn()

    def modular(self, qual, contract):
        """from here on the callee `qual` is represented by its contract (which a scenario of its own proves), not by its body"""
        m, n = qual.rsplit(".", 1)
        mod = importlib.import_module(m)
        if not callable(getattr(mod, n, None)):
            raise Unsupported(f"{qual} is not there")
        self.patched.append((mod, n, getattr(mod, n)))
        setattr(mod, n, contract)
        self.eng.loops_used.add(qual + " by its contract")

    def undo(self):
        for mod, n, f in reversed(self.patched):
            setattr(mod, n, f)
        self.patched = []

    def filtered(self, kind, a, sigma, axis):
        """`a` filtered along `axis` by the linear filter `kind` (its weights are uninterpreted)"""
        return shim.line_filter(kind, a, sigma, axis, f"filter {kind} represented by its contract: a weighted sum along one axis")

    def sums_positive(self):
        """lemma: a sum of positive summands over a non-empty range is positive (for the sums met so far on this path)"""
        for r, body, keys, red in list(self.eng.sums.values()):
            box = b_and(*[z3.And(k >= 0, k < iz(d)) for k, d in zip(keys, red)])
            if self.eng.prove(z3.Implies(box, body > 0)) == "proved":
                self.eng.assume(z3.Implies(b_and(*[iz(d) >= 1 for d in red]), r > 0))

    def round(self, x): return shim.round_(x)
    def cosh(self, x): return shim.N["cosh"](x)

    def beyond(self, what):
        raise Unsupported(what)

    def make(self, shape, fn, dtype=float):
        """a new array with the entries fn(*index)"""
        dt = arr.dt_of(dtype)

        def at(idx):
            return arr.cast_val(lift_num(fn(*[SNum(arr.iz(i), PY_INT) for i in idx])), dt)
        return SArr.make(dt, tuple(ix(s) for s in shape), at)

    # ---- inputs
    def _nm(self, name):
        k = self._seq.get(name, 0)
        self._seq[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def record(self, name, f):
        self.inputs[name] = f

    def val(self, m, v):
        """concrete value of a symbolic one under a model"""
        if isinstance(v, SNum):
            e = m.eval(v.e, model_completion=True)
            f = num(e)
            if f is None:
                raise ValueError("no numeral")
            return int(f) if v.is_int else float(f)
        if isinstance(v, SBool):
            return z3.is_true(m.eval(v.e, model_completion=True))
        if isinstance(v, SArr):
            shp = tuple(d if isinstance(d, int) else int(num(m.eval(d, model_completion=True))) for d in v.shp)
            if math.prod(shp) > 4000:
                raise ValueError("too large")
            a = np.empty(shp, dtype=v.dtype)
            for i in np.ndindex(*shp):
                a[i] = self.val(m, v.at(i))
            return a
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, near=(), nz=False):
        name = self._nm(name)
        e = z3.Real("in:" + name)
        v = SNum(e, PY_FLOAT)
        self.record(name, lambda m: self.val(m, v))
        if lo is not None:
            l = zr(lift_num(lo).e)
            self.eng.assume(e > l if lo_open else e >= l)
        if hi is not None:
            h = zr(lift_num(hi).e)
            self.eng.assume(e < h if hi_open else e <= h)
        if nz:
            self.eng.assume(e != 0)
        return v

    def int(self, name, lo=None, hi=None, cap=None, special=()):
        name = self._nm(name)
        lo2, hi2 = (None if x is None else lift_num(x) for x in (lo, hi))
        l, h = (None if x is None else core.num_value(z3.simplify(x.e)) for x in (lo2, hi2))
        if l is not None and h is not None and h - l <= 12:
            if h < l:
                raise PathDone()
            v = int(l) + self.eng.fork(int(h - l) + 1)
            self.record(name, lambda m: v)
            return v
        if self.sizes is not None and l is not None and cap is not None:
            v = int(l) + self.eng.fork(min(int(cap), int(l) + self.sizes) - int(l) + 1)
            self.record(name, lambda m: v)
            return v
        e = z3.Int("in:" + name)
        v = SNum(e, PY_INT)
        self.record(name, lambda m: self.val(m, v))
        if lo2 is not None:
            self.eng.assume(e >= lo2.e)
        if hi2 is not None:
            self.eng.assume(e <= hi2.e)
        return v

    def size(self, name, lo=1, cap=None):
        if self.sizes is None:
            nm = self._nm(name)
            e = z3.Int("in:" + nm)
            v = SNum(e, PY_INT)
            self.record(nm, lambda m: self.val(m, v))
            self.eng.assume(e >= lo)
            return v
        nm = self._nm(name)
        hi = max(lo, min(self.sizes, cap if cap is not None else self.sizes))
        v = lo + self.eng.fork(hi - lo + 1)
        self.record(nm, lambda m: v)
        return v

    def bool(self, name):
        nm = self._nm(name)
        v = self.eng.fork(2) == 1
        self.record(nm, lambda m: v)
        return v

    def choice(self, name, options, weights=None):
        nm = self._nm(name)
        i = self.eng.fork(len(options))
        self.record(nm, lambda m: i)
        return options[i]

    def pick(self, name, n):
        self._nm(name)
        return -1

    def array(self, name, shape, dtype=float, lo=None, hi=None, lo_open=False, hi_open=False, values=None):
        name = self._nm(name)
        shp = arr.shape_arg(tuple(shape))
        dt = arr.dt_of(dtype)
        srt = z3.RealSort() if dt == F8 else z3.IntSort()
        if dt == arr.B1:
            raise Unsupported("symbolic boolean input array")
        f = z3.Function("in:" + name, *[z3.IntSort()] * len(shp), srt)
        ks = [self.eng.key("i") for _ in shp]
        t = f(*ks)
        cs = []
        if values is not None:
            cs.append(b_or(*[t == (zr(v) if dt == F8 else z3.IntVal(int(v))) for v in values]))
        if lo is not None:
            l = zr(lift_num(lo).e) if dt == F8 else core.zi(lift_num(lo).e)
            cs.append(t > l if lo_open else t >= l)
        if hi is not None:
            h = zr(lift_num(hi).e) if dt == F8 else core.zi(lift_num(hi).e)
            cs.append(t < h if hi_open else t <= h)
        if dt == arr.U1:
            cs += [t >= 0, t <= 255]
        if cs:
            self.eng.add_fact(ks, b_and(*cs), [("in:" + name, tuple(ks))])
        a = SArr.make(dt, shp, lambda idx: SNum(f(*[iz(i) for i in idx]), dt))
        keep = a.copy()
        self.record(name, lambda m: self.val(m, keep))
        return a

    def nan_array(self, name, shape):
        """an array of floats any of which may be NaN"""
        name = self._nm(name)
        shp = arr.shape_arg(tuple(shape))
        f, g = (z3.Function(p + name, *[z3.IntSort()] * len(shp), s) for p, s in (("in:", z3.RealSort()), ("nan:", z3.BoolSort())))
        a = SArr.make(F8, shp, lambda idx: SNum(f(*[iz(i) for i in idx]), F8, None, g(*[iz(i) for i in idx])))
        self.record(name, None)
        return a

    def isnan(self, x):
        return shim.is_nan(lift_num(x._one() if isinstance(x, SArr) else x))

    def func(self, name, arity=1):
        name = self._nm(name)
        f = z3.Function("in:" + name, *[z3.RealSort()] * arity, z3.RealSort())
        self.record(name, None)

        def g(*xs):
            if any(isinstance(x, SArr) for x in xs):
                return arr.elementwise(lambda *vs: SNum(f(*[z3.simplify(zr(v.e), som=True) for v in vs]), F8), F8, *xs)
            return SNum(f(*[z3.simplify(zr(lift_num(x).e), som=True) for x in xs]), F8)
        return g

    def ifunc(self, name, arity=1, real=False):
        """an uninterpreted function of integers (ghost state of a loop contract)"""
        name = self._nm(name)
        f = z3.Function("ghost:" + name, *[z3.IntSort()] * arity, z3.RealSort() if real else z3.IntSort())

        def g(*xs):
            return SNum(f(*[z3.simplify(core.zi(lift_num(x).e)) for x in xs]), F8 if real else PY_INT)
        g.f = f
        return g

    def hint(self, *xs):
        """index terms at which, or values for which, quantified facts are to be instantiated"""
        for x in xs:
            e = z3.simplify(lift_num(x).e)
            self.eng.use_index(e if z3.is_real(e) else core.zi(e))
        return True

    def define(self, dims, fn, triggers):
        """definition of ghost state: holds for all indices below dims (None: no bound); triggers: (function, its argument or a
        tuple of its arguments as a function of the index)"""
        ks = [self.eng.key("q") for _ in dims]
        g = b_and(*[k >= 0 if d is None else z3.And(k >= 0, k < iz(ix(d))) for k, d in zip(ks, dims)])
        sk = [SNum(k, PY_INT) for k in ks]
        outs = self.eng.nested(lambda: SBool(self.cond(fn(*sk))), ks, g)
        body = z3.And(*[z3.Implies(b_and(g, c), r.e) for c, r in outs])
        tup = lambda x: x if isinstance(x, tuple) else (x,)
        trg = [(f.f.name(), tuple(z3.simplify(lift_num(y).e) for y in tup(a(*sk)))) for f, a in triggers]
        self.eng.add_fact(ks, body, trg)

    def vec(self, xs):
        return arr.array(list(xs), float)

    # ---- logic
    def cond(self, c):
        """z3 Bool of a truth value"""
        if isinstance(c, SArr):
            c = c._one()
        if isinstance(c, SBool):
            return c.e
        if isinstance(c, SNum):
            r = num_cmp("ne", c, lift_num(0))
            return r.e if isinstance(r, SBool) else z3.BoolVal(r)
        return z3.BoolVal(bool(c))

    def mk(self, e):
        return core.mk_bool(z3.simplify(e) if not core.is_z3(e) else e)

    def case(self, name, c):
        e = self.cond(c)
        return self.eng.branch(e)

    def assume(self, c):
        e = z3.simplify(self.cond(c))
        if z3.is_false(e):
            raise PathDone()
        self.eng.assume(e)
        if not self.eng.nest and not self.eng.feasible():
            raise PathDone()

    def away(self, a, b, eps=1e-7):
        pass

    def is_near(self, a, b, eps=1e-7):
        return self.eq(a, b)

    def ensure(self, name, c, detail=""):
        self.prover.obligation(self, name, self.cond(c), detail)

    def eq(self, a, b, tol=None):
        if a is None or b is None:
            return a is b
        if isinstance(a, SArr):
            if a.ndim and not (a.size == 1):
                return False
            a = a._one()
        if isinstance(b, SArr):
            b = b._one()
        x, y = lift(a), lift(b)
        if x is None or y is None:
            return False
        x, y = arr.num_of(x), arr.num_of(y)
        if isinstance(x, SInf) or isinstance(y, SInf):
            return isinstance(x, SInf) and isinstance(y, SInf) and x.sign == y.sign
        e = zr(x.e) == zr(y.e) if not (x.is_int and y.is_int) else x.e == y.e
        e = z3.simplify(e) if x.e.eq(y.e) else e
        if x.nan is not None or y.nan is not None:
            nx, ny = b_or(x.nan), b_or(y.nan)
            e = z3.If(z3.Or(nx, ny), z3.And(nx, ny), e)
        und = core.o_or(x.undef, y.undef)
        if und is not None:
            e = b_and(b_not(und), e)
        return core.mk_bool(e)

    def _defd(self, a, b):
        xs = [lift(v) for v in (a, b)]
        return [b_not(f) for v in xs if isinstance(v, SNum) for f in (v.undef, v.nan) if f is not None]

    def _rel(self, op, a, b):
        a = a._one() if isinstance(a, SArr) else a
        b = b._one() if isinstance(b, SArr) else b
        x, y = arr.num_of(lift(a)), arr.num_of(lift(b))
        d = self._defd(x, y)
        if d:
            x, y = SNum(x.e, x.dt), SNum(y.e, y.dt)
        r = num_cmp(op, x, y)
        if not d:
            return r
        e = r.e if isinstance(r, SBool) else z3.BoolVal(r)
        return core.mk_bool(b_and(e, *d))

    def exact(self, a, b):
        return self.eq(a, b)

    def le(self, a, b, strict_tol=0):
        return self._rel("le", a, b)

    def lt(self, a, b):
        return self._rel("lt", a, b)

    def ge(self, a, b):
        return self._rel("ge", a, b)

    def gt(self, a, b):
        return self._rel("gt", a, b)

    def _under(self, guard, thunk):
        """truth value of thunk() evaluated where guard holds"""
        if z3.is_true(z3.simplify(guard)):
            return self.cond(thunk())
        outs = self.eng.nested(lambda: SBool(self.cond(thunk())), [], guard)
        if not outs:
            return core.TRUE        # guard unsatisfiable
        return core.merge_values(outs).e

    def and_(self, *xs):
        es = []
        for x in xs:
            e = self._under(b_and(*es), x) if callable(x) else self.cond(x)
            if z3.is_false(z3.simplify(e)):
                return False
            es.append(e)
        return core.mk_bool(b_and(*es))

    def or_(self, *xs):
        es = []
        for x in xs:
            e = self._under(b_not(b_or(*es)), x) if callable(x) else self.cond(x)
            es.append(e)
        return core.mk_bool(b_or(*es))

    def not_(self, x):
        return core.mk_bool(b_not(self.cond(x)))

    def implies(self, a, b):
        e = z3.simplify(self.cond(a))
        if z3.is_false(e):
            return True
        r = self._under(e, b) if callable(b) else self.cond(b)
        return core.mk_bool(b_or(b_not(e), r))

    def iff(self, a, b):
        return core.mk_bool(self.cond(a) == self.cond(b))

    def ite(self, c, a, b):
        e = z3.simplify(self.cond(c))
        if z3.is_true(e):
            return a
        if z3.is_false(e):
            return b
        if size_condition(e):
            v = self.eng.decided(e, (True, True))
            if v[0] is False:
                return b
            if v[1] is False:
                return a
        return v_if(e, a, b)

    def _keys(self, dims):
        ds = [ix(d) for d in dims]
        ks = [self.eng.key("q") for _ in ds]
        g = b_and(*[z3.And(k >= 0, k < iz(d)) for k, d in zip(ks, ds)])
        return ds, ks, g

    def forall(self, name, dims, fn):
        ds = [ix(d) for d in dims]
        if all(isinstance(d, int) for d in ds) and math.prod(ds) <= 64:
            for i in np.ndindex(*ds):
                self.eng.nested(lambda: self.ensure(name, fn(*i), f"at {i}"), [], core.TRUE)
            return
        ds, ks, g = self._keys(dims)
        for k in ks:
            self.eng.use_index(k)
        for d in ds:
            if self.eng.known(icmp("eq", d, 0) if not isinstance(d, int) else z3.BoolVal(d == 0)):
                return
        self.eng.nested(lambda: self.ensure(name, fn(*[SNum(k, PY_INT) for k in ks])), [], g)

    def forall_assume(self, dims, fn):
        ds = [ix(d) for d in dims]
        if all(isinstance(d, int) for d in ds) and math.prod(ds) <= 64:
            for i in np.ndindex(*ds):
                self.assume(fn(*i))
            return
        ds, ks, g = self._keys(dims)
        outs = self.eng.nested(lambda: SBool(self.cond(fn(*[SNum(k, PY_INT) for k in ks]))), ks, g)
        for c, r in outs:
            self.eng.add_fact(ks, z3.Implies(b_and(g, c), r.e), arr.auto_trigger(r.e, list(self.eng.keystack) + ks))
        if not self.eng.feasible():
            raise PathDone()

    def exists(self, dims, fn, hint=None):
        ds = [ix(d) for d in dims]
        if all(isinstance(d, int) for d in ds):
            return self.or_(*[(lambda i=i: fn(*i)) for i in np.ndindex(*ds)])
        if hint is not None:
            return fn(*hint)
        raise Unsupported("existential over a symbolic range")

    # ---- functions
    def sqrt(self, x): return shim.N["sqrt"](x)
    def exp(self, x): return shim.N["exp"](x)
    def log(self, x): return shim.N["log"](x)
    def tanh(self, x): return shim.N["tanh"](x)
    def atan(self, x): return shim.N["arctan"](x)
    def sin(self, x): return shim.N["sin"](x)
    def cos(self, x): return shim.N["cos"](x)

    def power(self, b, e):
        return shim.np_pow(shim.float_(b), shim.float_(e))

    def floor(self, x):
        return shim.math_floor(x)

    def sum(self, n, fn):
        d = ix(n)
        if isinstance(d, int):
            return shim.sum_([fn(i) for i in range(d)])

        def one(r):
            outs = self.eng.nested(lambda: cast_val(lift_num(fn(SNum(r[0], PY_INT))), F8), [r[0]], z3.And(r[0] >= 0, r[0] < iz(d)))
            return core.merge_values(outs)
        return arr.sum_term([d], one, F8)

    # ---- arrays and calls
    def shape_is(self, name, a, shape):
        got = () if lift(a) is not None else asarray(a).shp
        want = [ix(s) for s in shape]
        if len(got) != len(want):
            self.ensure(name + ": shape", False, detail=f"rank {len(got)}")
            raise PathDone()
        self.ensure(name + ": shape", core.mk_bool(b_and(*[c if not isinstance(c, bool) else z3.BoolVal(c) for c in
                                                        (icmp("eq", g, w) for g, w in zip(got, want))])))

    def arr_eq(self, name, a, shape, fn, tol=None):
        self.shape_is(name, a, shape)
        b = asarray(a)
        self.forall(name, shape, lambda *i: self.eq(b.at(tuple(ix(x) for x in i)) if len(i) else b.at(()), fn(*i), tol))

    def snap(self, a):
        import copy
        return copy.deepcopy(a)

    def same(self, name, a, snap):
        if isinstance(a, SArr):
            if not isinstance(snap, SArr) or a.ndim != snap.ndim or a.buf.dt != snap.buf.dt:
                self.ensure(name + ": unchanged", False)
                return
            if a.buf.c is snap.buf.c and a.axes == snap.axes and all(arr.isame(x, y) for x, y in zip(a.shp, snap.shp)):
                self.ensure(name + ": unchanged", True)
                return
            self.ensure(name + ": unchanged", core.mk_bool(b_and(*[c if not isinstance(c, bool) else z3.BoolVal(c) for c in
                                                                  (icmp("eq", x, y) for x, y in zip(a.shp, snap.shp))])))
            x, y = a.frozen(), snap.frozen()
            self.forall(name + ": unchanged", a.shape, lambda *i: self.eq(x(tuple(ix(q) for q in i)), y(tuple(ix(q) for q in i)))
                        if a.buf.dt != arr.B1 else self.iff(SBool(x(tuple(ix(q) for q in i)).e), SBool(y(tuple(ix(q) for q in i)).e)))
        elif isinstance(a, (list, tuple)):
            self.ensure(name + ": unchanged", type(a) is type(snap) and len(a) == len(snap))
            for x, y in zip(a, snap):
                self.same(name, x, y)
        elif isinstance(a, (SNum, SBool)):
            self.ensure(name + ": unchanged", self.eq(a, snap))
        else:
            self.ensure(name + ": unchanged", a == snap or (a != a and snap != snap))

    def call(self, f, *args, **kw):
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return Outcome(None, f(*args, **kw))
        except Exception as ex:
            self.prover.saw_exception(ex)
            return Outcome(ex, None)

    def run(self, name, f, *args, **kw):
        out = self.call(f, *args, **kw)
        self.ensure(name + ": no exception", out.exc is None, detail=repr(out.exc))
        if out.exc is not None:
            raise PathDone()
        return out.value

    def no_exc(self, name, out):
        self.ensure(name + ": no exception", out.exc is None, detail=repr(out.exc) if out.exc is not None else "")
        if out.exc is not None:
            raise PathDone()
        return out.value

    def rng(self, name):
        return shim.SymRng(name, self)


def num(e):
    v = core.num_value(e)
    if v is not None:
        return v
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
