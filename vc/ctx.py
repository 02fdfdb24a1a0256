"""Scenario context: one specification text, two readings.

A *scenario* is the contract of one or more functions of /repo written as a small program: it draws
arbitrary inputs (ctx.real, ctx.array, ...), states the precondition (ctx.assume), calls the function
and states the postcondition (ctx.ensure and friends).

  * SymCtx (symctx.py): inputs are symbolic, the functions are the instrumented sources of /repo, and every
    ensure becomes an obligation for the solver -- the deciding reading.
  * NumCtx (here): inputs are numbers, the functions are the ones CPython imports from /repo.  It is used to
    replay a solver model, and as the bounded stand-in / counterexample search where no proof is reached.
"""
import copy
import importlib
import inspect
import math
import random
import sys
import warnings

import numpy as np


class Discard(BaseException):
    """precondition not met by the drawn numbers"""


class Violated(BaseException):
    def __init__(self, name, detail=""):
        self.name, self.detail = name, detail
        super().__init__(f"{name}: {detail}")


class Outcome:
    __slots__ = ("exc", "value")

    def __init__(self, exc, value):
        self.exc, self.value = exc, value

    @property
    def ok(self):
        return self.exc is None


REGISTRY = {}


class Scenario:
    def __init__(self, prop, name, fn, fns, sym, why_num, weight, exhaustive, trials, slow):
        self.prop, self.name, self.fn, self.fns = prop, name, fn, fns
        self.sym, self.why_num, self.weight = sym, why_num, weight
        self.trials, self.slow = trials, slow

    @property
    def id(self):
        return f"{self.prop}.{self.name}"


def scenario(prop, fns=(), sym=True, why_num=None, weight=1.0, exhaustive=False, trials=None, slow=False):
    """fns: qualified names of the functions of /repo that this scenario puts under contract."""
    def deco(fn):
        s = Scenario(prop, fn.__name__, fn, tuple(fns), sym, why_num, weight, exhaustive, trials, slow)
        REGISTRY.setdefault(prop, []).append(s)
        return fn
    return deco


class BaseCtx:
    sym = False

    # derived conveniences (work in both readings)
    def ensure_all(self, name, conds):
        for i, c in enumerate(conds):
            self.ensure(f"{name}[{i}]", c)

    def ensure_eq(self, name, a, b, tol=None):
        self.ensure(name, self.eq(a, b, tol))

    def no_exc(self, name, out):
        self.ensure(name + ": no exception", out.exc is None, detail=repr(out.exc) if out.exc is not None else "")
        return out.value

    def raises(self, name, out, exc=ValueError):
        self.ensure(f"{name}: raises {exc.__name__}", out.exc is not None and isinstance(out.exc, exc),
                    detail="no exception" if out.exc is None else repr(out.exc))

    def vec(self, xs):
        """a (fresh) numpy array holding the given entries"""
        return self.np.array(list(xs))

    def biased(self, name, lo, hi, wild, **k):
        """a real that is unconstrained; the numeric reading keeps it inside [lo, hi] unless `wild`"""
        return self.real(name, **k)

    def pick(self, name, n):
        """numeric reading: index of the one component to perturb (or -1 for none); symbolic: irrelevant"""
        return -1

    def scalar(self, a):
        """the one entry of an array, or the scalar itself"""
        return a.reshape(-1)[0] if getattr(a, "ndim", 0) else a

    def abs(self, a):
        return self.ite(a >= 0, a, -a)

    def max2(self, a, b):
        return self.ite(self.le(a, b, strict_tol=0), b, a)

    def min2(self, a, b):
        return self.ite(self.le(a, b, strict_tol=0), a, b)


# ----------------------------------------------------------------------------------------------- numbers
class NumCtx(BaseCtx):
    sym = False
    np = np

    def __init__(self, rnd, values=None, size_hint=None):
        self.r = rnd
        self.values = values        # replay: name -> value
        self.inputs = {}
        self.size_cap = size_hint or 6
        self.ensured = 0
        self._seq = {}

    # ---- access to the code under contract
    def mod(self, name):
        return importlib.import_module(name)

    def get(self, qual):
        m, n = qual.rsplit(".", 1)
        try:
            return getattr(importlib.import_module(m), n)
        except (ImportError, AttributeError):
            self.out_of_reach(f"{qual} is not there")

    def out_of_reach(self, why):
        """what the scenario speaks about (an internal helper) does not exist in this form: nothing to say"""
        raise Discard()

    def helper(self, owner, name):
        """an internal function of the code: the scenario says nothing if it is gone or takes other arguments"""
        f = getattr(owner, name, None) if not isinstance(owner, str) else self.get(owner + name)
        if f is None:
            self.out_of_reach(f"{name} is not there")

        def g(*a, **k):
            try:
                inspect.signature(f).bind(*a, **k)
            except TypeError:
                self.out_of_reach(f"{name} takes other arguments")
            return f(*a, **k)
        return g

    def stub(self, *a, **k):
        """callee contracts are only substituted in the symbolic reading; here the real callee runs"""
        return None

    # ---- inputs
    def _nm(self, name):
        k = self._seq.get(name, 0)
        self._seq[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def _draw(self, name, fn):
        name = self._nm(name)
        if self.values is not None and name in self.values:
            v = self.values[name]
        else:
            v = fn()
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, near=(), nz=False):
        def draw():
            r = self.r
            for _ in range(100):
                k = r.random()
                near_ = [x for x in near if x is not None]
                if near_ and k < 0.5:
                    b = float(r.choice(near_))
                    v = b if r.random() < 0.6 else b + r.choice([-1, 1]) * r.choice([1e-3, 0.1, 1.0]) * max(1.0, abs(b))
                elif k < 0.62:
                    v = float(r.choice([0, 1, -1, 0.5, 2, -2, -0.5, 3, 0.25]))
                elif lo is not None and hi is not None:
                    v = r.uniform(float(lo), float(hi))
                    if r.random() < 0.1:
                        v = float(r.choice([lo, hi]))
                elif lo is not None:
                    v = float(lo) + abs(r.gauss(0, 1)) * r.choice([0.1, 1, 1, 10])
                elif hi is not None:
                    v = float(hi) - abs(r.gauss(0, 1)) * r.choice([0.1, 1, 1, 10])
                else:
                    v = r.gauss(0, 1) * r.choice([0.1, 1, 1, 10])
                if lo is not None and (v < lo or (lo_open and v <= lo)):
                    continue
                if hi is not None and (v > hi or (hi_open and v >= hi)):
                    continue
                if nz and abs(v) < 1e-3:
                    continue
                return v
            raise Discard()
        v = self._draw(name, draw)
        if lo is not None and (v < lo or (lo_open and v <= lo)):
            raise Discard()
        if hi is not None and (v > hi or (hi_open and v >= hi)):
            raise Discard()
        if nz and v == 0:
            raise Discard()
        return v

    def vec(self, xs):
        return np.array(list(xs), dtype=float)

    def nan_array(self, name, shape):
        a, holes = self.array(name, shape), self.array(name + " holes", shape, int, lo=0, hi=2)
        if self.bool(name + " with holes"):
            a[holes == 0] = np.nan
        return a

    def isnan(self, x):
        return bool(np.isnan(x))

    def pick(self, name, n):
        return self._draw(name, lambda: self.r.choice([-1, -1] + list(range(n))))

    def biased(self, name, lo, hi, wild, **k):
        def draw():
            l, h = (-3.0 if lo is None else float(lo)), (3.0 if hi is None else float(hi))
            u = self.r.random()
            if not wild:
                return l if u < 0.2 else h if u < 0.4 else self.r.uniform(l, h)
            d = self.r.choice([1e-9, 1e-3, 0.5, 2.0, 50.0])
            return l - d if u < 0.5 else h + d
        return self._draw(name, draw)

    def int(self, name, lo=None, hi=None, cap=None, special=()):
        def draw():
            l = lo if lo is not None else -5
            h = hi if hi is not None else (cap if cap is not None else l + 10)
            if special and self.r.random() < 0.3:
                return int(self.r.choice(list(special)))
            return self.r.randint(l, max(l, h))
        v = int(self._draw(name, draw))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        return v

    def size(self, name, lo=1, cap=None):
        return self.int(name, lo, None, cap=cap if cap is not None else max(lo, self.size_cap))

    def bool(self, name):
        return bool(self._draw(name, lambda: self.r.random() < 0.5))

    def choice(self, name, options, weights=None):
        """Pick one of finitely many alternatives; the symbolic reading explores all of them."""
        i = self._draw(name, lambda: self.r.choices(range(len(options)), weights)[0])
        return options[int(i)]

    def array(self, name, shape, dtype=float, lo=None, hi=None, lo_open=False, hi_open=False, values=None):
        shape = tuple(int(s) for s in shape)

        def draw():
            a = np.empty(shape, dtype=dtype)
            k = self.r.random()
            for ix in np.ndindex(*shape):
                if values is not None:
                    a[ix] = self.r.choice(list(values))
                elif np.dtype(dtype).kind in "iu":
                    a[ix] = self.r.randint(0 if lo is None else int(lo), 6 if hi is None else int(hi))
                else:
                    l, h = lo, hi
                    if l is None and h is None:
                        v = self.r.gauss(0, 1) if k > 0.2 else float(self.r.choice([0, 1, -1, 2, 0.5]))
                    elif h is None:
                        v = l + abs(self.r.gauss(0, 1))
                    elif l is None:
                        v = h - abs(self.r.gauss(0, 1))
                    else:
                        v = self.r.uniform(l, h)
                        if k < 0.15:
                            v = self.r.choice([l, h, (l + h) / 2])
                    if lo_open and v <= l:
                        v = l + 0.25 * ((h if h is not None else l + 1) - l)
                    if hi_open and v >= h:
                        v = h - 0.25 * (h - (l if l is not None else h - 1))
                    a[ix] = v
            return a
        v = np.array(self._draw(name, draw), dtype=dtype)
        if v.shape != shape:
            raise Discard()
        return v

    def func(self, name, arity=1):
        """an arbitrary (deterministic) real function"""
        cs = self._draw(name, lambda: [self.r.gauss(0, 1) for _ in range(3 * arity + 1)])

        def f(*xs):
            t = cs[-1]
            for i, x in enumerate(xs):
                t = t + cs[3 * i] * x + cs[3 * i + 1] * np.sin(2 * x + cs[3 * i + 2])
            return t
        return f

    # ---- logic
    def case(self, name, c):
        """case distinction on a condition (the symbolic reading explores both)"""
        return bool(c)

    def assume(self, c):
        if not bool(c):
            raise Discard()

    def away(self, a, b, eps=1e-7):
        """numeric reading only: skip inputs for which a == b up to rounding (the symbolic one covers equality)"""
        if abs(float(a) - float(b)) <= eps * max(1.0, abs(float(a)), abs(float(b))):
            raise Discard()

    def is_near(self, a, b, eps=1e-7):
        return abs(float(a) - float(b)) <= eps * max(1.0, abs(float(a)), abs(float(b)))

    def ensure(self, name, c, detail=""):
        self.ensured += 1
        if not bool(c):
            raise Violated(name, str(detail))

    def eq(self, a, b, tol=None):
        if a is None or b is None:
            return a is b
        try:
            a, b = float(a), float(b)
        except TypeError:
            return False
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        t = 1e-8 if tol is None else tol
        return abs(a - b) <= t * max(1.0, abs(a), abs(b))

    def exact(self, a, b):
        return bool(a == b)

    def le(self, a, b, strict_tol=1e-9):
        return float(a) <= float(b) + strict_tol * max(1.0, abs(float(a)), abs(float(b)))

    def lt(self, a, b):
        return float(a) < float(b)

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def and_(self, *xs):
        """conjunction; a callable is evaluated only if everything before it holds"""
        return all(bool(x() if callable(x) else x) for x in xs)

    def or_(self, *xs):
        return any(bool(x() if callable(x) else x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def implies(self, a, b):
        """b may be a thunk"""
        if not bool(a):
            return True
        return bool(b() if callable(b) else b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def forall(self, name, dims, fn):
        for ix in np.ndindex(*[int(d) for d in dims]):
            self.ensure(name, fn(*ix), detail=f"at {ix}")

    def forall_assume(self, dims, fn):
        for ix in np.ndindex(*[int(d) for d in dims]):
            if not bool(fn(*ix)):
                raise Discard()

    def exists(self, dims, fn, hint=None):
        return any(bool(fn(*ix)) for ix in np.ndindex(*[int(d) for d in dims]))

    # ---- functions
    def sqrt(self, x): return math.sqrt(x)
    def exp(self, x): return float(np.exp(x))
    def log(self, x): return float(np.log(x))
    def tanh(self, x): return float(np.tanh(x))
    def atan(self, x): return float(np.arctan(x))
    def sin(self, x): return float(np.sin(x))
    def cos(self, x): return float(np.cos(x))
    def power(self, b, e): return float(np.power(float(b), float(e)))
    def floor(self, x): return math.floor(x)
    pi = math.pi

    def sum(self, n, fn):
        return sum(fn(i) for i in range(int(n)))

    # ---- arrays and calls
    def shape_is(self, name, a, shape):
        got = tuple(np.shape(a))
        self.ensure(name + ": shape", got == tuple(int(s) for s in shape), detail=f"got {got}, expected {tuple(shape)}")

    def arr_eq(self, name, a, shape, fn, tol=None):
        """a has the given shape and a[i] = fn(i)"""
        self.shape_is(name, a, shape)
        for ix in np.ndindex(*[int(s) for s in shape]):
            e = fn(*ix)
            self.ensure(name, self.eq(a[ix], e, tol), detail=f"at {ix}: got {a[ix]!r}, expected {e!r}")

    def snap(self, a):
        return copy.deepcopy(a)

    def same(self, name, a, snap):
        """a is unchanged since snap was taken (exactly)"""
        if isinstance(a, np.ndarray):
            self.ensure(name + ": unchanged", isinstance(snap, np.ndarray) and a.shape == snap.shape and
                        a.dtype == snap.dtype and np.array_equal(a, snap, equal_nan=a.dtype.kind == "f"))
        elif isinstance(a, (list, tuple)):
            self.ensure(name + ": unchanged", type(a) is type(snap) and len(a) == len(snap))
            for x, y in zip(a, snap):
                self.same(name, x, y)
        else:
            self.ensure(name + ": unchanged", a == snap or (a != a and snap != snap))

    def call(self, f, *args, **kw):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    return Outcome(None, f(*args, **kw))
        except Exception as ex:
            return Outcome(ex, None)

    def run(self, name, f, *args, **kw):
        """call that must not raise"""
        return self.no_exc(name, self.call(f, *args, **kw))

    def rng(self, name):
        return NumRng(self, name)

    def native(self, fn):
        return fn()


class NumRng(np.random.Generator):
    """Stand-in for numpy.random.Generator: every draw is an arbitrary value its distribution can take.
    Draws are recorded (kind, value) so that a contract can refer to them.  Methods not overridden here are those of a
    real generator."""

    def __new__(cls, ctx, name):
        return super().__new__(cls, np.random.PCG64(ctx.r.randint(0, 10 ** 9)))

    def __init__(self, ctx, name):
        super().__init__(np.random.PCG64(ctx.r.randint(0, 10 ** 9)))
        self.c, self.name, self.draws = ctx, name, []

    def __repr__(self):
        return f"NumRng({self.name})"

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return True

    far = 0     # number of coming scalar draws that lie far out in the tail

    def _out(self, kind, size, one):
        if self.far > 0 and size is None and kind in ("normal", "lognormal", "exponential"):
            self.far -= 1
            v = 1e9 if kind != "normal" or self.far % 2 else -1e9
            self.draws.append((kind, v))
            return v
        def draw():
            if size is None:
                return one()
            shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
            a = np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape)
            return a
        v = self.c._draw(f"{self.name}.{kind}", draw)
        if size is not None:
            v = np.array(v)
        self.draws.append((kind, v))
        return v.copy() if isinstance(v, np.ndarray) else v

    def normal(self, loc=0.0, scale=1.0, size=None):
        r = self.c.r
        if np.any(np.asarray(scale) < 0):
            raise ValueError("scale < 0")
        z = lambda: float(loc + scale * r.choice([r.gauss(0, 1), r.gauss(0, 1), 4 * r.gauss(0, 1)]))
        v = self._out("normal", size, z)
        self.draws[-1] += (loc, scale)
        return v

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self.c.r
        t = lambda: float(low + (high - low) * r.choice([0.0, r.random(), r.random(), 1 - 1e-12]))
        v = self._out("uniform", size, t)
        self.draws[-1] += (low, high)
        return v

    def random(self, size=None, dtype=float, out=None):
        return self.uniform(0.0, 1.0, size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        r = self.c.r
        v = self._out("lognormal", size, lambda: float(math.exp(mean + sigma * r.gauss(0, 1.5))))
        self.draws[-1] += (mean, sigma)
        return v

    def exponential(self, scale=1.0, size=None):
        r = self.c.r
        v = self._out("exponential", size, lambda: float(scale * r.expovariate(1.0) * r.choice([0.2, 1, 3])))
        self.draws[-1] += (scale,)
        return v

    def binomial(self, n, p, size=None):
        r = self.c.r
        if not (0 <= p <= 1):
            raise ValueError("p < 0, p > 1 or p is NaN")

        def one():
            return sum((r.random() < (p if r.random() < 0.3 else (0 if p == 0 else 1 if p == 1 else 0.5)))
                       for _ in range(int(n)))
        v = self._out("binomial", size, one)
        self.draws[-1] += (n, p)
        return v

    def geometric(self, p, size=None):
        r = self.c.r
        if not (0 < p <= 1):
            raise ValueError("p <= 0, p > 1 or p contains NaNs")
        v = self._out("geometric", size, lambda: 1 if p == 1 else r.choice([1, 1, 2, 3, r.randint(1, 6)]))
        self.draws[-1] += (p,)
        return v

    def poisson(self, lam=1.0, size=None):
        r = self.c.r
        if not lam >= 0:
            raise ValueError("lam < 0 or lam contains NaNs")
        v = self._out("poisson", size, lambda: 0 if lam == 0 else r.choice([0, 1, 2, 3, r.randint(0, 5), int(min(lam, 400))]))
        self.draws[-1] += (lam,)
        return v

    def kinds(self, *ks):
        return [d for d in self.draws if d[0] in ks]

    def flat(self, kind):
        """all values drawn of one kind, in order"""
        out = []
        for d in self.draws:
            if d[0] == kind:
                out.extend(np.ravel(d[1]).tolist())
        return out


# ----------------------------------------------------------------------------------------------- running
def run_num(sc, seed, trials, deadline, values=None, size_hint=None):
    """Run the numeric reading.  Returns dict(trials, discarded, evals, violation or None)."""
    import time
    done = disc = evals = 0
    viol = sample = None
    seen = set()
    k = 0
    while done < trials and (k < 40 * trials) and time.time() < deadline:
        rnd = random.Random(f"{seed}/{sc.id}/{k}")
        np.random.seed((seed * 7919 + k) % (2 ** 31))
        k += 1
        ctx = NumCtx(rnd, values, size_hint)
        try:
            sc.fn(ctx)
        except Discard:
            disc += 1
            if values is not None:
                break
            continue
        except Violated as v:
            viol = dict(scenario=sc.id, name=v.name, detail=v.detail, inputs=ctx.inputs, trial=k - 1)
            evals += ctx.ensured
            done += 1
            break
        except Exception as ex:
            import traceback
            viol = dict(scenario=sc.id, name="uncaught " + type(ex).__name__, detail="".join(
                traceback.format_exception(ex))[-1500:], inputs=ctx.inputs, trial=k - 1)
            done += 1
            break
        done += 1
        evals += ctx.ensured
        if ctx.ensured:
            seen.add(hash(repr(ctx.inputs)))
            sample = ctx.inputs if sample is None else sample
        if values is not None:
            break
    return dict(trials=done, discarded=disc, evals=evals, violation=viol, sample=sample, distinct=len(seen))
