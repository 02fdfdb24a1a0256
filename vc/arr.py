"""Symbolic arrays: shape of Python ints or symbolic integers, contents a function from indices to symbolic scalars.

A Buffer owns the contents (an immutable Content, replaced by every write); an SArr is a view of a buffer
(per buffer axis a fixed index or an affine function of one view axis), so aliasing behaves as in numpy.
Element-wise results are evaluated lazily on the contents the operands had when the operation ran."""
import itertools
import math

import numpy as np
import z3

from . import core
from .solve import Order
from .core import (SNum, SBool, SInf, SVal, Unsupported, engine, lift_num, num_op, num_cmp, b_and, b_or, b_not, b_if,
                   zr, num_value, mk_bool, v_if, PY_INT, PY_FLOAT, I8, F8, U1, TRUE, FALSE, is_z3, o_or, o_gate, bool_num)

B1 = "b1"


# ----------------------------------------------------------------------------- dtypes
def dt_of(d):
    """numpy/Python dtype specification -> tag"""
    if d is None:
        return F8
    if isinstance(d, str) and d in (F8, I8, U1, B1):
        return d
    if d is float or d in ("float", "float64", "f8") or d is np.float64:
        return F8
    if d is int or d in ("int", "int64", "i8") or d is np.int64 or d is np.intp:
        return I8
    if d is bool or d is np.bool_ or d == "bool":
        return B1
    if d is np.uint8 or d == "uint8":
        return U1
    for k, t in (("float", F8), ("int", I8), ("bool", B1)):
        if getattr(d, "__vc_builtin__", None) == k:
            return t
    try:
        k = np.dtype(d)
        if k.kind == "f":
            return F8
        if k == np.uint8:
            return U1
        if k.kind in "iu":
            return I8
        if k.kind == "b":
            return B1
    except TypeError:
        pass
    raise Unsupported(f"dtype {d!r}")


NPDT = {F8: np.dtype("f8"), I8: np.dtype("i8"), U1: np.dtype("u1"), B1: np.dtype("?")}


def lift(x):
    """scalar -> SNum/SBool, else None"""
    if isinstance(x, (SNum, SBool)):
        return x
    if isinstance(x, bool):
        return SBool(z3.BoolVal(x))
    if isinstance(x, np.bool_):
        return SBool(z3.BoolVal(bool(x)), True)
    return lift_num(x)


def scalar_dt(v):
    """dtype an array made of this scalar gets"""
    if isinstance(v, SBool):
        return B1
    return core.np_dt(v.dt)


def cast_val(v, dt):
    if dt == B1:
        if isinstance(v, SBool):
            return SBool(v.e, True)
        r = num_cmp("ne", v, SNum(z3.IntVal(0), PY_INT))
        return SBool(r.e if isinstance(r, SBool) else z3.BoolVal(r), True)
    if isinstance(v, SBool):
        v = bool_num(v)
    if isinstance(v, SInf):
        if dt != F8:
            raise Unsupported("infinity cast to an integer")
        return v
    if v.dt == dt:
        return v
    if dt == F8:
        return SNum(zr(v.e), F8, v.undef, v.nan)
    if dt == I8:
        if v.is_int:
            return SNum(v.e, I8, v.undef, v.nan)
        r = core.py_trunc(v)
        return SNum(r.e, I8, o_or(v.undef, v.nan))
    if dt == U1:
        r = core.py_trunc(v)
        return SNum(core.wrap_u1(r.e), U1, o_or(v.undef, v.nan))
    raise Unsupported(dt)


# ----------------------------------------------------------------------------- index arithmetic (int or z3 Int)
def ix(x):
    """Python int or z3 Int from int / SNum / z3"""
    if isinstance(x, SNum):
        if not x.is_int:
            raise Unsupported("real used as an index")
        x = x.e
    if is_z3(x):
        if z3.is_int_value(x):
            return x.as_long()
        s = z3.simplify(x)
        return s.as_long() if z3.is_int_value(s) else s
    return int(x)


def iz(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return ix(iz(a) + iz(b))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return ix(iz(a) - iz(b))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return ix(iz(a) * iz(b))


FLAT = {}       # flat positions of elements: id -> (term, position of the row, index in the row, row length)


def flattened(flat, d, i):
    """position of element i of row `flat` of rows of length d"""
    r = iadd(imul(flat, d), i)
    if not isinstance(r, int) and not isinstance(flat, int):
        if len(FLAT) > 5000:
            FLAT.clear()
        FLAT[r.get_id()] = (r, flat, i, d)
    return r


def icmp(op, a, b):
    """z3 Bool / Python bool"""
    if isinstance(a, int) and isinstance(b, int):
        return {"lt": a < b, "le": a <= b, "eq": a == b}[op]
    if op == "eq" and not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    return {"lt": iz(a) < iz(b), "le": iz(a) <= iz(b), "eq": iz(a) == iz(b)}[op]


def holds(c):
    """decide a condition on the current path (forks if open)"""
    if isinstance(c, bool):
        return c
    return engine().branch(c)


def sure(c):
    """known without forking"""
    if isinstance(c, bool):
        return c
    return engine().known(c)


def isame(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def dim(x):
    """dimension in internal form: int or z3 Int"""
    return ix(x)


def pdim(d):
    """dimension handed to the program"""
    return d if isinstance(d, int) else SNum(d, PY_INT)


def dims_equal(a, b):
    if isame(a, b):
        return True
    return holds(icmp("eq", a, b))


def bcast_dim(a, b):
    if isame(a, b):
        return a
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(a, int) and isinstance(b, int):
        raise ValueError("operands could not be broadcast together")
    if holds(icmp("eq", a, b)):
        return a if isinstance(a, int) else b
    if not isinstance(a, int) and holds(icmp("eq", a, 1)):
        return b
    if not isinstance(b, int) and holds(icmp("eq", b, 1)):
        return a
    raise ValueError("operands could not be broadcast together")


def bcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0:
                d = bcast_dim(d, s[j])
        out.append(d)
    return tuple(out)


def bcast_reader(shape, out):
    """function mapping an index of `out` to an index of `shape` (shape broadcasts to out)"""
    off = len(out) - len(shape)
    plan = []
    for j, d in enumerate(shape):
        o = out[off + j]
        if isame(d, o):
            plan.append((off + j, False))
        elif isinstance(d, int) and d == 1:
            plan.append((off + j, True))
        elif holds(icmp("eq", d, o)):
            plan.append((off + j, False))
        elif holds(icmp("eq", d, 1)):
            plan.append((off + j, True))
        else:
            raise ValueError("could not broadcast input array")
    return lambda idx: tuple(0 if z else idx[p] for p, z in plan)


# ----------------------------------------------------------------------------- contents
class Content:
    """memoised function index tuple -> scalar"""
    __slots__ = ("fn", "memo")

    def __init__(self, fn):
        self.fn, self.memo = fn, {}

    def __call__(self, idx):
        eng = engine()
        # simplifications may use the guards of the enclosing loop body: keep them apart
        k = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)
        if eng.keyguards:
            k = (k, tuple(g.get_id() for g in eng.keyguards))
        r = self.memo.get(k)
        if r is None:
            v = self.fn(idx)
            self.memo[k] = (v, idx, tuple(eng.keyguards))
            return v
        return r[0]


class Buffer:
    __slots__ = ("dt", "shape", "c", "birth", "writes")
    count = 0

    def __init__(self, dt, shape, fn):
        self.dt, self.shape = dt, tuple(shape)
        self.c = fn if isinstance(fn, Content) else Content(fn)
        Buffer.count += 1
        self.birth = Buffer.count
        self.writes = 0

    def set(self, content):
        old = self.c
        eng = engine()
        if eng.nest:
            def undo(self=self, old=old):
                self.c = old
            eng.journal.append(undo)
        self.c = content
        self.writes += 1
        eng.writes.append(self)


class SArr:
    __slots__ = ("buf", "axes", "shp", "sel", "ro", "__weakref__")
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, buf, axes=None, shp=None, sel=None, ro=False):
        self.buf = buf
        if axes is None:
            axes = tuple(("r", k, 0, 1) for k in range(len(buf.shape)))
            shp = buf.shape
        self.axes, self.shp, self.sel, self.ro = tuple(axes), tuple(shp), sel, ro

    # ---- construction
    @staticmethod
    def make(dt, shape, fn):
        return SArr(Buffer(dt, tuple(shape), fn))

    # ---- attributes
    @property
    def shape(self):
        return tuple(pdim(d) for d in self.shp)

    @property
    def ndim(self):
        return len(self.shp)

    @property
    def size(self):
        r = 1
        for d in self.shp:
            r = imul(r, d)
        return pdim(r)

    @property
    def dtype(self):
        return NPDT[self.buf.dt]

    @property
    def dt(self):
        return self.buf.dt

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.ravel()

    @property
    def base(self):
        return None

    def __repr__(self):
        return f"<array {self.buf.dt} {self.shape}>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<array>"

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    def __copy__(self):
        return self.copy()

    def __reduce_ex__(self, p):
        raise Unsupported("pickling of a symbolic array")

    # ---- reading
    def bidx(self, idx):
        return tuple(a[1] if a[0] == "f" else iadd(a[2], imul(a[3], idx[a[1]])) for a in self.axes)

    def at(self, idx):
        """element at an in-range index tuple (ints / z3)"""
        return self.buf.c(self.bidx(idx))

    def frozen(self):
        """reader of the present contents"""
        c, f = self.buf.c, self.bidx
        return lambda idx: c(f(idx))

    def scalar(self, v):
        if isinstance(v, SBool):
            return mk_bool(v.e, True) if not (z3.is_true(v.e) or z3.is_false(v.e)) else np.bool_(z3.is_true(v.e))
        return v

    def __len__(self):
        if not self.shp:
            raise TypeError("len() of unsized object")
        d = self.shp[0]
        if isinstance(d, int):
            return d
        return SNum(d, PY_INT).__index__()

    def __iter__(self):
        if not self.shp:
            raise TypeError("iteration over a 0-d array")
        d = self.shp[0]
        if not isinstance(d, int):
            v = z3.simplify(d)
            if not z3.is_int_value(v):
                c = engine().concretize(SNum(d, PY_INT))
                if c is None:
                    raise Unsupported("iteration over an array of symbolic length")
                d = c
            else:
                d = v.as_long()
        for i in range(d):
            yield self[i]

    def __bool__(self):
        s = self.size
        one = (s == 1)
        if not one:
            if s == 0:
                raise ValueError("truth value of an empty array")
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        v = self.at((0,) * self.ndim)
        return bool(v)

    def _one(self):
        if not (self.size == 1):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.at((0,) * self.ndim)

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        return self._one().__index__()

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]].item()
        v = self._one()
        return v.item()

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, SArr) else (x.item() if hasattr(x, "item") else x) for x in self]

    # ---- indexing
    def _norm_index(self, i, n):
        """index with bounds check and wrap-around"""
        i = ix(i)
        if isinstance(i, int):
            if i >= 0:
                if not holds(icmp("lt", i, n)):
                    raise IndexError(f"index {i} is out of bounds")
                return i
            if not holds(icmp("le", -i, n)):
                raise IndexError(f"index {i} is out of bounds")
            return iadd(n, i)
        engine().use_index(i)
        if holds(z3.And(i >= 0, i < iz(n))):
            return i
        if holds(z3.And(i < 0, i >= -iz(n))):
            return iadd(i, n)
        raise IndexError("index out of bounds")

    @staticmethod
    def _slice(s, n):
        """(start, step, length) of slice s on a dimension n"""
        step = 1 if s.step is None else ix(s.step)
        if not isinstance(step, int):
            raise Unsupported("symbolic slice step")
        if step == 0:
            raise ValueError("slice step cannot be zero")

        def clip(v, lo, hi):
            # lo <= v <= hi
            if not holds(icmp("le", lo, v)):
                return lo
            if not holds(icmp("le", v, hi)):
                return hi
            return v

        def end(v):
            v = ix(v)
            if isinstance(v, int):
                neg = v < 0
            else:
                neg = holds(v < 0)
            if neg:
                v = iadd(v, n)
            return clip(v, 0, n) if step > 0 else clip(v, -1, isub(n, 1))
        if step > 0:
            a = 0 if s.start is None else end(s.start)
            b = n if s.stop is None else end(s.stop)
            if not holds(icmp("le", a, b)):
                return a, step, 0
            ln = isub(b, a)
            if step > 1:
                ln = (ln + step - 1) // step if isinstance(ln, int) else ix((ln + (step - 1)) / step)
            return a, step, ln
        a = isub(n, 1) if s.start is None else end(s.start)
        b = -1 if s.stop is None else end(s.stop)
        if not holds(icmp("le", b, a)):
            return a, step, 0
        ln = isub(a, b)
        if step < -1:
            ln = (ln - step - 1) // (-step) if isinstance(ln, int) else ix((ln + (-step - 1)) / (-step))
        return a, step, ln

    @staticmethod
    def _plain_key(key):
        key = key if isinstance(key, tuple) else (key,)
        out = []
        for k in key:
            if isinstance(k, np.ndarray):
                k = from_native(k) if k.ndim else k[()]
            elif isinstance(k, list):
                k = asarray(k)
            if isinstance(k, SArr) and k.ndim == 0:
                k = k.at(())
            if type(k).__name__ == "SSlice":
                k = slice(k.start, k.stop, k.step)
            out.append(k)
        return out

    def _expand(self, key):
        """expand Ellipsis, pad with full slices"""
        used = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, SArr) and k.buf.dt == B1)) + \
            sum(k.ndim for k in key if isinstance(k, SArr) and k.buf.dt == B1)
        if used > self.ndim:
            raise IndexError("too many indices for array")
        out = []
        seen = False
        for k in key:
            if k is Ellipsis:
                if seen:
                    raise IndexError("an index can only have a single ellipsis")
                seen = True
                out += [slice(None)] * (self.ndim - used)
            else:
                out.append(k)
        if not seen:
            out += [slice(None)] * (self.ndim - used)
        return out

    def basic(self, key):
        """view for a key of integers, slices, None"""
        sub = {}       # view axis -> ("f", e) | ("r", newaxis, start, step)
        shp = []
        ax = 0
        for k in key:
            if k is None:
                shp.append(1)
                continue
            if isinstance(k, slice):
                a, st, ln = self._slice(k, self.shp[ax])
                sub[ax] = ("r", len(shp), a, st)
                shp.append(ln)
            else:
                if isinstance(k, SBool) or isinstance(k, (bool, np.bool_)):
                    raise Unsupported("boolean scalar index")
                if isinstance(k, float) or (isinstance(k, SNum) and not k.is_int):
                    raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
                sub[ax] = ("f", self._norm_index(k, self.shp[ax]))
            ax += 1
        axes = []
        for a in self.axes:
            if a[0] == "f":
                axes.append(a)
                continue
            m = sub[a[1]]
            if m[0] == "f":
                axes.append(("f", iadd(a[2], imul(a[3], m[1]))))
            else:
                axes.append(("r", m[1], iadd(a[2], imul(a[3], m[2])), imul(a[3], m[3])))
        return SArr(self.buf, axes, shp, None, self.ro)

    def __getitem__(self, key):
        key = self._expand(self._plain_key(key))
        if not any(isinstance(k, SArr) for k in key):
            v = self.basic(key)
            if v.ndim == 0 and Ellipsis not in key:
                return self.scalar(v.at(()))
            return v
        return self._advanced(key)

    def _advanced(self, key):
        arrs = [(p, k) for p, k in enumerate(key) if isinstance(k, SArr)]
        if len(arrs) == 1 and arrs[0][1].buf.dt == B1:
            p, m = arrs[0]
            if all(isinstance(k, slice) and k == slice(None) for q, k in enumerate(key) if q != p):
                return mask_select(self, m, p)
            rest = list(key)
            rest[p:p + 1] = [slice(None)] * m.ndim
            v = self.basic([k if isinstance(k, slice) else k for k in rest])
            drop = sum(1 for k in rest[:p] if not isinstance(k, slice))
            if any(not isinstance(k, slice) for k in rest[p + m.ndim:]) or any(k is None for k in rest):
                if any(k is None for k in rest):
                    raise Unsupported("newaxis with mask")
            return mask_select(v, m, p - drop)
        if any(k.buf.dt == B1 for _, k in arrs):
            if len(arrs) > 1:
                raise Unsupported("several mask arrays in one index")
        if any(k.buf.dt == F8 for _, k in arrs):
            if all(sure(icmp("eq", asarray(k).shp[0], 0)) for _, k in arrs if asarray(k).ndim == 1 and k.buf.dt == F8):
                pass
            else:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
        # integer arrays (scalars next to arrays are broadcast)
        if any(k is None for k in key):
            raise Unsupported("newaxis with integer arrays")
        pos = [p for p, k in enumerate(key) if not isinstance(k, slice)]
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        ops = {p: key[p] for p in pos}
        bs = bcast_shapes(*[k.shp if isinstance(k, SArr) else () for k in ops.values()])
        readers = {}
        for p, k in ops.items():
            n = self.shp[p]
            if isinstance(k, SArr):
                rd, mp = k.frozen(), bcast_reader(k.shp, bs)
                check_bounds(k, n)
                readers[p] = (lambda i, rd=rd, mp=mp, n=n: wrap_index(rd(mp(i)), n))
            else:
                e = self._norm_index(k, n)
                readers[p] = (lambda i, e=e: e)
        lead = pos[0] if contiguous else 0
        slices = [(p, self._slice(k, self.shp[p])) for p, k in enumerate(key) if isinstance(k, slice)]
        before = [s for s in slices if s[0] < lead] if contiguous else []
        after = [s for s in slices if s not in before]
        shp = tuple(s[1][2] for s in before) + bs + tuple(s[1][2] for s in after)
        src = self.frozen()
        nb, nbs = len(before), len(bs)

        def fn(idx):
            full = [None] * self.ndim
            bi = idx[nb:nb + nbs]
            for q, (p, (a, st, ln)) in enumerate(before):
                full[p] = iadd(a, imul(st, idx[q]))
            for q, (p, (a, st, ln)) in enumerate(after):
                full[p] = iadd(a, imul(st, idx[nb + nbs + q]))
            for p in pos:
                full[p] = readers[p](bi)
            return src(tuple(full))
        return SArr.make(self.buf.dt, shp, fn)

    def __setitem__(self, key, val):
        if self.ro:
            raise Unsupported("write to a read-only or reshaped view")
        key = self._expand(self._plain_key(key))
        arrs = [(p, k) for p, k in enumerate(key) if isinstance(k, SArr)]
        if not arrs:
            self.basic(key)._write(val)
            return
        if len(arrs) == 1 and arrs[0][1].buf.dt == B1:
            p, m = arrs[0]
            rest = list(key)
            rest[p:p + 1] = [slice(None)] * m.ndim
            v = self.basic(rest)
            drop = sum(1 for k in rest[:p] if not isinstance(k, slice))
            v._mask_write(m, p - drop, val)
            return
        self._scatter(key, val)

    def _value_reader(self, val, shp):
        """reader of val broadcast to shp, cast to this buffer's dtype"""
        dt = self.buf.dt
        s = lift(val)
        if s is not None:
            c = cast_val(s, dt)
            return lambda idx: c
        a = asarray(val)
        while a.ndim > len(shp) and isinstance(a.shp[0], int) and a.shp[0] == 1:
            a = a[0]
        if a.ndim > len(shp):
            raise ValueError("could not broadcast input array")
        # assignment: value dims must be 1 or equal
        off = len(shp) - a.ndim
        for j, d in enumerate(a.shp):
            t = shp[off + j]
            if isame(d, t) or (isinstance(d, int) and d == 1):
                continue
            if holds(icmp("eq", d, t)):
                continue
            if holds(icmp("eq", d, 1)):
                continue
            raise ValueError("could not broadcast input array from one shape into another")
        mp, rd = bcast_reader(a.shp, shp), a.frozen()
        return lambda idx: cast_val(rd(mp(idx)), dt)

    def _locate(self, bidx):
        """(condition, view index) for a buffer index"""
        conds, out = [], [0] * self.ndim
        for b, a in zip(bidx, self.axes):
            if a[0] == "f":
                c = icmp("eq", b, a[1])
                if c is False:
                    return False, None
                if c is not True:
                    conds.append(c)
                continue
            _, ax, start, step = a
            n = self.shp[ax]
            d = isub(b, start)
            if step == 1:
                o = d
            elif step == -1:
                o = isub(start, b)
            elif isinstance(step, int):
                if isinstance(d, int):
                    if d % step:
                        return False, None
                    o = d // step
                else:
                    if step < 0:
                        d, step = isub(start, b), -step
                    conds.append(iz(d) % step == 0)
                    o = ix(iz(d) / step)
            else:
                raise Unsupported("symbolic stride")
            lo, hi = icmp("le", 0, o), icmp("lt", o, n)
            if lo is False or hi is False:
                return False, None
            if not self._covers(a):       # full-range axes need no test
                conds += [c for c in (lo, hi) if c is not True]
            out[ax] = o
        return b_and(*conds), tuple(out)

    def _covers(self, a):
        """does this view axis run over the whole buffer axis?"""
        k = next(i for i, x in enumerate(self.axes) if x is a)
        n = self.buf.shape[k]
        if not isame(self.shp[a[1]], n):
            return False
        if a[3] == 1:
            return isinstance(a[2], int) and a[2] == 0
        if a[3] == -1:
            return isame(a[2], isub(n, 1))
        return False

    def _check_write(self):
        used = [a[1] for a in self.axes if a[0] == "r"]
        if len(set(used)) != len(used):
            raise Unsupported("write through a diagonal view")
        for ax, d in enumerate(self.shp):
            if ax not in used and not (isinstance(d, int) and d == 1):
                raise ValueError("assignment destination is read-only")

    def _write(self, val):
        self._check_write()
        if any(isinstance(d, int) and d == 0 for d in self.shp):
            self._value_reader(val, self.shp)
            return
        rd = self._value_reader(val, self.shp)
        old = self.buf.c
        if not self.axes:
            self.buf.set(Content(lambda b: rd(())))
            return

        def fn(b):
            c, o = self._locate(b)
            if c is False or z3.is_false(c):
                return old(b)
            if z3.is_true(c):
                return rd(o)
            s = z3.simplify(c)
            if z3.is_false(s):
                return old(b)
            if z3.is_true(s):
                return rd(o)
            return v_if(c, rd(o), old(b))
        self.buf.set(Content(fn))

    def _mask_write(self, m, p, val):
        """self[.., m, ..] = val, the mask covering axes p .. p+m.ndim-1"""
        self._check_write()
        for j, d in enumerate(m.shp):
            if not dims_equal(d, self.shp[p + j]):
                raise IndexError("boolean index did not match indexed array")
        md = m.frozen()
        old = self.buf.c
        nm = m.ndim
        s = lift(val)
        if s is not None or asarray(val).ndim == 0:
            rd = self._value_reader(val, ())
            get = lambda o: rd(())
        else:
            sel = mask_selection(m)
            a = asarray(val)
            shp = self.shp[:p] + (sel.n,) + self.shp[p + nm:]
            if isinstance(a.shp, tuple) and a.ndim and a.sel is not None and a.sel is not sel and sel_same(a.sel, sel):
                pass
            rd = self._value_reader(a, shp)
            get = lambda o: rd(o[:p] + (sel.rank(o[p:p + nm]),) + o[p + nm:])

        def fn(b):
            c, o = self._locate(b)
            if c is False:
                return old(b)
            mv = md(o[p:p + nm]).e
            c = b_and(c, mv)
            if z3.is_false(c):
                return old(b)
            if z3.is_true(c):
                return get(o)
            return v_if(c, get(o), old(b))
        self.buf.set(Content(fn))

    def _scatter(self, key, val):
        pos = [p for p, k in enumerate(key) if not isinstance(k, slice)]
        if any(k is None for k in key):
            raise Unsupported("newaxis in scatter")
        bs = bcast_shapes(*[key[p].shp if isinstance(key[p], SArr) else () for p in pos])
        # indices that come from one selection (np.where) are injective with a known inverse
        selk = [key[p] for p in pos]
        if all(isinstance(k, SArr) and k.sel is not None and selk[0].sel is not None and k.sel[0] is selk[0].sel[0] for k in selk) and \
                [k.sel[1] for k in selk] == list(range(selk[0].sel[0].nd)) and pos == list(range(pos[0], pos[0] + len(pos))):
            sel = selk[0].sel[0]
            if all(dims_equal(self.shp[p], d) for p, d in zip(pos, sel.shp)):
                self.basic([slice(None) if p in pos else k for p, k in enumerate(key)])._mask_write(sel.mask_arr(), pos[0], val)
                return
        if len(bs) and all(isinstance(d, int) for d in bs):
            vr = None
            flat = list(itertools.product(*[range(d) for d in bs]))
            if lift(val) is None:
                a = asarray(val)
            for q, bi in enumerate(flat):
                sub = []
                for p, k in enumerate(key):
                    if isinstance(k, slice):
                        sub.append(k)
                    elif isinstance(k, SArr):
                        sub.append(SNum(iz(wrapi(k.at(bcast_reader(k.shp, bs)(bi)))), I8))
                    else:
                        sub.append(k)
                if lift(val) is not None:
                    v = val
                else:
                    nsl = sum(isinstance(k, slice) for k in key)
                    if a.ndim <= nsl:
                        v = a
                    elif nsl == 0:
                        v = a.at(bcast_reader(a.shp, bs)(bi))
                    else:
                        raise Unsupported("scatter of this shape")
                self[tuple(sub)] = v
            return
        if len(bs) == 1 and len(pos) > 1 and self._scatter_by_row(key, val, pos, bs):
            return
        if len(bs) == 1 and len(pos) == 1 and self.ndim == 1:
            # general scatter along one axis: which element ends up at i is witnessed by a fresh function
            k = key[pos[0]]
            eng = engine()
            n, m = self.shp[0], bs[0]
            check_bounds(k, n)
            rdk = k.frozen()
            rd = self._value_reader(val, bs)
            hit, hf = eng.fresh_fun("hit", [z3.IntSort()], z3.BoolSort())
            src, sf = eng.fresh_fun("src", [z3.IntSort()], z3.IntSort())
            i, j = eng.key("i"), eng.key("j")
            ki = wrap_index(rdk((j,)), n)
            si = src(i)
            at_s = wrap_index(rdk((si,)), n)
            eng.add_fact([i], z3.Implies(hit(i), z3.And(si >= 0, si < iz(m), iz(at_s) == i)),
                         (hf.name(), tuple(eng.keystack) + (i,)))
            body = z3.Implies(z3.And(j >= 0, j < iz(m)), z3.And(hit(iz(ki)), z3.Implies(z3.BoolVal(True), src(iz(ki)) >= j)))
            eng.add_fact([j], body, auto_trigger(body, [j]))
            old = self.buf.c

            def fn(b):
                c, o = self._locate(b)
                if c is False:
                    return old(b)
                h = hit(iz(o[0]))
                return v_if(b_and(c, h), rd((src(iz(o[0])),)), old(b))
            self.buf.set(Content(fn))
            return
        raise Unsupported("scatter with symbolic index arrays")

    def _scatter_by_row(self, key, val, pos, bs):
        """self[rows, f(rows)] = val, where rows is a range, or the part of a range that a mask selects"""
        ks = [key[p] for p in pos]
        if not all(isinstance(k, SArr) and k.ndim == 1 for k in ks) or any(isinstance(k, slice) for k in key):
            return False
        if all(k.sel is not None and not isinstance(k.sel[1], int) and k.sel[0] is ks[0].sel[0] for k in ks):
            sel, srcs = ks[0].sel[0], [k.sel[1] for k in ks]
        elif all(k.sel is None for k in ks) and all(isame(k.shp[0], bs[0]) for k in ks):
            sel, srcs = None, [k.frozen() for k in ks]
        else:
            return False
        t = engine().key("row")
        rows = [q for q, f in enumerate(srcs) if z3.simplify(iz(ix(f((t,))))).eq(t)]
        if not rows or not dims_equal(self.shp[pos[rows[0]]], sel.shp[0] if sel is not None else bs[0]):
            return False
        row = rows[0]
        for q, k in enumerate(ks):
            if q != row:
                check_bounds(k, self.shp[pos[q]])
        rd = self._value_reader(val, bs)
        old = self.buf.c

        def fn(b):
            c, o = self._locate(b)
            if c is False:
                return old(b)
            r = o[pos[row]]
            if sel is not None:
                c = b_and(c, sel.rd((r,)).e)
            for q, p in enumerate(pos):
                if q != row:
                    c = b_and(c, iz(wrap_index(srcs[q]((r,)), self.shp[p])) == iz(o[p]))
            c = z3.simplify(c)
            if z3.is_false(c):
                return old(b)
            new = rd((sel.rank((r,)) if sel is not None else r,))
            return new if z3.is_true(c) else v_if(c, new, old(b))
        self.buf.set(Content(fn))
        return True

    # ---- element-wise
    def _bin(self, o, op, swap=False):
        a, b = (o, self) if swap else (self, o)
        return binop(op, a, b)

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._bin(o, "add", True)
    def __sub__(self, o): return self._bin(o, "sub")
    def __rsub__(self, o): return self._bin(o, "sub", True)
    def __mul__(self, o): return self._bin(o, "mul")
    def __rmul__(self, o): return self._bin(o, "mul", True)
    def __truediv__(self, o): return self._bin(o, "div")
    def __rtruediv__(self, o): return self._bin(o, "div", True)
    def __floordiv__(self, o): return self._bin(o, "floordiv")
    def __rfloordiv__(self, o): return self._bin(o, "floordiv", True)
    def __mod__(self, o): return self._bin(o, "mod")
    def __rmod__(self, o): return self._bin(o, "mod", True)
    def __pow__(self, o): return self._bin(o, "pow")
    def __rpow__(self, o): return self._bin(o, "pow", True)
    def __lt__(self, o): return self._bin(o, "lt")
    def __le__(self, o): return self._bin(o, "le")
    def __gt__(self, o): return self._bin(o, "gt")
    def __ge__(self, o): return self._bin(o, "ge")
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return binop("eq", self, float("nan"))
        return self._bin(o, "eq")
    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return binop("ne", self, float("nan"))
        return self._bin(o, "ne")
    def __and__(self, o): return binop("and", self, o)
    def __rand__(self, o): return binop("and", o, self)
    def __or__(self, o): return binop("or", self, o)
    def __ror__(self, o): return binop("or", o, self)
    def __xor__(self, o): return binop("xor", self, o)
    def __divmod__(self, o): return self // o, self % o
    def __matmul__(self, o): return dot(self, asarray(o))
    def __rmatmul__(self, o): return dot(asarray(o), self)

    def _ibin(self, o, op):
        r = binop(op, self, o)
        if self.buf.dt != r.buf.dt and not (self.buf.dt == F8) and not (self.buf.dt == I8 and r.buf.dt in (B1, U1)):
            raise TypeError("Cannot cast ufunc output")
        if len(r.shp) != self.ndim:
            raise ValueError("non-broadcastable output operand")
        self._write(r)
        return self

    def __iadd__(self, o): return self._ibin(o, "add")
    def __isub__(self, o): return self._ibin(o, "sub")
    def __imul__(self, o): return self._ibin(o, "mul")
    def __itruediv__(self, o): return self._ibin(o, "div")
    def __ifloordiv__(self, o): return self._ibin(o, "floordiv")
    def __ipow__(self, o): return self._ibin(o, "pow")
    def __iand__(self, o): return self._ibin(o, "and")
    def __ior__(self, o): return self._ibin(o, "or")

    def __neg__(self): return self.map(lambda v: num_op("sub", zero_like(v), v))
    def __pos__(self): return self.copy()
    def __abs__(self): return self.map(abs)

    def __invert__(self):
        if self.buf.dt != B1:
            raise Unsupported("~ on integers")
        return self.map(lambda v: SBool(b_not(v.e), True))

    def map(self, f, dt=None):
        rd = self.frozen()
        return SArr.make(dt or self.buf.dt, self.shp, lambda idx: f(rd(idx)))

    # ---- shape changing
    def transpose(self, *ax):
        if ax and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        perm = list(ax) if ax else list(range(self.ndim))[::-1]
        perm = [p % self.ndim for p in perm]
        inv = {p: i for i, p in enumerate(perm)}
        axes = [a if a[0] == "f" else ("r", inv[a[1]], a[2], a[3]) for a in self.axes]
        return SArr(self.buf, axes, [self.shp[p] for p in perm], None, self.ro)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def copy(self, order=None):
        whole = len(self.shp) == len(self.buf.shape) and all(
            a[0] == "r" and a[1] == k and isinstance(a[2], int) and a[2] == 0 and a[3] == 1 for k, a in enumerate(self.axes)) and \
            all(isame(x, y) for x, y in zip(self.shp, self.buf.shape))
        r = SArr(Buffer(self.buf.dt, self.shp, self.buf.c if whole else self.frozen()))
        r.sel = self.sel
        return r

    def astype(self, dt, copy=True):
        t = dt_of(dt)
        if t == self.buf.dt and not copy:
            return self
        rd = self.frozen()
        r = SArr.make(t, self.shp, lambda idx: cast_val(rd(idx), t))
        r.sel = self.sel
        return r

    def ravel(self):
        if self.ndim == 1:
            return self
        return self.reshape(-1)

    def flatten(self):
        return self.reshape(-1).copy()

    def reshape(self, *shape, order=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SArr)):
            shape = tuple(shape[0])
        shape = [ix(s) for s in shape]
        if sum(1 for s in shape if isinstance(s, int) and s == -1) > 1:
            raise ValueError("can only specify one unknown dimension")
        mine = list(self.shp)
        big = lambda ds: [d for d in ds if not (isinstance(d, int) and d == 1)]
        if -1 in [s for s in shape if isinstance(s, int)]:
            k = [j for j, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
            rest = [s for j, s in enumerate(shape) if j != k]
            rb, mb = big(rest), big(mine)
            left = list(mb)
            ok = True
            for d in rb:
                for q, e in enumerate(left):
                    if isame(d, e):
                        left.pop(q)
                        break
                else:
                    ok = False
            if ok:
                r = 1
                for d in left:
                    r = imul(r, d)
                shape[k] = r
            elif all(isinstance(d, int) for d in mine + rest):
                t, u = math.prod(mine), math.prod(rest)
                if u == 0 or t % u:
                    raise ValueError("cannot reshape array")
                shape[k] = t // u
            else:
                raise Unsupported("reshape of symbolic dimensions")
        a, b = big(mine), big(shape)
        if len(a) == len(b) and all(dims_equal(x, y) for x, y in zip(a, b)):
            # only size-one axes are added or dropped: a view
            src = [j for j, d in enumerate(mine) if not (isinstance(d, int) and d == 1)]
            dst = [j for j, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
            mp = dict(zip(src, dst))
            axes = []
            for x in self.axes:
                if x[0] == "f":
                    axes.append(x)
                elif x[1] in mp:
                    axes.append(("r", mp[x[1]], x[2], x[3]))
                else:
                    axes.append(("f", x[2]))
            return SArr(self.buf, axes, shape, None, self.ro)
        if all(isinstance(d, int) for d in mine + shape):
            if math.prod(mine) != math.prod(shape):
                raise ValueError("cannot reshape array")
        else:
            # drop a symbolic size-one axis if it is known to be one
            for j, d in enumerate(mine):
                if not isinstance(d, int) and sure(icmp("eq", d, 1)):
                    m2 = list(mine)
                    m2[j] = 1
                    axes = [x if x[0] == "f" or x[1] != j else ("f", x[2]) for x in self.axes]
                    return SArr(self.buf, axes, m2, None, self.ro).reshape(*[pdim(s) for s in shape])
            t, u = 1, 1
            for d in mine:
                t = imul(t, d)
            for d in shape:
                u = imul(u, d)
            if not holds(icmp("eq", t, u)):
                raise ValueError("cannot reshape array")
        rd = self.frozen()

        def fn(idx):
            flat = idx[0] if len(shape) == 1 else None
            if flat is None:
                flat = 0
                for d, i in zip(shape, idx):
                    flat = flattened(flat, d, i)
            out = []
            for d in reversed(mine[1:]):
                if not isinstance(flat, int) and flat.get_id() in FLAT and isame(FLAT[flat.get_id()][3], d):
                    _, flat, i, _ = FLAT[flat.get_id()]
                    out.append(i)
                elif isinstance(flat, int) and isinstance(d, int):
                    out.append(flat % d)
                    flat //= d
                else:
                    out.append(ix(iz(flat) % iz(d)))
                    flat = ix(iz(flat) / iz(d))
            out.append(flat)
            return rd(tuple(reversed(out)))
        return SArr(Buffer(self.buf.dt, tuple(shape), fn), ro=True)

    def squeeze(self, axis=None):
        if axis is not None:
            raise Unsupported("squeeze(axis)")
        for d in self.shp:
            if not isinstance(d, int):
                raise Unsupported("squeeze with symbolic dimensions")
        return self.reshape(*[d for d in self.shp if d != 1])

    def fill(self, v):
        self._write(v)

    def sort(self):
        self._write(sort1(self))

    # ---- reductions
    def sum(self, axis=None, **k): return reduce_sum(self, axis)
    def mean(self, axis=None): return reduce_sum(self, axis) / (self.size if axis is None else pdim(self.shp[axis]))
    def prod(self, axis=None): return reduce_fold(self, axis, "mul")
    def min(self, axis=None, **k): return reduce_minmax(self, axis, "min")
    def max(self, axis=None, **k): return reduce_minmax(self, axis, "max")
    def any(self, axis=None, **k): return reduce_any(self, axis, False)
    def all(self, axis=None, **k): return reduce_any(self, axis, True)
    def argmin(self, axis=None): return arg_minmax(self, "min", axis)
    def argmax(self, axis=None): return arg_minmax(self, "max", axis)

    def dot(self, o): return dot(self, asarray(o))

    def nonzero(self): return where1(self != 0 if self.buf.dt != B1 else self)

    def substituted(self, pairs):
        rd = self.frozen()
        keys = [p[0] for p in pairs]
        sub = lambda d: d if isinstance(d, int) else ix(z3.substitute(d, *pairs))
        shp = [sub(d) for d in self.shp]

        def fn(idx):
            # decisions inside are taken for the values that go in for the keys
            outs = engine().nested(lambda: rd(idx), [], b_and(*[p[0] == p[1] for p in pairs]))
            return core.subst(core.merge_values(outs) if outs else rd(idx), pairs)
        # indices must not themselves contain the substituted keys
        return SArr.make(self.buf.dt, shp, fn)

    def __contains__(self, v):
        return bool(reduce_any(self == v, None, False))


def zero_like(v):
    return SNum(z3.IntVal(0) if v.is_int else z3.RealVal(0), v.dt)


def wrapi(v):
    return ix(v)


def wrap_index(v, n):
    """non-negative index for a (bounds-checked) index value"""
    i = ix(v)
    if isinstance(i, int):
        return i if i >= 0 else iadd(n, i)
    if sure(i >= 0):
        return i
    if sure(i < 0):
        return iadd(i, n)
    return ix(z3.If(i >= 0, i, i + iz(n)))


def check_bounds(k, n):
    """IndexError if an element of the index array k is out of range for n"""
    if any(isinstance(d, int) and d == 0 for d in k.shp):
        return
    if k.sel is not None and isinstance(k.sel[1], int):
        s, ax = k.sel
        if sure(icmp("le", s.shp[ax], n)):
            return
    if all(isinstance(d, int) for d in k.shp):
        for i in itertools.product(*[range(d) for d in k.shp]):
            v = iz(ix(k.at(i)))
            if not holds(z3.simplify(z3.And(v < iz(n), v >= -iz(n)))):
                raise IndexError("index out of bounds")
        return
    eng = engine()
    keys = [eng.key("b") for _ in k.shp]
    g = b_and(*[z3.And(q >= 0, q < iz(d)) for q, d in zip(keys, k.shp)])
    eng.keyguards.append(g)
    try:
        v = iz(ix(k.at(tuple(keys))))
        ok = eng.prove(z3.And(v < iz(n), v >= -iz(n))) == "proved"
    finally:
        eng.keyguards.pop()
    if not ok:
        raise Unsupported("index array that cannot be shown to be in range")


# ----------------------------------------------------------------------------- construction
def from_native(a):
    a = np.asarray(a)
    dt = dt_of(a.dtype)
    shape = tuple(int(s) for s in a.shape)
    a = a.copy()

    def rec(sub, idx, d):
        if d == len(shape):
            return cast_val(lift(sub[()] if isinstance(sub, np.ndarray) else sub), dt)
        i = idx[d]
        if isinstance(i, int):
            return rec(sub[i], idx, d + 1)
        r = rec(sub[shape[d] - 1], idx, d + 1)
        for q in range(shape[d] - 2, -1, -1):
            r = v_if(i == q, rec(sub[q], idx, d + 1), r)
        return r
    return SArr.make(dt, shape, lambda idx: rec(a, idx, 0))


def asarray(x, dt=None):
    if isinstance(x, SArr):
        return x if dt is None or dt_of(dt) == x.buf.dt else x.astype(dt)
    return array(x, dt)


def array(x, dt=None):
    """np.array: always a copy"""
    if isinstance(x, SArr):
        return x.astype(dt) if dt is not None else x.copy()
    if isinstance(x, np.ndarray):
        r = from_native(x)
        return r if dt is None else r.astype(dt)
    if isinstance(x, SymSeq):
        r = x.stack()
        return r if dt is None else r.astype(dt)
    s = lift(x)
    if s is not None:
        t = scalar_dt(s) if dt is None else dt_of(dt)
        c = cast_val(s, t)
        return SArr.make(t, (), lambda idx: c)
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return SArr.make(dt_of(dt), (0,), lambda idx: SNum(z3.RealVal(0), F8))
        items = [y if lift(y) is not None else asarray(y) for y in x]
        scal = [lift(y) is not None for y in items]
        if all(scal):
            vs = [lift(y) for y in items]
            t = join_dts([scalar_dt(v) for v in vs]) if dt is None else dt_of(dt)
            vs = [cast_val(v, t) for v in vs]
            return SArr.make(t, (len(vs),), lambda idx: chain(vs, idx[0]))
        items = [asarray(y) if s else y for y, s in zip(items, scal)]
        nd = {y.ndim for y in items}
        if len(nd) > 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        shp = items[0].shp
        for y in items[1:]:
            for p, q in zip(shp, y.shp):
                if not dims_equal(p, q):
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        t = join_dts([y.buf.dt for y in items]) if dt is None else dt_of(dt)
        rds = [y.frozen() for y in items]

        def fn(idx):
            i = idx[0]
            if isinstance(i, int):
                return cast_val(rds[i](idx[1:]), t)
            return chain([cast_val(r(idx[1:]), t) for r in rds], i)
        return SArr.make(t, (len(items),) + tuple(shp), fn)
    raise Unsupported(f"array of {type(x).__name__}")


def chain(vs, i):
    if isinstance(i, int):
        return vs[i]
    r = vs[-1]
    for q in range(len(vs) - 2, -1, -1):
        r = v_if(i == q, vs[q], r)
    return r


def join_dts(ds):
    s = set(ds)
    if F8 in s:
        return F8
    if I8 in s:
        return I8
    if U1 in s:
        return U1
    return B1


def full(shape, v, dt=None):
    shape = shape_arg(shape)
    s = lift(v)
    if s is None:
        a = asarray(v)
        t = a.buf.dt if dt is None else dt_of(dt)
        r = SArr.make(t, shape, lambda idx: None)
        r._write(a)
        return r
    t = scalar_dt(s) if dt is None else dt_of(dt)
    c = cast_val(s, t)
    return SArr.make(t, shape, lambda idx: c)


def shape_arg(shape):
    if isinstance(shape, (tuple, list)):
        ds = [ix(s) for s in shape]
    elif isinstance(shape, SArr):
        ds = [ix(s) for s in shape]
    else:
        if isinstance(shape, float) or (isinstance(shape, SNum) and not shape.is_int):
            raise TypeError("'float' object cannot be interpreted as an integer")
        ds = [ix(shape)]
    for d in ds:
        if not holds(icmp("le", 0, d)):
            raise ValueError("negative dimensions are not allowed")
    return tuple(ds)


# ----------------------------------------------------------------------------- element-wise
def operand(x):
    """(shape, reader, dt, weak) of an operand"""
    if isinstance(x, SArr):
        return x.shp, x.frozen(), x.buf.dt
    s = lift(x)
    if s is not None:
        return (), (lambda idx: s), (B1 if isinstance(s, SBool) else s.dt)
    if isinstance(x, (list, tuple, np.ndarray, SymSeq)):
        a = asarray(x)
        return a.shp, a.frozen(), a.buf.dt
    raise TypeError(f"unsupported operand type for array arithmetic: {type(x).__name__}")


def elementwise(f, dt, *xs, sel=None):
    ops = [operand(x) for x in xs]
    out = bcast_shapes(*[o[0] for o in ops])
    mps = [bcast_reader(o[0], out) if o[0] else None for o in ops]
    rds = [o[1] for o in ops]

    def fn(idx):
        return f(*[r(m(idx) if m else ()) for r, m in zip(rds, mps)])
    return SArr.make(dt, out, fn)


_CMP = ("lt", "le", "gt", "ge", "eq", "ne")


def num_of(v):
    return bool_num(v) if isinstance(v, SBool) else v


def to_b(v):
    """bool value -> SBool(np)"""
    if isinstance(v, SBool):
        return SBool(v.e, True)
    return SBool(z3.BoolVal(bool(v)), True)


def binop(op, a, b):
    da, db = operand(a)[2], operand(b)[2]
    if op in _CMP:
        return elementwise(lambda x, y: to_b(num_cmp(op, num_of(x), num_of(y))), B1, a, b)
    if op in ("and", "or", "xor"):
        if da == B1 and db == B1:
            f = {"and": lambda x, y: b_and(x.e, y.e), "or": lambda x, y: b_or(x.e, y.e), "xor": lambda x, y: z3.Xor(x.e, y.e)}[op]
            return elementwise(lambda x, y: SBool(f(x, y), True), B1, a, b)
        if op == "and" and B1 in (da, db):
            t = core.np_dt(db if da == B1 else da)
            if t == F8:
                raise TypeError("ufunc 'bitwise_and' not supported for the input types")
            return elementwise(lambda x, y: core.bit_and(x, y), t, a, b)
        raise Unsupported("bitwise operation on integers")
    if da == B1 and db == B1:
        if op == "mul":
            return elementwise(lambda x, y: SBool(b_and(x.e, y.e), True), B1, a, b)
        if op == "add":
            return elementwise(lambda x, y: SBool(b_or(x.e, y.e), True), B1, a, b)
        if op == "sub":
            raise TypeError("numpy boolean subtract")
    ea, eb = (I8 if da == B1 else da), (I8 if db == B1 else db)
    t = F8 if op == "div" else core.np_dt(core.promote(ea, eb))

    def f(x, y):
        r = num_op(op, np_scalar(num_of(x)), np_scalar(num_of(y)))
        return cast_val(r, t)
    if t == U1:
        f = lambda x, y: num_op(op, x, y)
    return elementwise(f, t, a, b)


def np_scalar(v):
    """operand of an array operation: division by zero gives nan/inf, no exception"""
    if isinstance(v, SInf):
        return v
    if v.dt == PY_FLOAT:
        return SNum(v.e, F8, v.undef, v.nan)
    if v.dt == PY_INT:
        return SNum(v.e, I8, v.undef, v.nan)
    return v


def where3(c, a, b):
    if not any(isinstance(x, SArr) for x in (c, a, b)):
        a2, b2, c2 = lift(a), lift(b), lift(c)
        if None not in (a2, b2, c2):
            c2 = cast_val(c2, B1)
            return v_if(c2.e, a2, b2)
    da, db = operand(a)[2], operand(b)[2]
    t = B1 if da == B1 and db == B1 else core.np_dt(core.promote(I8 if da == B1 else da, I8 if db == B1 else db))
    return elementwise(lambda k, x, y: v_if(cast_val(k, B1).e, cast_val(x, t), cast_val(y, t)), t, c, a, b)


def where_arr(c, a, b):
    """merge of two arrays under a z3 condition (nested exploration)"""
    if a.ndim != b.ndim or not all(dims_equal_quiet(x, y) for x, y in zip(a.shp, b.shp)):
        raise Unsupported("merge of arrays of different shape")
    if a.buf.dt != b.buf.dt:
        raise Unsupported("merge of arrays of different dtype")
    ra, rb = a.frozen(), b.frozen()
    return SArr.make(a.buf.dt, a.shp, lambda idx: v_if(c, ra(idx), rb(idx)))


def dims_equal_quiet(a, b):
    return isame(a, b) or sure(icmp("eq", a, b))


# ----------------------------------------------------------------------------- triggers
def auto_trigger(body, keys):
    """applications in body that mention every key as a bare argument (or key + constant)"""
    ids = {k.get_id() for k in keys}
    best = []
    for t in core.solve.subterms([body]):
        if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() not in core.solve.MATH:
            got = set()
            for a in t.children():
                if a.get_id() in ids:
                    got.add(a.get_id())
                elif z3.is_add(a) and a.num_args() == 2:
                    for u, v in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                        if u.get_id() in ids and z3.is_int_value(v):
                            got.add(u.get_id())
            if got == ids:
                best.append((t.decl().name(), tuple(t.children())))
    if not best:
        return None
    return best


# ----------------------------------------------------------------------------- selections
class Selection:
    """The positions where a mask holds, in row-major order: n of them, sel_d(k), and the inverse rank(idx)."""

    def __init__(self, mask):
        eng = engine()
        self.nd, self.shp = mask.ndim, mask.shp
        self.rd = mask.frozen()
        self.mask_dt = B1
        I = z3.IntSort()
        self.n = eng.fresh("nsel", I)
        self.sels = [eng.fresh_fun(f"sel{d}", [I], I) for d in range(self.nd)]
        self.rk = eng.fresh_fun("rank", [I] * self.nd, I)
        eng.assume(self.n >= 0)
        tot = 1
        for d in self.shp:
            tot = imul(tot, d)
        eng.assume(self.n <= iz(tot))
        ks = tuple(eng.keystack)
        k = eng.key("s")
        idx = tuple(f(k) for f, _ in self.sels)
        m = self.rd(idx).e
        body = z3.Implies(z3.And(k >= 0, k < self.n),
                          b_and(m, *[z3.And(i >= 0, i < iz(d)) for i, d in zip(idx, self.shp)], self.rk[0](*idx) == k))
        eng.add_fact([k], body, [(f.name(), ks + (k,)) for _, f in self.sels])
        self.use = k
        # positions -> ranks
        js = [eng.key("p") for _ in self.shp]
        r = self.rk[0](*js)
        inr = b_and(*[z3.And(j >= 0, j < iz(d)) for j, d in zip(js, self.shp)])
        mj = self.rd(tuple(js)).e
        body = z3.Implies(b_and(inr, mj), b_and(r >= 0, r < self.n, *[f(r) == j for (f, _), j in zip(self.sels, js)]))
        trg = [(self.rk[1].name(), ks + tuple(js))]
        t2 = auto_trigger(mj, js)
        if t2:
            trg += t2
        eng.add_fact(js, body, trg)
        # order (row-major): one axis only
        if self.nd == 1:
            a, b = eng.key("a"), eng.key("b")
            f = self.sels[0][0]
            eng.sel_order = getattr(eng, "sel_order", [])
            eng.add_fact([a, b], z3.Implies(z3.And(0 <= a, a < b, b < self.n), f(a) < f(b)),
                         Order(self.sels[0][1].name(), self.rk[1].name()))

    def rank(self, idx):
        return self.rk[0](*[iz(i) for i in idx])

    def pos(self, k):
        """index tuple of the k-th selected position"""
        if not isinstance(k, int) and k.decl().eq(self.rk[1]):
            args = k.children()
            return tuple(ix(a) for a in args[len(args) - self.nd:])
        return tuple(ix(f(iz(k))) for f, _ in self.sels)

    def mask_arr(self):
        return SArr.make(B1, self.shp, self.rd)


def sel_same(a, b):
    return a is b


def small_mask(m):
    if all(isinstance(d, int) for d in m.shp) and math.prod(m.shp) <= 64:
        idxs = list(itertools.product(*[range(d) for d in m.shp]))
        es = [m.at(i).e for i in idxs]
        open_ = [e for e in es if not (z3.is_true(z3.simplify(e)) or z3.is_false(z3.simplify(e)))]
        if len(open_) <= 9:
            return [i for i, e in zip(idxs, es) if holds(z3.simplify(e) if not z3.is_true(e) else True)]
    return None


def mask_selection(m):
    """one Selection per mask (memoised on the mask's terms)"""
    eng = engine()
    keys = [z3.Int(f"msk!{d}") for d in range(m.ndim)]
    sig = m.at(tuple(keys)).e
    memo = eng.__dict__.setdefault("_selmemo", {})
    if memo.get("path") != eng.n_paths:
        memo.clear()
        memo["path"] = eng.n_paths
    k = (sig.get_id(), tuple(d if isinstance(d, int) else d.get_id() for d in m.shp), len(eng.keystack))
    if k not in memo:
        memo[k] = (Selection(m), sig)
    return memo[k][0]


def mask_select(a, m, p):
    """a[.., m, ..]"""
    nm = m.ndim
    for j, d in enumerate(m.shp):
        if not dims_equal(d, a.shp[p + j]):
            raise IndexError("boolean index did not match indexed array along axis")
    src = a.frozen()
    lst = small_mask(m)
    if lst is not None:
        def fn(idx):
            return chain([src(idx[:p] + t + idx[p + 1:]) for t in lst], idx[p])
        return SArr.make(a.buf.dt, a.shp[:p] + (len(lst),) + a.shp[p + nm:], fn)
    sel = mask_selection(m)

    def fn(idx):
        return src(idx[:p] + sel.pos(idx[p]) + idx[p + 1:])
    r = SArr.make(a.buf.dt, a.shp[:p] + (sel.n,) + a.shp[p + nm:], fn)
    if nm == 1 and a.ndim == 1:
        r.sel = (sel, src)
    return r


def where1(m):
    """np.where(mask) / nonzero"""
    m = asarray(m)
    if m.buf.dt != B1:
        m = m != 0
    if m.ndim == 0:
        raise Unsupported("nonzero on 0d")
    lst = small_mask(m)
    if lst is not None:
        return tuple(from_native(np.array([t[d] for t in lst], dtype=int)) for d in range(m.ndim))
    sel = mask_selection(m)
    out = []
    for d in range(m.ndim):
        r = SArr.make(I8, (sel.n,), lambda idx, d=d: SNum(iz(sel.pos(idx[0])[d]), I8))
        r.sel = (sel, d)
        out.append(r)
    return tuple(out)


# ----------------------------------------------------------------------------- reductions
def all_idx(shp):
    return itertools.product(*[range(d) for d in shp])


def norm_axis(a, axis):
    """axes reduced over"""
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, tuple):
        return sorted(x % a.ndim for x in axis)
    axis = int(axis)
    if not -a.ndim <= axis < a.ndim:
        raise ValueError(f"axis {axis} is out of bounds for array of dimension {a.ndim}")
    return [axis % a.ndim]


def reduce_with(a, axis, conc, symb, dt):
    """conc(list of values) for concrete lengths; symb(reader over reduced keys, dims, outer idx count) otherwise"""
    axs = norm_axis(a, axis)
    red = [a.shp[x] for x in axs]
    keep = [x for x in range(a.ndim) if x not in axs]
    rd = a.frozen()

    def put(o, r):
        idx = [None] * a.ndim
        for x, v in zip(keep, o):
            idx[x] = v
        for x, v in zip(axs, r):
            idx[x] = v
        return rd(tuple(idx))
    shp = tuple(a.shp[x] for x in keep)
    if all(isinstance(d, int) for d in red):
        if not keep:
            return conc([put((), r) for r in all_idx(red)])
        return SArr.make(dt, shp, lambda o: conc([put(o, r) for r in all_idx(red)]))
    return symb(put, red, shp, keep)


def reduce_sum(a, axis=None):
    a = asarray(a)
    dt = F8 if a.buf.dt == F8 else I8

    def conc(vs):
        r = SNum(z3.IntVal(0) if dt == I8 else z3.RealVal(0), dt)
        for v in vs:
            r = num_op("add", r, cast_val(v, dt))
        return r

    def symb(put, red, shp, keep):
        def one(o):
            return sum_term(red, lambda r: cast_val(put(o, r), dt), dt)
        if not keep:
            return one(())
        return SArr.make(dt, shp, one)
    return reduce_with(a, axis, conc, symb, dt)


def sum_term(red, f, dt):
    """sum over the index box `red` of f(r): an uninterpreted value per (box, summand), with constant factors and
    summands without the index taken out"""
    eng = engine()
    keys = [z3.Int(f"sum!{q}") for q in range(len(red))]
    v = f(tuple(keys))
    e = z3.simplify(v.e, som=True)
    cnt = 1
    for d in red:
        cnt = imul(cnt, d)
    tot = None
    parts = e.children() if z3.is_add(e) else [e]
    for t in parts:
        s = _sum_part(t, keys, red, cnt, dt)
        tot = s if tot is None else tot + s
    und = v.undef
    if und is not None:
        box = b_and(*[z3.And(k >= 0, k < iz(d)) for k, d in zip(keys, red)])
        if eng.prove(b_or(b_not(box), b_not(und))) == "proved":
            und = None
    r = SNum(tot, dt, None if und is None else eng.fresh_bool_for(("sumu", und)), None if v.nan is None else eng.fresh_bool_for(("sumn", v.nan)))
    return r


def _factors(t, keys):
    """t as a product (a quotient by a term without keys gives a factor of its own; its being zero is recorded elsewhere)"""
    if z3.is_mul(t):
        return [f for c in t.children() for f in _factors(c, keys)]
    if z3.is_div(t) and not core.solve.contains(t.arg(1), keys):
        return _factors(t.arg(0), keys) + [1 / t.arg(1)]
    return [t]


def _sum_part(t, keys, red, cnt, dt):
    eng = engine()
    if not core.solve.contains(t, keys):
        c = iz(cnt)
        return (zr(c) if dt == F8 else c) * t
    parts = _factors(t, keys)
    fac = [c for c in parts if not core.solve.contains(c, keys)]
    rest = [c for c in parts if core.solve.contains(c, keys)]
    body = rest[0] if len(rest) == 1 else z3.Product(*rest)
    memo = eng.__dict__.setdefault("_summemo", {})
    k = (body.sexpr(), tuple(str(d) for d in red))
    name = memo.setdefault(k, f"sum!{len(memo)}")
    free = sorted({x.get_id(): x for x in core.solve.subterms([body]) if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED
                   and any(x.eq(q) for q in eng.keystack)}.values(), key=lambda x: x.sexpr())
    srt = z3.RealSort() if dt == F8 else z3.IntSort()
    r = z3.Function(name, *[x.sort() for x in free], srt)(*free) if free else z3.Const(name, srt)
    if not free:
        eng.sums[name] = (r, body, keys, red)
    for c in fac:
        r = c * r
    return r


def reduce_fold(a, axis, op):
    a = asarray(a)
    dt = F8 if a.buf.dt == F8 else I8

    def conc(vs):
        r = SNum(z3.IntVal(1), I8)
        for v in vs:
            r = num_op(op, r, cast_val(v, dt))
        return r

    def symb(*k):
        raise Unsupported("product over a symbolic length")
    return reduce_with(a, axis, conc, symb, dt)


def pick(kind, a, b):
    if a is b:
        return a
    c = num_cmp("le", a, b) if kind == "min" else num_cmp("ge", a, b)
    if isinstance(c, bool):
        r = a if c else b
    else:
        r = v_if(c.e, a, b)
    nan = o_or(a.nan, b.nan)
    if nan is not None:
        r = SNum(r.e, r.dt, r.undef, nan)
    return r


def reduce_minmax(a, axis, kind):
    a = asarray(a)
    if a.buf.dt == B1:
        return reduce_any(a, axis, kind == "min")
    dt = a.buf.dt

    def conc(vs):
        if not vs:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        r = vs[0]
        for v in vs[1:]:
            r = pick(kind, r, v)
        return r

    def symb(put, red, shp, keep):
        eng = engine()
        for d in red:
            if holds(icmp("eq", d, 0)):
                raise ValueError("zero-size array to reduction operation which has no identity")
        I = z3.IntSort()
        srt = z3.RealSort() if dt == F8 else I
        mf, mfd = eng.fresh_fun(kind, [I] * len(keep), srt)
        ws = [eng.fresh_fun("w" + kind, [I] * len(keep), I) for _ in red]
        os_ = [eng.key("o") for _ in keep]
        ks = tuple(eng.keystack)
        m = mf(*os_)
        w = tuple(f(*os_) for f, _ in ws)
        inr = b_and(*[z3.And(o >= 0, o < iz(d)) for o, d in zip(os_, shp)])
        wv = put(tuple(os_), w)
        rs = [eng.key("r") for _ in red]
        rv = put(tuple(os_), tuple(rs))
        if not proper(rv, os_ + rs, b_and(inr, *[z3.And(x >= 0, x < iz(d)) for x, d in zip(rs, red)])):
            raise Unsupported("minimum of possibly undefined values")
        body = z3.Implies(inr, b_and(m == wv.e, *[z3.And(x >= 0, x < iz(d)) for x, d in zip(w, red)]))
        if keep:
            eng.add_fact(os_, body, [(mfd.name(), ks + tuple(os_))])
        else:
            eng.add_fact([], body)
        v = rv.e
        cmp_ = (m <= v) if kind == "min" else (m >= v)
        body = z3.Implies(b_and(inr, *[z3.And(x >= 0, x < iz(d)) for x, d in zip(rs, red)]), cmp_)
        eng.add_fact(os_ + rs, body, auto_trigger(v, os_ + rs) if is_z3(v) else None)
        if not keep:
            return SNum(m, dt)
        return SArr.make(dt, shp, lambda o: SNum(mf(*[iz(x) for x in o]), dt))
    return reduce_with(a, axis, conc, symb, dt)


def proper(v, keys, guard):
    """is the value defined, and no NaN, for all keys within the guard?"""
    bad = b_or(*[x for x in (v.undef, v.nan) if x is not None])
    if z3.is_false(z3.simplify(bad)):
        return True
    eng = engine()
    eng.keyguards.append(guard)
    try:
        return eng.prove(z3.Not(bad)) == "proved"
    finally:
        eng.keyguards.pop()


def arg_minmax(a, kind, axis=None):
    """first position of the extremum"""
    a = asarray(a)
    if axis is None and a.ndim != 1:
        a = a.ravel()
    ax = norm_axis(a, axis)[0] if axis is not None else 0
    n = a.shp[ax]
    if isinstance(n, int):
        if n == 0:
            raise ValueError("attempt to get argmin of an empty sequence")
        return reduce_with(a, ax, lambda vs: _arg_conc(vs, kind), None, I8)
    if holds(icmp("eq", n, 0)):
        raise ValueError("attempt to get argmin of an empty sequence")
    eng = engine()
    I = z3.IntSort()
    shp = a.shp[:ax] + a.shp[ax + 1:]
    f, fd = eng.fresh_fun("arg" + kind, [I] * len(shp), I)
    os_, k = [eng.key("o") for _ in shp], eng.key("k")
    ks = tuple(eng.keystack)
    inr = b_and(*[z3.And(o >= 0, o < iz(d)) for o, d in zip(os_, shp)])
    inn = z3.And(k >= 0, k < n)
    rd = a.frozen()
    at = lambda p: num_of(rd(tuple(os_[:ax]) + (p,) + tuple(os_[ax:])))
    w = f(*os_)
    v = eng.merged(lambda: at(k), os_ + [k], b_and(inr, inn))
    if not proper(v, os_ + [k], b_and(inr, inn)):
        raise Unsupported("argmin of possibly undefined values")
    wv = z3.substitute(v.e, (k, w))
    c, strict = (wv <= v.e, wv < v.e) if kind == "min" else (wv >= v.e, wv > v.e)
    rng = z3.And(w >= 0, w < n)
    if shp:
        eng.add_fact(os_, z3.Implies(inr, rng), [(fd.name(), ks + tuple(os_))])
    else:
        eng.assume(rng)
        eng.use_index(w)
    body = z3.Implies(b_and(inr, inn), z3.And(c, z3.Implies(k < w, strict)))
    eng.add_fact(os_ + [k], body, auto_trigger(v.e, os_ + [k]))
    if not shp:
        return SNum(w, I8)
    return SArr.make(I8, shp, lambda o: SNum(f(*[iz(x) for x in o]), I8))


def _arg_conc(vs, kind):
    vs = [num_of(v) for v in vs]
    best, pos = vs[0], SNum(z3.IntVal(0), I8)
    for i, v in enumerate(vs[1:], 1):
        c = num_cmp("lt", v, best) if kind == "min" else num_cmp("gt", v, best)
        if isinstance(c, bool):
            if c:
                best, pos = v, SNum(z3.IntVal(i), I8)
        else:
            best = v_if(c.e, v, best)
            pos = v_if(c.e, SNum(z3.IntVal(i), I8), pos)
    return pos


def reduce_any(a, axis, all_):
    a = asarray(a)
    if a.buf.dt != B1:
        a = a != 0

    def conc(vs):
        es = [v.e for v in vs]
        return SBool(z3.simplify(b_and(*es) if all_ else b_or(*es)), True)

    def symb(put, red, shp, keep):
        if keep:
            raise Unsupported("any along a symbolic axis")
        eng = engine()
        rs = [eng.key("q") for _ in red]
        v = put((), tuple(rs)).e
        key = ("any", all_, tuple(d if isinstance(d, int) else d.get_id() for d in red), _canon_id(v, rs))
        memo = eng.__dict__.setdefault("_anymemo", {})
        if memo.get("path") != eng.n_paths:
            memo.clear()
            memo["path"] = eng.n_paths
        mk = key + (len(eng.keystack),)
        if mk in memo:
            return SBool(memo[mk], True)
        r = eng.fresh("any", z3.BoolSort())
        memo[mk] = r
        ws = [eng.fresh("wany", z3.IntSort()) for _ in red]
        wv = put((), tuple(ws)).e
        inr = lambda xs: b_and(*[z3.And(x >= 0, x < iz(d)) for x, d in zip(xs, red)])
        if all_:
            eng.add_fact(rs, z3.Implies(b_and(r, inr(rs)), v), auto_trigger(v, rs))
            eng.assume(z3.Implies(z3.Not(r), b_and(inr(ws), b_not(wv))))
        else:
            eng.add_fact(rs, z3.Implies(b_and(b_not(r), inr(rs)), b_not(v)), auto_trigger(v, rs))
            eng.assume(z3.Implies(r, b_and(inr(ws), wv)))
        for w in ws:
            eng.use_index(w)
        return SBool(r, True)
    r = reduce_with(a, axis, conc, symb, B1)
    if isinstance(r, SBool):
        return np.bool_(True) if z3.is_true(r.e) else np.bool_(False) if z3.is_false(r.e) else r
    return r


def _canon_id(v, keys):
    return z3.substitute(v, *[(k, z3.Int(f"cn!{q}")) for q, k in enumerate(keys)]).sexpr()


def sort1(a):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("sort of a matrix")
    n = a.shp[0]
    if not isinstance(n, int):
        raise Unsupported("sort of symbolic length")
    vs = [a.at((i,)) for i in range(n)]
    for i in range(n):
        for j in range(n - 1 - i):
            x, y = vs[j], vs[j + 1]
            vs[j], vs[j + 1] = pick("min", x, y), pick("max", x, y)
    return SArr.make(a.buf.dt, (n,), lambda idx: chain(vs, idx[0]))


def dot(a, b):
    """np.dot / matmul for 1-D and 2-D operands"""
    if a.ndim == 0 or b.ndim == 0:
        return binop("mul", a, b)
    n, m = a.shp[-1], b.shp[0 if b.ndim == 1 else -2]
    if not dims_equal(n, m):
        raise ValueError("shapes not aligned")
    n = n if isinstance(n, int) else m
    dt = F8 if F8 in (a.buf.dt, b.buf.dt) else I8
    ra, rb = a.frozen(), b.frozen()
    sa, sb = a.shp[:-1], (b.shp[:-2] + b.shp[-1:] if b.ndim > 1 else ())

    def one(idx):
        ia, ib = idx[:len(sa)], idx[len(sa):]

        def term(k):
            bi = (ib[:-1] + (k,) + ib[-1:]) if b.ndim > 1 else (k,)
            return num_op("mul", cast_val(ra(ia + (k,)), dt), cast_val(rb(bi), dt))
        if isinstance(n, int):
            r = SNum(z3.IntVal(0) if dt == I8 else z3.RealVal(0), dt)
            for k in range(n):
                r = num_op("add", r, term(k))
            return r
        return sum_term([n], lambda r: term(r[0]), dt)
    if not sa and not sb:
        return one(())
    return SArr.make(dt, sa + sb, one)


# ----------------------------------------------------------------------------- symbolic sequences
class SymSeq:
    """A Python list of symbolic length n whose k-th element is elem(k)."""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def get(self, i):
        return self.elem(i)

    def stack(self):
        k = engine().key("e")
        v = self.elem(k)
        s = lift(v)
        if s is not None:
            dt = scalar_dt(s)
            return SArr.make(dt, (self.n,), lambda idx: cast_val(lift(self.elem(iz(idx[0]))), dt))
        a = asarray(v)
        dt, nd, shp = a.buf.dt, a.ndim, a.shp
        if any(not isinstance(d, int) and core.solve.contains(d, [k]) for d in shp):
            raise Unsupported("ragged symbolic sequence")
        return SArr.make(dt, (self.n,) + shp, lambda idx: cast_val(asarray(self.elem(iz(idx[0]))).at(idx[1:]), dt))

    def substituted(self, pairs):
        sub = lambda d: d if isinstance(d, int) else ix(z3.substitute(d, *pairs))
        return SymSeq(sub(self.n), lambda i: core.subst(self.elem(i), pairs))

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        return SNum(self.n, PY_INT).__index__()

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, st, ln = SArr._slice(i, self.n)
            return SymSeq(ln, lambda k: self.elem(ix(iadd(a, imul(st, k)))))
        probe = SArr.make(I8, (self.n,), lambda idx: None)
        return self.elem(probe._norm_index(i, self.n))

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.elem(i) for i in range(self.n)])
        c = engine().concretize(SNum(self.n, PY_INT))
        if c is None:
            raise Unsupported("iteration over a sequence of symbolic length")
        return iter([self.elem(i) for i in range(c)])

    def __deepcopy__(self, memo):
        return self


def repeat_seq(seq, n):
    if len(seq) == 1:
        x = seq[0]
        return SymSeq(ix(n), lambda i: x)
    raise Unsupported("repetition of a list by a symbolic number")
