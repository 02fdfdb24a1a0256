"""Loop rules.  Contracts give invariants for loops of /repo (module, function, position of the loop in it); xform.py routes every
loop of the code through this file.  A loop over something of concrete length is simply run.  A loop of symbolic length is handled
by its invariant: it must hold on entry, one arbitrary iteration must keep it (both are obligations), and the code after the loop
knows only the invariant.  `while` loops whose condition is symbolic need no invariant: every variable the body assigns is
forgotten (first iteration = any iteration), which is enough for the rejection loops of this code base."""
import numpy as np
import z3

from . import arr, core
from .core import SNum, SBool, PathDone, Unsupported, engine, b_and, lift_num, PY_INT, PY_FLOAT, F8, I8

INVARIANTS = {}


class Invariant:
    def __init__(self, fn, state, modifies, step, nan):
        self.fn, self.state, self.modifies, self.step, self.nan = fn, dict(state), tuple(modifies), step, nan


def invariant(module, function, index, state=(), modifies=(), step=None, nan=False):
    """state: name -> fn(ctx, env, k) fresh value of a variable the loop changes; modifies: names of arrays written in place (which
    may hold NaN if `nan` is set)"""
    def deco(fn):
        INVARIANTS[module, function, index] = Invariant(fn, state, modifies, step, nan)
        return fn
    return deco


class Poison:
    """a variable about which nothing is known here: any use is outside the proof's reach"""
    def __init__(self, name):
        self.__dict__["_n"] = name

    def _bad(self, *a, **k):
        raise Unsupported(f"'{self.__dict__['_n']}' is used after a loop whose contract does not speak about it")


for _m in ("__getattr__ __setattr__ __bool__ __len__ __iter__ __getitem__ __setitem__ __call__ __add__ __radd__ __sub__ __rsub__ "
           "__mul__ __rmul__ __truediv__ __rtruediv__ __lt__ __le__ __gt__ __ge__ __eq__ __ne__ __neg__ __index__ __int__ __float__ "
           "__hash__ __contains__ __iadd__ __isub__ __and__ __or__ __invert__ __array__").split():
    setattr(Poison, _m, Poison._bad)


class Env:
    """the local variables, as attributes"""
    def __init__(self, d, old=None):
        self.__dict__.update(d)
        self.__dict__["_old"] = old


class Say:
    """collects the statements of an invariant: as assumptions or as obligations"""
    def __init__(self, ctx, tag, check):
        self.ctx, self.tag, self.check = ctx, tag, check

    def that(self, name, c):
        if callable(c):
            c = c()
        if self.check:
            self.ctx.ensure(f"{self.tag}: {name}", c)
        else:
            self.ctx.assume(c)

    def forall(self, name, dims, fn):
        if self.check:
            self.ctx.forall(f"{self.tag}: {name}", dims, fn)
        else:
            self.ctx.forall_assume(dims, fn)


def heap(env):
    """identities of everything reachable through program objects, lists and dicts"""
    seen, out, stack = set(), {}, [v for k, v in env.items() if not k.startswith("__vc")]
    keep = []
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        mod = type(x).__module__ or ""
        if type(x) in (list, tuple, set):
            ch = list(x)
        elif type(x) is dict:
            ch = list(x.values()) + list(x.keys())
        elif (mod.startswith("simcats") or mod.startswith("contracts")) and hasattr(x, "__dict__") and not isinstance(x, type):
            ch = [v for k, v in sorted(vars(x).items())]
            if isinstance(x, (list, dict)):
                ch += list(x)
        else:
            continue
        keep.append((x, ch))
        out[id(x)] = [id(c) for c in ch]
        stack += ch
    return out, keep


def filled(self, name, a, done, fn):
    """entries of the array `a` (written by the loop) for which done(*index) holds have the value fn(*index)"""
    ctx = self.ctx
    if self.check:
        self.ctx.forall(f"{self.tag}: {name}", a.shape, lambda *i: ctx.implies(done(*i), lambda: ctx.eq(a[i], fn(*i))))
        return
    eng = engine()
    b, old = a.buf, a.buf.c
    if b.dt != F8 or a.axes != tuple(("r", i, 0, 1) for i in range(len(b.shape))) or a.sel is not None:
        raise Unsupported("filled: only whole arrays of floats")

    def at(idx):
        ii = [SNum(arr.iz(i), PY_INT) for i in idx]
        e = z3.simplify(ctx.cond(done(*ii)))
        if z3.is_false(e):
            return old(idx)
        inb = b_and(*[z3.And(i.e >= 0, i.e < arr.iz(d)) for i, d in zip(ii, b.shape)])
        outs = eng.nested(lambda: arr.cast_val(lift_num(fn(*ii)), F8), [], b_and(e, inb))
        if not outs:
            return old(idx)
        new = core.merge_values(outs)
        return new if z3.is_true(e) or eng.known(e) else core.v_if(e, new, old(idx))
    b.set(arr.Content(at))


Say.filled = filled


class Frame:
    """what the heap looked like on entry; check() insists that only declared arrays were written"""
    def __init__(self, env, allowed=()):
        eng = engine()
        self.h, self.keep = heap(env)
        self.birth = arr.Buffer.count
        self.allowed = allowed
        self.log = len(eng.writes)

    def check(self):
        eng = engine()
        for b in eng.writes[self.log:]:
            if b.birth <= self.birth and not any(b is a for a in self.allowed):
                raise Unsupported("a loop body writes an array its invariant does not mention")
        for x, ch in self.keep:
            now = list(x) if type(x) in (list, tuple, set) else list(x.values()) + list(x.keys()) if type(x) is dict else \
                [v for k, v in sorted(vars(x).items())] + (list(x) if isinstance(x, (list, dict)) else [])
            if len(now) != len(ch) or any(a is not b for a, b in zip(now, ch)):
                raise Unsupported("a loop body changes an object its invariant does not mention")


class ForLoop:
    def __init__(self, it, mod, fn, idx, names):
        self.it, self.names = it, names
        from . import shim
        self.n = shim.sym_len(it)
        self.inv = INVARIANTS.get((mod, fn, idx))
        self.symbolic = self.n is not None and self.inv is not None
        self.tag = f"loop {idx} of {fn}"
        self.where = (mod, fn, idx)

    def enter(self, env):
        eng = engine()
        ctx, inv = eng.ctx, self.inv
        self.old = {k: v for k, v in env.items() if not k.startswith("__vc")}
        arrays = [self.old[m] for m in inv.modifies]
        self.pre = {m: a.copy() for m, a in zip(inv.modifies, arrays)}
        self.oldenv = Env({**self.old, **self.pre})
        eng.loops_used.add(".".join(map(str, self.where)))
        n = SNum(arr.iz(self.n), PY_INT)
        inv.fn(ctx, Env(self.old, self.oldenv), 0, n, Say(ctx, self.tag + " on entry", True))
        self.iterate = eng.fork(2) == 0
        if self.iterate:
            k = eng.fresh("iter", z3.IntSort())
            eng.use_index(k)
            eng.assume(z3.And(k >= 0, k < arr.iz(self.n)))
            self.k = SNum(k, PY_INT)
        else:
            self.k = n
        V = {a: Poison(a) for a in self.names if a in self.old}
        for a, f in inv.state.items():
            V[a] = f(ctx, self.oldenv, self.k)
        self.arrays = arrays
        self.no_nan("before")
        for m, a in zip(inv.modifies, arrays):
            b = a.buf
            nd = len(b.shape)
            if b.dt == F8 and inv.nan:
                f, _ = eng.fresh_fun("havoc:" + m, [z3.IntSort()] * nd, z3.RealSort())
                g, _ = eng.fresh_fun("nan:" + m, [z3.IntSort()] * nd, z3.BoolSort())
                b.set(arr.Content(lambda idx, f=f, g=g: SNum(f(*[arr.iz(i) for i in idx]), F8, None, g(*[arr.iz(i) for i in idx]))))
                continue
            f, _ = eng.fresh_fun("havoc:" + m, [z3.IntSort()] * nd, z3.RealSort() if b.dt == F8 else z3.IntSort() if b.dt != arr.B1 else z3.BoolSort())
            b.set(arr.Content(lambda idx, f=f, b=b: SBool(f(*[arr.iz(i) for i in idx])) if b.dt == arr.B1
                              else SNum(f(*[arr.iz(i) for i in idx]), b.dt)))
        self.cur = {**self.old, **V}
        inv.fn(ctx, Env(self.cur, self.oldenv), self.k, n, Say(ctx, self.tag, False))
        if self.iterate:
            from . import shim
            self.item = shim.seq_get(self.it, self.k.e)
            self.frame = Frame({k: v for k, v in self.cur.items()}, [a.buf for a in arrays])
            self.draws = {id(v): (v, len(v.draws)) for v in shim.SymRng.alive(eng)}
        return V

    def no_nan(self, when):
        """arrays the loop writes must not hold NaN unless the invariant says so (their havocked contents are plain numbers)"""
        if self.inv.nan:
            return
        eng = engine()
        for a in self.arrays:
            b = a.buf
            if b.dt != F8:
                continue
            ks = [eng.key("n") for _ in b.shape]
            box = b_and(*[z3.And(k >= 0, k < arr.iz(d)) for k, d in zip(ks, b.shape)])
            outs = eng.nested(lambda: b.c(tuple(ks)), ks, box)
            for c, v in outs:
                bad = core.o_or(v.nan, v.undef)
                if bad is not None and eng.prove(z3.Implies(b_and(box, c), z3.Not(bad))) != "proved":
                    raise Unsupported(f"an array may hold NaN {when} a loop whose invariant does not speak about NaN")

    def done(self, env):
        eng = engine()
        ctx = eng.ctx
        self.frame.check()
        self.no_nan("in")
        e = Env({k: v for k, v in env.items() if not k.startswith("__vc")}, self.oldenv)
        n = SNum(arr.iz(self.n), PY_INT)
        new = [d for v, i in self.draws.values() for d in v.draws[i:]]
        if self.inv.step is not None:
            self.inv.step(ctx, e, self.k, n, Say(ctx, self.tag + " in every iteration", True), new)
        self.inv.fn(ctx, e, self.k + 1, n, Say(ctx, self.tag + " is kept", True))
        raise PathDone()

    def left(self, env):
        """the loop is left by break (the present state goes on)"""
        eng = engine()
        if self.inv.step is not None:
            e = Env({k: v for k, v in env.items() if not k.startswith("__vc")}, self.oldenv)
            new = [d for v, i in self.draws.values() for d in v.draws[i:]]
            self.inv.step(eng.ctx, e, self.k, SNum(arr.iz(self.n), PY_INT), Say(eng.ctx, self.tag + " in every iteration", True), new)


class WhileLoop:
    def __init__(self, mod, fn, idx, names):
        self.names = names
        self.where = (mod, fn, idx)
        self.n = None

    def mark(self):
        if core._ENGINE is not None:
            self.n = engine().pos

    def test(self, f):
        """the condition as one truth value (its and/or do not split the path)"""
        if core._ENGINE is None:
            return f()
        eng = engine()
        p = eng.pos
        outs = eng.nested(lambda: SBool(eng.ctx.cond(f())), [])
        if not outs:
            raise PathDone()
        return bool(core.mk_bool(z3.simplify(core.merge_values(outs).e)))

    def symbolic(self):
        return core._ENGINE is not None and engine().pos != self.n

    def enter(self, env):
        eng = engine()
        eng.loops_used.add(".".join(map(str, self.where)) + " (all assigned variables forgotten)")
        self.V = V = {}
        for a in self.names:
            if a not in env:
                continue
            v = arr.lift(env[a]) if not isinstance(env[a], arr.SArr) else None
            if isinstance(v, SBool):
                V[a] = SBool(eng.fresh("any:" + a, z3.BoolSort()), v.np_)
            elif isinstance(v, SNum) and not isinstance(v, core.SInf):
                V[a] = SNum(eng.fresh("any:" + a, z3.IntSort() if v.is_int else z3.RealSort()), v.dt)
            else:
                V[a] = Poison(a)
        self.frame = Frame({**env, **V})
        return V

    def cut(self):
        raise PathDone()

    def kept(self, env):
        for a, v in self.V.items():
            w = env.get(a)
            if isinstance(v, Poison):
                continue
            w = arr.lift(w) if not isinstance(w, arr.SArr) else None
            if type(w) is not type(v) or (isinstance(v, SNum) and (w.dt != v.dt or w.undef is not None or w.nan is not None)):
                raise Unsupported(f"'{a}' changes its kind in a loop")
        self.frame.check()
