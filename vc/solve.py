"""Discharging obligations: fact instantiation, axioms of the transcendental functions,
z3 (default SMT core and nlsat after purification) and cvc5."""
import itertools
import os
import select
import signal
import time

import z3

from . import field

USE_CVC5 = os.environ.get("VC_NO_CVC5") is None


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}

    def hit(self, backend):
        self.by[backend] = self.by.get(backend, 0) + 1


# ----------------------------------------------------------------------------- term walking
def subterms(fs):
    seen = set()
    stack = list(fs)
    out = []
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(t)
        stack.extend(t.children())
    return out


def contains(e, consts):
    ids = {c.get_id() for c in consts}
    return any(t.get_id() in ids for t in subterms([e]))


_INFO = {}


def info(e):
    """(e, names of its uninterpreted constants and functions, its applications [(name, id, term)]); the term is kept alive"""
    i = e.get_id()
    r = _INFO.get(i)
    if r is not None:
        return r
    names, apps = set(), []
    for t in subterms([e]):
        d = t.decl() if z3.is_app(t) else None
        if d is not None and d.kind() == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            names.add(n)
            if t.num_args():
                apps.append((n, t.get_id(), t))
    if len(_INFO) > 300000:
        _INFO.clear()
    r = _INFO[i] = (e, names, apps)
    return r


def symbols(e, cache=None):
    """names of the uninterpreted constants/functions of e"""
    return info(e)[1]


# ----------------------------------------------------------------------------- axioms
PI = z3.Real("PI")
_R = z3.RealSort()
F_SQRT = z3.Function("sqrt_", _R, _R)
F_EXP = z3.Function("exp_", _R, _R)
F_LOG = z3.Function("log_", _R, _R)
F_POW = z3.Function("pow_", _R, _R, _R)
F_TANH = z3.Function("tanh_", _R, _R)
F_ATAN = z3.Function("atan_", _R, _R)
F_ASIN = z3.Function("asin_", _R, _R)
F_COS = z3.Function("cos_", _R, _R)
F_SIN = z3.Function("sin_", _R, _R)
F_COSH = z3.Function("cosh_", _R, _R)
MATH = {f.name(): f for f in (F_SQRT, F_EXP, F_LOG, F_POW, F_TANH, F_ATAN, F_ASIN, F_COS, F_SIN, F_COSH)}
ODD = ("tanh_", "atan_", "asin_", "sin_")
INCREASING = ("exp_", "tanh_", "atan_", "asin_", "sqrt_", "log_")


def math_axioms(apps):
    """Axiom instances for the occurring applications {name: [term]}"""
    ax = []
    one, zero = z3.RealVal(1), z3.RealVal(0)
    for t in apps.get("sqrt_", ()):
        x = t.arg(0)
        ax.append(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
    for t in apps.get("exp_", ()):
        x = t.arg(0)
        ax += [t > 0, (x > 0) == (t > 1), (x == 0) == (t == 1)]
    for t in apps.get("log_", ()):
        x = t.arg(0)
        ax += [z3.Implies(x > 0, z3.And((x > 1) == (t > 0), (x == 1) == (t == 0)))]
    for t in apps.get("tanh_", ()):
        x = t.arg(0)
        ax += [t < 1, t > -1, (x > 0) == (t > 0), (x == 0) == (t == 0)]
    for t in apps.get("atan_", ()):
        x = t.arg(0)
        ax += [2 * t < PI, -PI < 2 * t, (x > 0) == (t > 0), (x == 0) == (t == 0)]
    for t in apps.get("asin_", ()):
        x = t.arg(0)
        dom = z3.And(x >= -1, x <= 1)
        ax += [z3.Implies(dom, z3.And(2 * t <= PI, -PI <= 2 * t, (x > 0) == (t > 0), (x == 0) == (t == 0)))]
        s, c = F_SIN(t), F_COS(t)
        ax += [z3.Implies(dom, z3.And(s == x, c >= 0, s * s + c * c == 1))]
    for t in apps.get("cosh_", ()):
        x = t.arg(0)
        ax += [t >= 1, (x == 0) == (t == 1)]
    seen = {}
    for t in apps.get("cos_", ()):
        seen[t.arg(0).get_id()] = t.arg(0)
    for t in apps.get("sin_", ()):
        seen[t.arg(0).get_id()] = t.arg(0)
    for x in seen.values():
        s, c = F_SIN(x), F_COS(x)
        ax += [s * s + c * c == 1, z3.Implies(x == 0, z3.And(s == 0, c == 1)),
               z3.Implies(z3.And(x > 0, x < z3.RealVal("3.14159265358979")), s > 0),
               z3.Implies(2 * x == PI, z3.And(c < z3.RealVal("1/1000000000000000"), c > -z3.RealVal("1/1000000000000000")))]
    for t in apps.get("pow_", ()):
        b, e = t.arg(0), t.arg(1)
        ax += [z3.Implies(b > 0, t > 0), z3.Implies(e == 1, t == b),
               z3.Implies(b == 1, t == 1),
               z3.Implies(z3.And(b > 0, e > 0), z3.And((b > 1) == (t > 1), (b == 1) == (t == 1)))]
    # pairs
    for name in INCREASING:
        ts = apps.get(name, ())
        if 2 <= len(ts) <= 8:
            for a, b in itertools.combinations(ts, 2):
                x, y = a.arg(0), b.arg(0)
                dom = []
                if name == "log_":
                    dom = [x > 0, y > 0]
                elif name == "sqrt_":
                    dom = [x >= 0, y >= 0]
                elif name == "asin_":
                    dom = [x >= -1, y >= -1, x <= 1, y <= 1]
                body = z3.And((x < y) == (a < b), (x == y) == (a == b))
                ax.append(z3.Implies(z3.And(*dom), body) if dom else body)
                if name in ODD:
                    bo = (x + y == 0) == (a + b == 0)
                    ax.append(z3.Implies(z3.And(*dom), bo) if dom else bo)
    for a, b in itertools.combinations(apps.get("exp_", ()), 2):
        ax.append(z3.Implies(a.arg(0) + b.arg(0) == 0, a * b == 1))
    for a, b in itertools.combinations(apps.get("cosh_", ()), 2):
        ax.append(z3.Implies(z3.Or(a.arg(0) + b.arg(0) == 0, a.arg(0) == b.arg(0)), a == b))
    for a in apps.get("log_", ()):
        for b in apps.get("exp_", ()):
            ax.append(z3.Implies(a.arg(0) == b, a == b.arg(0)))
            ax.append(z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) == a), b == a.arg(0)))
    ps = apps.get("pow_", ())
    if len(ps) <= 6:
        for a, b in itertools.permutations(ps, 2):
            # (b.base^b.exp)^a.exp with a.exp*b.exp == 1
            ax.append(z3.Implies(z3.And(b.arg(0) > 0, a.arg(0) > 0, a.arg(1) * b.arg(1) == 1, a.arg(1) > 0),
                                 z3.And((a.arg(0) == b) == (a == b.arg(0)), (a.arg(0) < b) == (a < b.arg(0)))))
        for a, b in itertools.combinations(ps, 2):
            ax.append(z3.Implies(z3.And(a.arg(1) == b.arg(1), a.arg(1) > 0, a.arg(0) > 0, b.arg(0) > 0),
                                 z3.And((a.arg(0) < b.arg(0)) == (a < b), (a.arg(0) == b.arg(0)) == (a == b))))
    return ax


PI_AX = [PI > z3.RealVal("3.14159265358979"), PI < z3.RealVal("3.1415926535897933")]


def collect_apps(fs):
    apps, seen = {}, set()
    for f in fs:
        for n, i, t in info(f)[2]:
            if i not in seen:
                seen.add(i)
                apps.setdefault(n, []).append(t)
    return apps


# ----------------------------------------------------------------------------- fact instantiation
class Order:
    """trigger of an order fact: any pair of arguments of sel / values of rank"""
    def __init__(self, sel, rank):
        self.sel, self.rank = sel, rank


def instantiate(forms, facts, index_terms, rounds=3, limit=400):
    """Returns instances of the facts relevant for the formulas."""
    if not facts:
        return []
    out = []
    done = set()
    cur = list(forms) + [t for t in index_terms if t.sort().kind() == z3.Z3_REAL_SORT]     # (terms mentioned as a hint)
    index_terms = [t for t in index_terms if t.sort().kind() == z3.Z3_INT_SORT]
    for _ in range(rounds):
        apps = collect_apps(cur)
        new = []
        for fi, f in enumerate(facts):
            nk = len(f.keys)
            insts = []
            if isinstance(f.trigger, Order):
                pool = {}
                for t in apps.get(f.trigger.sel, ()):
                    pool[t.arg(t.num_args() - 1).get_id()] = t.arg(t.num_args() - 1)
                for t in apps.get(f.trigger.rank, ()):
                    pool[t.get_id()] = t
                insts = [(a, b) for a in pool.values() for b in pool.values() if a is not b] if len(pool) <= 12 else []
            elif f.trigger is not None:
                trg = f.trigger if isinstance(f.trigger, (list, tuple)) else [f.trigger]
                for tr in trg:
                    name, pattern = tr     # pattern: tuple of terms over keys
                    for t in apps.get(name, ()):
                        m = match(pattern, t.children(), f.keys)
                        if m is not None:
                            insts.append(m)
            else:
                pool = index_terms
                if nk <= 2:
                    insts = list(itertools.product(pool, repeat=nk))
            for m in insts:
                k = (fi,) + tuple(x.get_id() for x in m)
                if k in done:
                    continue
                done.add(k)
                new.append(z3.substitute(f.body, *zip(f.keys, m)) if nk else f.body)
                if len(out) + len(new) > limit:
                    break
        if not new:
            break
        out += new
        cur = new
    return out


def match(pattern, args, keys):
    """Match argument terms against pattern terms; only bare keys are bound.  Non-key pattern
    arguments must be syntactically equal after binding."""
    if len(pattern) != len(args):
        return None
    ids = {k.get_id(): i for i, k in enumerate(keys)}
    b = [None] * len(keys)
    rest = []
    for p, a in zip(pattern, args):
        i = ids.get(p.get_id())
        if i is None:
            rest.append((p, a))
        elif b[i] is None:
            b[i] = a
        elif not b[i].eq(a):
            return None
    if any(x is None for x in b):
        # try constant offset patterns k + c
        for p, a in list(rest):
            if z3.is_add(p) and p.num_args() == 2:
                for u, v in ((p.arg(0), p.arg(1)), (p.arg(1), p.arg(0))):
                    i = ids.get(u.get_id())
                    if i is not None and b[i] is None and z3.is_int_value(v):
                        b[i] = z3.simplify(a - v)
                        rest.remove((p, a))
                        break
        if any(x is None for x in b):
            return None
    for p, a in rest:
        q = z3.simplify(z3.substitute(p, *zip(keys, b)))
        if not q.eq(z3.simplify(a)):
            return None
    return tuple(b)


# ----------------------------------------------------------------------------- purification
class Purifier:
    """Replace uninterpreted applications, ToReal/ToInt/div/mod by fresh real constants
    (relaxing integers to reals): unsat of the result implies unsat of the original."""

    def __init__(self):
        self.map = {}
        self.side = []
        self.byfun = {}
        self.n = 0
        self.consts = {}

    def fresh(self, tag, sort=None):
        self.n += 1
        return z3.Const(f"pur_{tag}_{self.n}", sort or z3.RealSort())

    def go(self, t):
        stack = [(t, False)]
        while stack:
            u, ready = stack.pop()
            i = u.get_id()
            if i in self.map:
                continue
            if not ready:
                stack.append((u, True))
                for c in u.children():
                    if c.get_id() not in self.map:
                        stack.append((c, False))
                continue
            self.map[i] = (self.build(u), u)
        return self.map[t.get_id()][0]

    def build(self, u):
        ch = [self.map[c.get_id()][0] for c in u.children()]
        k = u.decl().kind()
        s = u.sort()
        if z3.is_int_value(u):
            return z3.RealVal(u.as_long())
        if k == z3.Z3_OP_UNINTERPRETED:
            srt = z3.BoolSort() if z3.is_bool(u) else z3.RealSort()
            if not ch:
                if s == z3.IntSort():
                    return z3.Real("int_" + u.decl().name())
                return u
            name = u.decl().name()
            for (args, v) in self.byfun.setdefault(name, []):
                if len(args) == len(ch) and all(a.eq(b) for a, b in zip(args, ch)):
                    return v
            v = self.fresh(name, srt)
            for (args, w) in self.byfun[name][:40]:
                eqs = [a == b for a, b in zip(args, ch) if not a.eq(b)]
                self.side.append(z3.Implies(z3.And(*eqs), v == w))
            self.byfun[name].append((ch, v))
            return v
        if k == z3.Z3_OP_TO_REAL:
            return ch[0]
        if k == z3.Z3_OP_TO_INT:
            v = self.fresh("floor")
            self.side += [v <= ch[0], ch[0] < v + 1]
            for (a, w) in self.byfun.setdefault("$floor", []):
                # monotone, and integer gaps
                self.side.append(z3.Implies(a == ch[0], v == w))
                self.side.append(z3.Implies(a <= ch[0], w <= v))
                self.side.append(z3.Implies(ch[0] <= a, v <= w))
            self.byfun["$floor"].append((ch[0], v))
            return v
        if k == z3.Z3_OP_IS_INT:
            return self.fresh("isint", z3.BoolSort())
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            key = ("$divmod", ch[0].get_id(), ch[1].get_id())
            if key not in self.consts:
                q, r = self.fresh("q"), self.fresh("r")
                self.side.append(z3.Implies(ch[1] > 0, z3.And(ch[0] == ch[1] * q + r, r >= 0, r <= ch[1] - 1)))
                self.consts[key] = (q, r, ch)
            q, r, _ = self.consts[key]
            return q if k == z3.Z3_OP_IDIV else r
        if k == z3.Z3_OP_DIV:
            n, d = ch
            if z3.is_rational_value(d) and d.numerator_as_long() != 0:
                return n / d
            key = ("$div", n.get_id(), d.get_id())
            if key not in self.consts:
                q = self.fresh("quot")
                self.side.append(z3.Implies(d != 0, q * d == n))
                self.consts[key] = (q, ch)
            return self.consts[key][0]
        if not ch:
            return u
        try:
            if k == z3.Z3_OP_ADD:
                return z3.Sum(ch) if len(ch) > 2 else ch[0] + ch[1]
            if k == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]:
                    r = r - c
                return r
            if k == z3.Z3_OP_MUL:
                return z3.Product(ch) if len(ch) > 2 else ch[0] * ch[1]
            if k == z3.Z3_OP_UMINUS:
                return -ch[0]
            if k == z3.Z3_OP_ITE:
                return z3.If(*ch)
            if k == z3.Z3_OP_EQ:
                return ch[0] == ch[1]
            if k == z3.Z3_OP_DISTINCT:
                return z3.Distinct(*ch)
            if k == z3.Z3_OP_LE:
                return ch[0] <= ch[1]
            if k == z3.Z3_OP_LT:
                return ch[0] < ch[1]
            if k == z3.Z3_OP_GE:
                return ch[0] >= ch[1]
            if k == z3.Z3_OP_GT:
                return ch[0] > ch[1]
            if k == z3.Z3_OP_POWER:
                return ch[0] ** ch[1]
        except z3.Z3Exception:
            raise
        return u.decl()(*ch)


def int_consts(fs):
    out = {}
    for t in subterms(fs):
        if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == z3.IntSort():
            out[t.get_id()] = t
    return list(out.values())


# strict integer inequalities become non-strict ones with a gap before relaxation
def tighten(f, cache=None):
    cache = {} if cache is None else cache
    i = f.get_id()
    if i in cache:
        return cache[i][0]
    k = f.decl().kind()
    r = f
    if z3.is_bool(f) and f.num_args():
        if k in (z3.Z3_OP_LT, z3.Z3_OP_GT) and f.arg(0).sort() == z3.IntSort():
            r = (f.arg(0) + 1 <= f.arg(1)) if k == z3.Z3_OP_LT else (f.arg(1) + 1 <= f.arg(0))
        elif k == z3.Z3_OP_NOT and z3.is_bool(f.arg(0)):
            g = f.arg(0)
            kg = g.decl().kind()
            if kg in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and g.arg(0).sort() == z3.IntSort():
                a, b = g.arg(0), g.arg(1)
                r = {z3.Z3_OP_LE: b + 1 <= a, z3.Z3_OP_GE: a + 1 <= b, z3.Z3_OP_LT: b <= a, z3.Z3_OP_GT: a <= b}[kg]
            elif kg == z3.Z3_OP_EQ and g.arg(0).sort() == z3.IntSort():
                a, b = g.arg(0), g.arg(1)
                r = z3.Or(a + 1 <= b, b + 1 <= a)
            else:
                h = tighten(g, cache)
                r = z3.Not(h)
        elif k == z3.Z3_OP_DISTINCT and f.num_args() == 2 and f.arg(0).sort() == z3.IntSort():
            a, b = f.arg(0), f.arg(1)
            r = z3.Or(a + 1 <= b, b + 1 <= a)
        elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES):
            ch = [tighten(c, cache) for c in f.children()]
            r = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_IMPLIES: z3.Implies}[k](*ch)
        elif k == z3.Z3_OP_EQ and z3.is_bool(f.arg(0)):
            r = f
    cache[i] = (r, f)
    return r


def nnf_tighten(fs):
    g = z3.Goal()
    g.add(*fs)
    try:
        res = z3.Tactic("nnf")(g)
        fs = [res[0][i] for i in range(len(res[0]))]
    except z3.Z3Exception:
        pass
    return [tighten(f) for f in fs]


# ----------------------------------------------------------------------------- backends
def run_z3_smt(fs, ms, want_model=False):
    s = z3.SolverFor("ALL") if False else z3.Solver()
    s.set("timeout", int(ms))
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", (s.model() if want_model else None)
    return "unknown", None


def run_nlsat(fs, ms, want_model=False):
    t = z3.TryFor(z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "qfnra-nlsat"), int(ms))
    s = t.solver()
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        return "unknown", None
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", None
    return "unknown", None


def run_cvc5(fs, ms):
    """cvc5 in a process of its own (its time limit is not always respected)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.write(w, (_run_cvc5(fs, ms) or "unknown").encode())
        finally:
            os._exit(0)
    os.close(w)
    try:
        ready, _, _ = select.select([r], [], [], ms / 1000 + 1)
        out = os.read(r, 64).decode() if ready else ""
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return out or "unknown"


def _run_cvc5(fs, ms):
    import cvc5
    s = z3.Solver()
    s.add(*fs)
    text = s.to_smt2()
    text = "\n".join(l for l in text.splitlines() if not l.startswith("(set-info"))
    text = "(set-logic ALL)\n" + text.replace("(check-sat)", "")
    slv = cvc5.Solver()
    slv.setOption("tlimit-per", str(int(ms)))
    slv.setOption("nl-cov", "true")
    try:
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(slv, sm)
        r = slv.checkSat()
        if r.isUnsat():
            return "unsat"
        if r.isSat():
            return "sat"
    except Exception:
        return "unknown"
    return "unknown"


def relevant(forms, goal, cache, depth=99):
    """Assumptions connected to the goal through shared symbols (breadth-first up to depth)."""
    syms = set(symbols(goal, cache))
    left = list(forms)
    out = []
    for _ in range(depth):
        nxt, rest = [], []
        for f in left:
            (rest if symbols(f).isdisjoint(syms) else nxt).append(f)
        if not nxt:
            break
        left = rest
        for f in nxt:
            syms |= symbols(f, cache)
        out += nxt
    return out


RANGE = {"exp_": lambda v: [v > 0], "tanh_": lambda v: [v > -1, v < 1], "atan_": lambda v: [2 * v < PI, -PI < 2 * v],
         "cosh_": lambda v: [v >= 1], "sin_": lambda v: [v <= 1, v >= -1], "cos_": lambda v: [v <= 1, v >= -1]}


def without_arguments(fs):
    """function values as unknowns within the range of the function (weaker, hence sound for proofs)"""
    pairs, ax = [], []
    for f in fs:
        for t in outermost(f, pairs):
            v = z3.Real(f"val_{len(pairs)}")
            pairs.append((t, v))
            ax += RANGE.get(t.decl().name(), lambda v: [])(v)
    return [z3.substitute(f, *pairs) for f in fs] + ax if pairs else None


def outermost(f, pairs):
    known, stack, seen, out = {t.get_id() for t, v in pairs}, [f], set(), []
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() in RANGE and t.num_args():
            if t.get_id() not in known:
                out.append(t)
            continue
        stack += t.children()
    return out


def conjuncts(g):
    k = g.decl().kind()
    if k == z3.Z3_OP_AND:
        return [x for c in g.children() for x in conjuncts(c)]
    if k == z3.Z3_OP_NOT and g.arg(0).decl().kind() == z3.Z3_OP_OR:
        return [x for c in g.arg(0).children() for x in conjuncts(z3.Not(c))]
    if k == z3.Z3_OP_NOT and g.arg(0).decl().kind() == z3.Z3_OP_NOT:
        return conjuncts(g.arg(0).arg(0))
    return [g]


def ite_conditions(g, limit=40):
    """conditions of the if-then-elses of g, outermost first"""
    out, seen, queue = [], set(), [g]
    while queue and len(out) < limit:
        nxt = []
        for t in queue:
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not any(t.arg(0).eq(c) for c in out):
                out.append(t.arg(0))
            nxt += t.children()
        queue = nxt
    return out


def settle(pc, facts, g, index_terms, budget=24):
    """g with the if-then-elses removed whose condition the assumptions decide; the first open condition"""
    done = []
    for _ in range(budget):
        cs = [c for c in ite_conditions(g) if not any(c.eq(d) for d in done)]
        if not cs:
            return g, done[0] if done else None
        c = cs[0]
        forms = relevant(pc, c, {})
        if len(symbols(c)) < 12:
            forms = [f for f in forms if len(symbols(f)) < 12]
        v = None
        for val, f in ((True, z3.Not(c)), (False, c)):
            if run_z3_smt(forms + [f], 150)[0] == "unsat":
                v = val
                break
        if v is None:
            done.append(c)
        else:
            g = z3.simplify(z3.substitute(g, (c, z3.BoolVal(v))))
            done = [d for d in done]
    return g, done[0] if done else None


def by_identity(pc, facts, goal, ms, index_terms, want_model, depth=0):
    """Goals that hold, in part, because two rational functions are identical, after case analysis.  None: nothing gained"""
    goal = z3.simplify(goal)
    gained = False
    backs = set()
    todo, parts = [], []
    for g in conjuncts(goal):
        k = g.decl().kind()
        if k in (z3.Z3_OP_OR, z3.Z3_OP_IMPLIES):
            ds = list(g.children()) if k == z3.Z3_OP_OR else [z3.Not(g.arg(0)), g.arg(1)]
            eqs = [d for d in ds if z3.is_eq(d) and z3.is_arith(d.arg(0)) and not z3.is_int(d.arg(0))]
            if len(eqs) == 1:
                parts.append((pc + [z3.simplify(z3.Not(d)) for d in ds if d is not eqs[0]], eqs[0]))
                continue
        parts.append((pc, g))
    for pc1, g in parts:
        if not (z3.is_eq(g) and z3.is_arith(g.arg(0))) and len(parts) > 1:
            todo.append((pc1, g, False))
            continue
        g2, c = settle(pc1, facts, g, index_terms)
        if not g2.eq(g):
            gained = True
        if z3.is_true(g2):
            continue
        if c is not None and depth < 5:
            for val in (True, False):
                h, pc2 = z3.substitute(g2, (c, z3.BoolVal(val))), pc1 + [c if val else z3.Not(c)]
                for e in (conjuncts(c) if val else ()):
                    if z3.is_eq(e) and z3.is_int(e.arg(0)):
                        for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                                h = z3.substitute(h, (x, y))
                                break
                todo.append((pc2, z3.simplify(h), True))
            gained = True
        else:
            todo.append((pc1, g2, False))
    todo.sort(key=lambda x: not (x[2] or z3.is_eq(x[1]) and z3.is_arith(x[1].arg(0)) and not z3.is_int(x[1].arg(0))))
    for pc1, g, split in todo:
        if split:
            be = by_identity(pc1, facts, g, ms, index_terms, False, depth + 1)
            if be is not None:
                backs.add(be)
                continue
            st, m, b = _prove(pc1, facts, g, ms, False, False, index_terms, True)
            if st != "proved":
                return None
            backs.add(b)
            continue
        c = field.Canon()
        h = c.go(g)
        if z3.is_eq(h) and z3.is_arith(h.arg(0)) and c.equal(h.arg(0), h.arg(1)):
            h = z3.BoolVal(True)
            gained = True
        else:
            h = z3.simplify(h)
            if not h.eq(z3.simplify(g)):
                gained = True
        if not gained:
            return None
        for d in c.divisors():
            st, m, b = _prove(pc1, facts, d != 0, ms, False, False, index_terms, True)
            if st != "proved":
                return None
            backs.add(b)
        if not z3.is_true(h):
            st, m, b = _prove(pc1, facts, h, ms, False, False, index_terms, True)
            if st != "proved":
                return None
            backs.add(b)
    if not gained:
        return None
    return "+".join(sorted({x for b in backs for x in b.split("+")} | {"identity"}))


def dag_size(t, limit=10 ** 9):
    seen, stack = set(), [t]
    while stack and len(seen) < limit:
        u = stack.pop()
        if u.get_id() not in seen:
            seen.add(u.get_id())
            stack += u.children()
    return len(seen)


def abbreviated(forms, pc, facts, goal, ms, index_terms):
    """the goal for arbitrary values of the long function applications in it (a stronger statement), or None"""
    if dag_size(goal, 60) < 60:
        return None
    for e in conjuncts(z3.simplify(z3.Not(goal))):      # what the goal supposes equal is the same
        if z3.is_eq(e) and z3.is_int(e.arg(0)):
            for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    goal, *forms = [z3.substitute(f, (x, y)) for f in [goal] + forms]
                    break
    c, names, memo, keep = field.Canon(), {}, {}, []

    def go(t):
        if t.get_id() in memo:
            return memo[t.get_id()]
        keep.append(t)
        if z3.is_quantifier(t) or not t.children():
            r = t
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() not in MATH and dag_size(t, 12) >= 12:
            r = names.setdefault(t.get_id(), z3.FreshConst(t.sort(), "abbr"))
        else:
            r = t.decl()(*[go(x) for x in t.children()])
        memo[t.get_id()] = r
        return r
    try:
        g = c.go(z3.simplify(goal))
        g2 = go(g)
        if not names:
            return None
        fs = [go(c.go(f)) for f in forms]
    except (z3.Z3Exception, field.TooBig):
        return None
    if run_z3_smt(fs + [z3.Not(g2)], 500)[0] == "unsat":
        be = "z3-smt"
    else:
        be = by_identity(fs, [], g2, ms, [], False)
        if be is None:
            return None
    backs = {be, "generalised"}
    for d in c.divisors():
        st, m, b = _prove(pc, facts, d != 0, ms, False, False, index_terms, True)
        if st != "proved":
            return None
        backs.add(b)
    return "+".join(sorted({x for b in backs for x in b.split("+")}))


LOG = None


def prove(pc, facts, goal, stats, ms=4000, quick=False, want_model=False, index_terms=()):
    """'proved' | 'refuted' | 'unknown' (or (status, model, backend) when want_model)"""
    t0 = time.time()
    stats.queries += 1
    try:
        st, model, be = _prove(pc, facts, goal, ms, quick, want_model, index_terms)
    except z3.Z3Exception as ex:
        st, model, be = "unknown", None, "error:" + str(ex)[:100]
    dt = time.time() - t0
    stats.time += dt
    if st == "proved":
        stats.hit(be)
    if LOG is not None:
        LOG.append((dt, st, be, quick, goal))
    if want_model:
        return st, model, be
    return st


def _prove(pc, facts, goal, ms, quick, want_model, index_terms, plain=False):
    neg = z3.Not(goal)
    cache = {}
    base = [f for f in pc if not z3.is_true(f)]
    forms = relevant(base, neg, cache)
    # an inconsistent (infeasible) path need not share symbols with the goal, but paths are
    # kept feasible by construction, so dropping unrelated assumptions only weakens the prover
    allf = forms + [neg]
    inst = instantiate(allf, facts, list(index_terms))
    if inst:
        more = relevant([f for f in base if not any(f is g for g in forms)], z3.And(*inst), cache) if inst else []
        allf = forms + more + inst + [neg]
        # facts may bring in further facts through new assumptions
    apps = collect_apps(allf)
    mapps = {k: v for k, v in apps.items() if k in MATH}
    ax = math_axioms(mapps) if mapps else []
    if ax:
        apps2 = {k: v for k, v in collect_apps(allf + ax).items() if k in MATH}
        if sum(map(len, apps2.values())) != sum(map(len, mapps.values())):
            ax = math_axioms(apps2)
    full = allf + ax
    if any("PI" in symbols(t) for t in full):
        full = full + PI_AX
    # order of attack: plain SMT first
    r, m = run_z3_smt(full, min(ms, 400 if quick else 300 if not plain else 1500), want_model)
    if r == "unsat":
        return "proved", None, "z3-smt"
    if r == "sat":
        return "refuted", m, "z3-smt"
    if quick and ms <= 400:
        return "unknown", None, None
    if not quick and not plain:
        be = abbreviated(allf[:-1], pc, facts, goal, ms, index_terms)
        if be is not None:
            return "proved", None, be
        be = by_identity(pc, facts, goal, ms, index_terms, want_model)
        if be is not None:
            return "proved", None, be
        r, m = run_z3_smt(full, min(ms, 1500), want_model)
        if r == "unsat":
            return "proved", None, "z3-smt"
        if r == "sat":
            return "refuted", m, "z3-smt"
    if mapps and not quick:
        w = without_arguments([neg] + [f for f in forms if len(symbols(f)) < 6])
        if w is not None and run_z3_smt(w + PI_AX, 700)[0] == "unsat":
            return "proved", None, "z3-ranges"
    p = Purifier()
    try:
        pf = [p.go(f) for f in nnf_tighten(full)]
        pf += p.side
    except (z3.Z3Exception, KeyError):
        pf = None
    if pf is not None:
        r2, _ = run_nlsat(pf, ms if not quick else 700)
        if r2 == "unsat":
            return "proved", None, "z3-nlsat"
        if quick:
            return "unknown", None, None
    if quick:
        return "unknown", None, None
    if USE_CVC5:
        r3 = run_cvc5(full, ms)
        if r3 == "unsat":
            return "proved", None, "cvc5"
        if pf is not None:
            r3 = run_cvc5(pf, ms)
            if r3 == "unsat":
                return "proved", None, "cvc5-relaxed"
    r, m = run_z3_smt(full, ms, want_model)
    if r == "unsat":
        return "proved", None, "z3-smt"
    if r == "sat":
        return "refuted", m, "z3-smt"
    return "unknown", None, None


INTS_ONLY = {}


def integers_only(f):
    """a formula about integers and truth values, without function applications"""
    r = INTS_ONLY.get(f.get_id())
    if r is None:
        r = all((z3.is_int(t) or z3.is_bool(t)) and (not t.num_args() or t.decl().kind() != z3.Z3_OP_UNINTERPRETED)
                for t in subterms([f])), f
        INTS_ONLY[f.get_id()] = r
    return r[0]


def decide(pc, facts, c, stats, index_terms, models, ms=700, want=(True, True)):
    """(c may hold, c may fail) under the path condition; a side is excluded only by a proof"""
    t0 = time.time()
    cache = {}
    base = [f for f in pc if not z3.is_true(f)]
    forms = relevant(base, c, cache)
    inst = instantiate(forms + [c], facts, list(index_terms))
    if inst:
        forms = forms + relevant([f for f in base if not any(f is g for g in forms)], z3.And(*inst), cache) + inst
    apps = collect_apps(forms + [c])
    mapps = {k: v for k, v in apps.items() if k in MATH}
    ax = math_axioms(mapps) if mapps else []
    if ax:
        apps2 = {k: v for k, v in collect_apps(forms + ax + [c]).items() if k in MATH}
        if sum(map(len, apps2.values())) != sum(map(len, mapps.values())):
            ax = math_axioms(apps2)
    full = forms + ax
    if any("PI" in symbols(t) for t in full + [c]):
        full = full + PI_AX
    can = [None if w else True for w in want]
    conj = z3.And(*full) if full else z3.BoolVal(True)
    for m in models[-3:]:
        try:
            if z3.is_true(m.eval(conj, model_completion=True)):
                v = m.eval(c, model_completion=True)
                if z3.is_true(v):
                    can[0] = True
                elif z3.is_false(v):
                    can[1] = True
        except z3.Z3Exception:
            pass
        if can[0] and can[1]:
            break
    s = whole = None
    for i, g in enumerate((c, z3.Not(c))):
        if can[i] is not None:
            continue
        if s is None:
            s = z3.Solver()
            s.add(*full)
        s.set("timeout", 400)
        s.push()
        s.add(g)
        stats.queries += 1
        if whole is None:
            whole = [f for x in full for f in conjuncts(x) if integers_only(f)] if integers_only(c) else []
        if whole and run_z3_smt(whole + [g], 100)[0] == "unsat":
            can[i] = False
            stats.hit("z3-smt")
            s.pop()
            if can[1 - i] is None:
                can[1 - i] = True
            continue
        r = s.check()
        if r == z3.sat:
            can[i] = True
            models.append(s.model())
            del models[:-4]
        elif r == z3.unsat:
            can[i] = False
            stats.hit("z3-smt")
        else:
            can[i] = True
            p = Purifier()
            try:
                pf = [p.go(f) for f in nnf_tighten(full + [g])]
                pf += p.side
                if run_nlsat(pf, ms)[0] == "unsat":
                    can[i] = False
                    stats.hit("z3-nlsat")
            except (z3.Z3Exception, KeyError):
                pass
        s.pop()
        if can[i] is False and can[1 - i] is None:
            can[1 - i] = True       # paths are kept feasible
    stats.time += time.time() - t0
    return can[0], can[1]


def small_model(pc, facts, goal, index_terms=(), ms=3000):
    """a model of pc, the facts and not goal with small input values, or None.  (Only a suggestion: it is replayed on the real code.)"""
    base = [f for f in pc if not z3.is_true(f)] + [z3.Not(goal)]
    inst = []
    done = set()
    for f in facts:
        trg = f.trigger if isinstance(f.trigger, (list, tuple)) else []
        if trg and any(isinstance(t, tuple) and t[0].startswith("in:") for t in trg) and 1 <= len(f.keys) <= 2:
            for m in itertools.product(range(3), repeat=len(f.keys)):
                inst.append(z3.substitute(f.body, *zip(f.keys, [z3.IntVal(i) for i in m])))
    inst += instantiate(base + inst, facts, list(index_terms))
    full = base + inst
    mapps = {k: v for k, v in collect_apps(full).items() if k in MATH}
    if mapps:
        full += math_axioms(mapps)
    full += PI_AX
    ins = {}
    for t in subterms(full):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("in:") and z3.is_arith(t):
            ins[t.get_id()] = t
    for lim, size in ((10, 3), (1000, 6), (None, 40)):
        b = []
        for t in ins.values():
            if t.num_args() == 0 and t.sort() == z3.IntSort():
                b += [t <= size, t >= -size]
            elif lim is not None:
                b += [t <= lim, t >= -lim]
        r, m = run_z3_smt(full + b, ms, True)
        if r == "sat":
            return m
    return None
