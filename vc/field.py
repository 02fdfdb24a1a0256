"""Identities of rational functions, decided exactly: terms are brought into the form numerator/denominator over polynomials whose
variables are everything that is not field arithmetic.  Applications of the same function are the same variable when their
arguments are identical rational functions.  Every divisor met on the way is reported and must be proved non-zero."""
from fractions import Fraction

import z3


class TooBig(Exception):
    pass


LIMIT = 2500


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    if len(a) * len(b) > 200000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


ONE = {(): Fraction(1)}


class Field:
    def __init__(self):
        self.memo, self.atoms, self.keep = {}, {}, []
        self.dens = {}          # id -> divisor term
        self.canon_memo = {}

    def atom(self, t):
        i = self.atoms.setdefault(t.get_id(), len(self.atoms))
        self.keep.append(t)
        return {((i, 1),): Fraction(1)}, ONE

    def norm(self, t):
        """(numerator, denominator, divisors used) of a canonical term"""
        r = self.memo.get(t.get_id())
        if r is None:
            r = self._norm(t)
            self.memo[t.get_id()] = r
            self.keep.append(t)
        return r

    def _norm(self, t):
        k = t.decl().kind()
        if z3.is_int_value(t) or z3.is_rational_value(t):
            v = Fraction(t.as_long()) if z3.is_int_value(t) else Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): v} if v else {}), ONE, frozenset()
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(t.arg(0))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            ch = [self.norm(c) for c in t.children()]
            n, d, u = ch[0]
            if k == z3.Z3_OP_UMINUS:
                return {m: -c for m, c in n.items()}, d, u
            for n2, d2, u2 in ch[1:]:
                s = 1 if k == z3.Z3_OP_ADD else -1
                u = u | u2
                if d == d2:
                    n = p_add(n, n2, s)
                else:
                    n, d = p_add(p_mul(n, d2), p_mul(n2, d), s), p_mul(d, d2)
            return n, d, u
        if k == z3.Z3_OP_MUL:
            n, d, u = ONE, ONE, frozenset()
            for c in t.children():
                n2, d2, u2 = self.norm(c)
                n, d, u = p_mul(n, n2), p_mul(d, d2), u | u2
            return n, d, u
        if k == z3.Z3_OP_DIV:
            n, d, u = self.norm(t.arg(0))
            n2, d2, u2 = self.norm(t.arg(1))
            u = u | u2
            if not n2:
                raise TooBig()
            if not (len(n2) == 1 and () in n2 and d2 == ONE):
                self.dens[t.arg(1).get_id()] = t.arg(1)
                u = u | {t.arg(1).get_id()}
            return p_mul(n, d2), p_mul(d, n2), u
        if k == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(t.arg(1))) and 0 <= z3.simplify(t.arg(1)).as_long() <= 6:
            n, d, u = ONE, ONE, frozenset()
            n2, d2, u2 = self.norm(t.arg(0))
            for _ in range(z3.simplify(t.arg(1)).as_long()):
                n, d = p_mul(n, n2), p_mul(d, d2)
            return n, d, u2
        n, d = self.atom(t)
        return n, d, frozenset()

    def same(self, a, b):
        """set of divisors under which the canonical terms a and b are identical, or None"""
        if a.eq(b):
            return frozenset()
        n1, d1, u1 = self.norm(a)
        n2, d2, u2 = self.norm(b)
        if p_add(p_mul(n1, d2), p_mul(n2, d1), -1):
            return None
        return u1 | u2


class Canon:
    """rebuilds terms so that applications with identical arguments become the same term"""

    def __init__(self):
        self.f, self.memo, self.reps, self.used, self.keep = Field(), {}, {}, set(), []

    def go(self, t):
        stack = [(t, False)]
        while stack:
            u, ready = stack.pop()
            if u.get_id() in self.memo:
                continue
            if not ready:
                stack.append((u, True))
                stack += [(c, False) for c in u.children()]
            else:
                self.keep.append(u)
                self.memo[u.get_id()] = self.build(u)
        return self.memo[t.get_id()]

    def build(self, u):
        ch = [self.memo[c.get_id()] for c in u.children()]
        if not ch:
            return u
        v = u if all(a.eq(b) for a, b in zip(ch, u.children())) else u.decl()(*ch)
        if u.decl().kind() == z3.Z3_OP_ITE and z3.is_arith(v):
            return larger_smaller(v)
        if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            reps = self.reps.setdefault(u.decl().name(), [])
            for w in reps:
                if w.eq(v):
                    return w
            for w in reps[:12]:
                try:
                    us = [self.f.same(a, b) if z3.is_arith(a) else (frozenset() if a.eq(b) else None)
                          for a, b in zip(w.children(), v.children())]
                except TooBig:
                    continue
                if all(x is not None for x in us):
                    self.used |= frozenset().union(*us)
                    return w
            reps.append(v)
        return v

    def equal(self, a, b):
        """identical?  (the divisors needed are added to used)"""
        try:
            u = self.f.same(a, b)
        except TooBig:
            return False
        if u is None:
            return False
        self.used |= u
        return True

    def divisors(self):
        return [self.f.dens[i] for i in self.used]


def larger_smaller(t):
    """the larger or smaller of two terms, in one way of writing it"""
    c, x, y = t.children()
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        return t
    a, b = c.children()
    if x.eq(a) and y.eq(b):
        larger = k in (z3.Z3_OP_GE, z3.Z3_OP_GT)
    elif x.eq(b) and y.eq(a):
        larger = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
    else:
        return t
    a, b = sorted((a, b), key=lambda u: u.get_id())
    return z3.If(a >= b, a, b) if larger else z3.If(a >= b, b, a)


def scaled(p):
    """a polynomial up to a constant factor"""
    if not p:
        return None
    k = p[min(p)]
    return frozenset((m, c / k) for m, c in p.items())
