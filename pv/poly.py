"""Ring normaliser: decides equalities of real terms modulo sin^2+cos^2=1 and sqrt(t)^2=t (t a sum of squares)."""
from __future__ import annotations

from fractions import Fraction

import z3


class TooBig(Exception):
    pass


class Ring:
    def __init__(self, limit=4000):
        self.atoms = {}     # sexpr-free key: ast id -> (index, term)
        self.terms = []
        self.cos = {}       # index of sin(t) -> index of cos(t)
        self.sq = {}        # index of sqrt(t) -> polynomial of t
        self.limit = limit
        self.cache = {}
        self.den = {}       # index of an inverse -> (polynomial of the denominator, term of the denominator)

    def atom(self, t):
        i = t.get_id()
        if i in self.atoms:
            return self.atoms[i]
        k = len(self.terms)
        self.atoms[i] = k
        self.terms.append(t)
        if z3.is_app(t) and t.num_args() == 1:
            n = t.decl().name()
            if n == "sin":
                c = z3.Function("cos", z3.RealSort(), z3.RealSort())(t.arg(0))
                self.cos[k] = self.atom(c)
            elif n == "sqrt" and squares(t.arg(0)):
                self.sq[k] = self.poly(t.arg(0))
        return k

    def const(self, q):
        return {(): Fraction(q)} if q else {}

    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        r = {}
        if len(p) * len(q) > self.limit * 10:
            raise TooBig
        for m, c in p.items():
            for n, d in q.items():
                k = merge(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return self.reduce(r)

    def reduce(self, p):
        while True:
            hit = None
            for m in p:
                for (a, e) in m:
                    if e >= 2 and (a in self.cos or a in self.sq):
                        hit = (m, a, e)
                        break
                if hit:
                    break
            if not hit:
                if len(p) > self.limit:
                    raise TooBig
                return p
            m, a, e = hit
            c = p[m]
            p = dict(p)
            del p[m]
            rest = tuple((x, y) for x, y in m if x != a)
            if e > 2:
                rest = merge(rest, ((a, e - 2),))
            if a in self.cos:
                q = {(): Fraction(1), ((self.cos[a], 2),): Fraction(-1)}
            else:
                q = self.sq[a]
            p = self.add(p, {merge(rest, n): c * d for n, d in q.items()} if not_colliding(rest, q)
                         else self.mul_raw({rest: c}, q))

    def mul_raw(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = merge(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def poly(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i][0]
        r = self._poly(t)
        self.cache[i] = (r, t)
        return r

    def _poly(self, t):
        if z3.is_rational_value(t):
            return self.const(t.as_fraction())
        if z3.is_int_value(t):
            return self.const(t.as_long())
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_ADD:
                r = {}
                for c in ch:
                    r = self.add(r, self.poly(c))
                return r
            if k == z3.Z3_OP_SUB:
                r = self.poly(ch[0])
                for c in ch[1:]:
                    r = self.add(r, self.poly(c), -1)
                return r
            if k == z3.Z3_OP_UMINUS:
                return self.add({}, self.poly(ch[0]), -1)
            if k == z3.Z3_OP_MUL:
                r = self.poly(ch[0])
                for c in ch[1:]:
                    r = self.mul(r, self.poly(c))
                return r
            if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or (k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and
                                                                  ch[1].as_fraction().denominator == 1):
                e = int(ch[1].as_fraction()) if z3.is_rational_value(ch[1]) else ch[1].as_long()
                if 0 <= e <= 8:
                    r = self.const(1)
                    b = self.poly(ch[0])
                    for _ in range(e):
                        r = self.mul(r, b)
                    return r
            if k == z3.Z3_OP_TO_REAL:
                a = ch[0]
                ka = a.decl().kind()
                if ka in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or z3.is_int_value(a):
                    return self.poly(a)
                return {((self.atom(a), 1),): Fraction(1)}
            if k == z3.Z3_OP_DIV and t.sort() == z3.RealSort():
                d = self.poly(ch[1])
                n = self.poly(ch[0])
                if len(d) == 1 and () in d:
                    return {m: c / d[()] for m, c in n.items()}
                if not d:
                    return {((self.atom(t), 1),): Fraction(1)}
                # inverse of the (normalised) denominator as an atom
                lead = sorted(d)[0]
                f = d[lead]
                key = tuple(sorted((m, c / f) for m, c in d.items()))
                inv = self.inv(key)
                self.den.setdefault(inv, (dict(key), ch[1]))
                return self.mul({((inv, 1),): 1 / f}, n)
        return {((self.atom(t), 1),): Fraction(1)}

    def inv(self, key):
        k = ("inv", key)
        if k not in self.atoms:
            self.atoms[k] = len(self.terms)
            self.terms.append(None)
        return self.atoms[k]


def not_colliding(rest, q):
    return False


def merge(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def squares(t):
    """Syntactic sum of squares."""
    if z3.is_rational_value(t):
        return t.as_fraction() >= 0
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(squares(c) for c in t.children())
    if k == z3.Z3_OP_MUL:
        cnt = {}
        flat = []

        def fl(x):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL:
                for c in x.children():
                    fl(c)
            else:
                flat.append(x)

        fl(t)
        for c in flat:
            if z3.is_rational_value(c):
                if c.as_fraction() < 0:
                    return False
            else:
                cnt[c.get_id()] = cnt.get(c.get_id(), 0) + 1
        return all(v % 2 == 0 for v in cnt.values())
    return False


def proves(goal, limit=4000):
    """True when goal is a (conjunction of) polynomial identities."""
    try:
        return _proves(goal, limit)
    except (TooBig, RecursionError):
        return False


def _proves(goal, limit):
    if z3.is_true(goal):
        return True
    if not z3.is_app(goal):
        return False
    k = goal.decl().kind()
    if k == z3.Z3_OP_AND:
        return all(_proves(c, limit) for c in goal.children())
    if k == z3.Z3_OP_EQ and goal.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
        r = Ring(limit)
        return not r.add(r.poly(goal.arg(0)), r.poly(goal.arg(1)), -1)
    return False


# ------------------------------------------------------------------ rational functions
def clear(r, p):
    """Multiply out the inverses of p: (polynomial, list of denominators used)."""
    used = []
    while True:
        inv = [a for m in p for a, _ in m if a in r.den]
        if not inv:
            return p, used
        a = max(inv)
        d, term = r.den[a]
        used.append((d, term))
        e = max(dict(m).get(a, 0) for m in p)
        pows = [r.const(1)]
        for _ in range(e):
            pows.append(r.mul(pows[-1], d))
        q = {}
        for m, c in p.items():
            dm = dict(m)
            k = dm.pop(a, 0)
            q = r.add(q, r.mul({tuple(sorted(dm.items())): c}, pows[e - k]))
        p = q
        if len(p) > r.limit:
            raise TooBig


def rewrite(goal, facts, rounds=6):
    """Use unconditional equalities  application == term  of the path as rewrite rules."""
    rules = []
    for f in facts:
        st = [f]
        while st:
            x = st.pop()
            if z3.is_and(x):
                st.extend(x.children())
            elif z3.is_eq(x) and x.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not contains(b, a) \
                            and (a.num_args() > 0 or a.decl().name().startswith("let!")) and a.decl().name() not in ("sin", "cos", "sqrt"):
                        rules.append((a, b))
                        break
    for _ in range(rounds):
        g = goal
        for rule in rules:
            g = z3.substitute(g, rule)
        if g.eq(goal):
            break
        goal = g
    return goal


def contains(t, x):
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        st.extend(y.children())
    return False


def field(goal, facts, nonzero, limit=3000):
    """Prove an equality of rational functions; nonzero(term) decides that a denominator does not vanish."""
    try:
        goal = rewrite(goal, facts)
        if z3.is_true(z3.simplify(goal)):
            return True
        if z3.is_and(goal):
            return all(field(c, [], nonzero, limit) for c in goal.children())
        if not z3.is_eq(goal) or goal.arg(0).sort() not in (z3.RealSort(), z3.IntSort()):
            return False
        r = Ring(limit)
        p = r.add(r.poly(goal.arg(0)), r.poly(goal.arg(1)), -1)
        q, used = clear(r, p)
        if q:
            return False
        done = []
        nz = None
        for d, term in used:
            if any(d == x for x in done):
                continue
            done.append(d)
            if nz is None:
                nz = nonzero_facts(r, facts_of(nonzero))
            if not known_nonzero(r, d, nz) and not nonzero.__call__(term):
                return False
        return True
    except (TooBig, RecursionError):
        return False


def facts_of(nonzero):
    return getattr(nonzero, "facts", [])


def scaled(p):
    if not p:
        return None
    f = p[sorted(p)[0]]
    return tuple(sorted((m, c / f) for m, c in p.items()))


def nonzero_facts(r, facts):
    """Normalised polynomials known not to vanish."""
    out = set()

    def neq(x):
        """terms t with  x |= t != 0"""
        if z3.is_not(x) and z3.is_eq(x.arg(0)):
            return x.arg(0).arg(0) - x.arg(0).arg(1) if z3.is_arith(x.arg(0).arg(0)) else None
        if z3.is_distinct(x) and x.num_args() == 2 and z3.is_arith(x.arg(0)):
            return x.arg(0) - x.arg(1)
        if z3.is_lt(x) or z3.is_gt(x):
            return x.arg(0) - x.arg(1)
        if z3.is_not(x) and (z3.is_le(x.arg(0)) or z3.is_ge(x.arg(0))):
            return x.arg(0).arg(0) - x.arg(0).arg(1)
        return None

    for f in facts:
        st = [rewrite(f, [])]
        while st:
            x = st.pop()
            if z3.is_and(x):
                st.extend(x.children())
                continue
            try:
                t = neq(x)
                if t is not None:
                    k = scaled(clear(r, r.poly(t))[0])
                    k2 = scaled(r.poly(t))
                    out |= {k, k2} - {None}
                    continue
                if z3.is_or(x) or (z3.is_not(x) and z3.is_and(x.arg(0))):
                    parts = x.children() if z3.is_or(x) else [z3.Not(c) for c in x.arg(0).children()]
                    ts = [neq(z3.simplify(c)) if neq(c) is None else neq(c) for c in parts]
                    if all(t is not None for t in ts):
                        s = {}
                        for t in ts:
                            s = r.add(s, r.mul(r.poly(t), r.poly(t)))
                        out |= {scaled(s), scaled(clear(r, s)[0])} - {None}
            except (TooBig, RecursionError):
                continue
    return out


def known_nonzero(r, d, nz):
    try:
        return scaled(d) in nz or scaled(clear(r, dict(d))[0]) in nz
    except (TooBig, RecursionError):
        return False
