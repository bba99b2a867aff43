"""Symbolic sequences, generic (index-parametric) evaluation, loops cut by invariants."""
from __future__ import annotations

import copy
import types

import z3

from . import core, sums
from .arr import SArr, memo
from .core import PathEnd, Unsupported, ctx, z3b, z3i
from .vals import Sc, cast, ite, lift, sc, simp_dim

IV = z3.IntVal


# ------------------------------------------------------------------ substitution and merging of values
def subst_term(e, pairs):
    return z3.substitute(e, *pairs)


def subst(v, pairs):
    if isinstance(v, Sc):
        return Sc(v.k, subst_term(v.re, pairs), subst_term(v.im, pairs) if v.im is not None else None, v.xp,
                  subst_term(v.inf, pairs) if v.inf is not None else None)
    if isinstance(v, SArr):
        rd = v.reader()
        return SArr(tuple(subst(d, pairs) if isinstance(d, Sc) else d for d in v.shape), v.k,
                    memo(lambda *i: subst(rd(*i), pairs)), v.xp, owner=v.buf.owner)
    if isinstance(v, z3.ExprRef):
        return subst_term(v, pairs)
    if isinstance(v, tuple):
        if hasattr(v, "_fields"):
            return type(v)(*[subst(x, pairs) for x in v])
        return tuple(subst(x, pairs) for x in v)
    if type(v) is list:
        return [subst(x, pairs) for x in v]
    if type(v) is dict:
        return {k: subst(x, pairs) for k, x in v.items()}
    if isinstance(v, SSeq):
        return SSeq(subst(v.n, pairs) if isinstance(v.n, Sc) else v.n, lambda k: subst(v.getter(k), pairs))
    if v is None or isinstance(v, (str, int, float, complex, bool, bytes, type, types.FunctionType, types.ModuleType,
                                   types.BuiltinFunctionType, range, types.MethodType)):
        return v
    if hasattr(v, "pv_subst"):
        return v.pv_subst(pairs)
    slots = slot_descriptors(v)
    if hasattr(v, "__dict__") or slots:
        o = copy.copy(v)
        for k, x in list(getattr(v, "__dict__", {}).items()):
            object.__setattr__(o, k, subst(x, pairs))
        for d in slots:
            if has_slot(d, v):
                d.__set__(o, subst(d.__get__(v), pairs))
        return o
    return v


def slot_descriptors(v):
    return [d for t in type(v).__mro__ if t.__module__ != "builtins" for d in vars(t).values() if type(d) is types.MemberDescriptorType
            and "glass" in t.__module__]


def has_slot(d, v):
    try:
        d.__get__(v)
    except AttributeError:
        return False
    return True


def merge(c, a, b):
    """if c then a else b."""
    if a is b:
        return a
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.ndim != b.ndim:
            raise Unsupported("merging arrays of different rank")
        ra, rb = a.reader(), b.reader()
        shape = tuple(merge_dim(c, x, y) for x, y in zip(a.shape, b.shape))
        k = a.k if core and _ord(a.k) >= _ord(b.k) else b.k
        return SArr(shape, k, memo(lambda *i: cast_up(ite(c, ra(*i), rb(*i)), k)), a.xp)
    la, lb = _try_lift(a), _try_lift(b)
    if la is not None and lb is not None:
        return ite(c, la, lb)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if type(a) is list and type(b) is list and len(a) == len(b):
        return [merge(c, x, y) for x, y in zip(a, b)]
    if a is None and b is None:
        return None
    if isinstance(a, str) and a == b:
        return a
    if type(a) is type(b) and hasattr(a, "__dict__") and not isinstance(a, (type, types.FunctionType)):
        o = copy.copy(a)
        for k in a.__dict__:
            object.__setattr__(o, k, merge(c, a.__dict__[k], b.__dict__[k]))
        for d in slot_descriptors(a):
            if has_slot(d, a):
                d.__set__(o, merge(c, d.__get__(a), d.__get__(b)))
        return o
    raise Unsupported(f"merging {type(a).__name__} and {type(b).__name__}")


def cast_up(s, k):
    return cast(s, k) if s.k != k else s


def _ord(k):
    from .vals import ORDER
    return ORDER[k]


def _try_lift(x):
    try:
        return lift(x)
    except Unsupported:
        return None


def merge_dim(c, x, y):
    if isinstance(x, int) and isinstance(y, int) and x == y:
        return x
    return simp_dim(ite(c, sc(x), sc(y)))


# ------------------------------------------------------------------ sequences
class SSeq:
    """Sequence of symbolic length; getter(k) gives the element at a z3 integer term k."""

    def __init__(self, n, getter, owner=None):
        self.n = simp_dim(n)
        self.getter = getter
        self.owner = owner

    def elem(self, k):
        return self.getter(z3i(k))

    def __getitem__(self, i):
        from .arr import norm_int, norm_slice
        if isinstance(i, slice):
            st, ln, step = norm_slice(i, self.n)
            s = z3i(st)
            return SSeq(ln, lambda k: self.getter(z3.simplify(s + step * k)))
        return self.getter(norm_int(i, self.n, "list index"))

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.getter(IV(i)) for i in range(self.n)])
        raise Unsupported("iteration over a sequence of symbolic length")

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("len() of a sequence of symbolic length")

    def __bool__(self):
        return ctx().decide(z3i(self.n) > 0)

    def __add__(self, o):
        return concat_seq(self, to_seq(o))

    def __radd__(self, o):
        return concat_seq(to_seq(o), self)

    def append(self, v):
        raise Unsupported("append to a symbolic sequence outside a summarised loop")

    def index(self, v):
        return seq_index(self, v)

    def count(self, v):
        raise Unsupported("count on symbolic sequence")

    def __hash__(self):
        return id(self)

    def copy(self):
        return self


class StarSeq:
    """Symbolic number of positional arguments."""

    def __init__(self, seq):
        self.seq = seq


class SRange(SSeq):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        l, h = z3i(lo), z3i(hi)
        if isinstance(step, int) and step == 1:
            n = z3.If(h > l, h - l, IV(0))
            if isinstance(lo, int) and lo == 0 and ctx().entails(h >= 0, timeout=500, rounds=1):
                n = h
        elif isinstance(step, int) and step > 1:
            n = z3.If(h > l, (h - l + (step - 1)) / step, IV(0))
        elif isinstance(step, int) and step < 0:
            n = z3.If(h < l, (l - h + (-step - 1)) / (-step), IV(0))
        else:
            # symbolic positive step: characterised by a fresh length
            stp = z3i(step)
            if not ctx().decide(stp > 0):
                raise ValueError("range() arg 3 must not be zero")
            m = ctx().fresh("rangelen", "i")
            ctx().assume(m >= 0)
            ctx().assume(z3.Implies(h > l, z3.And(l + (m - 1) * stp < h, l + m * stp >= h, m >= 1)))
            ctx().assume(z3.Implies(h <= l, m == 0))
            n = m
        super().__init__(Sc("i", n), lambda k: Sc("i", z3.simplify(l + z3i(step) * k)))


def concat_seq(a, b):
    na, nb = z3i(a.n), z3i(b.n)
    if isinstance(a.n, int) and a.n == 0:
        return b
    if isinstance(b.n, int) and b.n == 0:
        return a

    def g(k):
        r = z3.simplify(k < na)
        if z3.is_true(r):
            return a.getter(k)
        if z3.is_false(r):
            return b.getter(z3.simplify(k - na))
        return merge(k < na, a.getter(k), b.getter(z3.simplify(k - na)))

    return SSeq(Sc("i", z3.simplify(na + nb)), g)


def to_seq(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, SArr):
        return x.seq()
    if isinstance(x, (list, tuple, range)):
        xs = list(x)

        def g(k):
            e = z3.simplify(k)
            if z3.is_int_value(e):
                return xs[e.as_long()]
            if not xs:
                raise Unsupported("element of an empty sequence")
            r = xs[-1]
            for i in range(len(xs) - 2, -1, -1):
                r = merge(e == i, xs[i], r)
            return r

        return SSeq(len(xs), g)
    raise Unsupported(f"iteration over {type(x).__name__}")


def is_symbolic_iter(x):
    if isinstance(x, SSeq):
        return not isinstance(x.n, int)
    if isinstance(x, SArr):
        return x.ndim > 0 and not isinstance(x.shape[0], int)
    return False


def seq_len(x):
    if isinstance(x, SSeq):
        return x.n
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    return len(x)


# ------------------------------------------------------------------ generic evaluation
class Template:
    def __init__(self, kappa, n, oks):
        self.kappa, self.n, self.oks = kappa, n, oks
        v = None
        for conds, _uni, val in reversed(oks):
            g = z3.And(*conds) if conds else z3.BoolVal(True)
            v = val if v is None else merge(g, val, v)
        self.value = v
        self.cond = z3.simplify(z3.Or(*[z3.And(*c) if c else z3.BoolVal(True) for c, _, _ in oks])) if oks else None
        self.seen = {}

    def facts(self, t):
        return z3.substitute(self.cond, (self.kappa, t)) if self.cond is not None else z3.BoolVal(True)

    def inst(self, t):
        t = z3i(t)
        key = t.get_id()
        hit = self.seen.get(key)
        if hit is not None:
            return hit[0]
        v = subst(self.value, [(self.kappa, t)])
        self.seen[key] = (v, t)
        return v


def generic_map(n, thunk, name="g"):
    """Evaluate thunk(k) for one arbitrary 0 <= k < n; returns a Template (forks when some k may raise)."""
    c = ctx()
    nn = z3i(n)
    kname = c.fresh_name("ix!" + name)
    kappa = z3.Const(kname, z3.IntSort())

    def run():
        c.gstack.append(kappa)
        try:
            c.assume(z3.And(kappa >= 0, kappa < nn))
            return thunk(Sc("i", kappa))
        finally:
            c.gstack.pop()

    res = c.subexplore(run)
    oks = [(p, u, o[1]) for p, u, o in res if o[0] == "ok"]
    excs = [(p, u, o[1]) for p, u, o in res if o[0] == "exc"]
    if excs:
        for p, u, e in excs:
            if c.choose("raise"):
                for q in p:
                    c.assume(q)
                c.uni.extend(u)
                if not c.feasible(z3.BoolVal(True)):
                    raise core.Infeasible
                raise e
            # otherwise no index raises this way
    if not oks:
        # every index raises: on this branch the range is empty
        c.assume(nn <= 0)
        return Template(kappa, n, [])
    t = Template(kappa, n, oks)
    # register universally valid facts gathered during the evaluation
    if t.cond is not None and not z3.is_true(t.cond):
        c.forall(lambda k: z3.Implies(z3.And(k >= 0, k < nn), t.facts(k)), None, None)
    for _p, u, _v in oks:
        for lo, hi, fn, nv in u:
            c.uni.append((None, None, _guarded(fn, lo, hi, kappa, nn), nv + 1))
            if not c.gstack and nv == 1:
                _triggers(c, c.uni[-1][2], 2)
    return t


def _triggers(c, fn, nv):
    """A fact about every pair of indices is also instantiated where a fresh function of that pair occurs."""
    xs = [z3.FreshConst(z3.IntSort(), "ix!t") for _ in range(nv)]
    seen, names, todo = set(), set(), [z3b(fn(*xs))]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        ch = e.children()
        if (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and len(ch) == nv and all(a.eq(b) for a, b in zip(ch, xs))
                and e.decl().name().startswith("ix!")):
            names.add(e.decl().name())
        todo.extend(ch)
    for nm in names:
        c.lunary.setdefault(nm, []).append(lambda a: [fn(*a.children())])


def _guarded(fn, lo, hi, kappa, nn):
    def g(k, *rest):
        body = z3b(fn(*rest))
        conds = []
        for r in rest:
            if lo is not None:
                conds.append(r >= lo)
            if hi is not None:
                conds.append(r < z3i(hi))
        body = z3.Implies(z3.And(*conds), body) if conds else body
        return z3.Implies(z3.And(k >= 0, k < nn), z3.substitute(body, (kappa, k)))

    return g


def map_seq(seq, f, name="g"):
    seq = to_seq(seq)
    if isinstance(seq.n, int):
        return [f(seq.getter(IV(i))) for i in range(seq.n)]
    t = generic_map(seq.n, lambda k: f(seq.getter(k.re)), name)
    return SSeq(seq.n, t.inst)


class Flat(SSeq):
    """Concatenation of inner sequences: outer length n, inner lengths len(k), elements item(k, i)."""

    def __init__(self, n, inner):
        self.outer_n = n
        self.inner = inner          # k term -> SSeq
        c = ctx()
        nn = z3i(n)
        lens = lambda k: z3i(self.inner(k).n)
        self.off = closed_form(lens, nn)
        self.before = getattr(self.off, "before", self.off)     # for k < n
        total = self.off(nn)
        self._ofun = None
        super().__init__(Sc("i", total), self._get)

    def locate(self, p):
        """(k, i) with off(k) + i == p."""
        c = ctx()
        if self._ofun is None:
            nm = c.fresh_name("flat")
            self._ofun = z3.Function(nm + "_k", *([z3.IntSort()] * (1 + len(c.gstack))), z3.IntSort())
            nn, ofun, inner, off = z3i(self.outer_n), self._ofun, self.inner, self.off
            g = list(c.gstack)
            tot = z3i(self.n)

            def u(a):
                pp = a.children()[-1]
                k = a
                return [z3.Implies(z3.And(pp >= 0, pp < tot),
                                   z3.And(k >= 0, k < nn, off(k) <= pp, pp < off(k) + z3i(inner(k).n)))]

            core.UNARY[nm + "_k"] = [u]

            def pr(a, b):
                return [z3.Implies(z3.And(a.children()[-1] <= b.children()[-1]), a <= b)]

            core.PAIR[nm + "_k"] = [pr]
        k = self._ofun(*c.gstack, p)
        return k, z3.simplify(p - self.before(k))

    def _get(self, p):
        e = z3.simplify(p)
        k, i = self.locate(e)
        return self.inner(k).getter(i)


def closed_form(f, nn):
    """hi -> sum_{k<hi} f(k) for 0 <= hi <= nn; closed form when f is linear in k, or a constant step with a shorter last one."""
    k = z3.FreshConst(z3.IntSort(), "ix!l")
    b = z3.simplify(f(k))
    free = lambda e: not any(x.eq(k) for x in core.consts(e))
    step = lambda e: z3.simplify(z3.substitute(e, (k, k + 1)) - e)
    inside = z3.And(k >= 0, k < nn)
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
        c = ctx()
        leaves, todo = [], [b]
        while todo:
            e = todo.pop(0)
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                todo += [e.arg(1), e.arg(2)]
            elif not any(e.eq(x) for x in leaves):
                leaves.append(e)
        for e in leaves[:3]:
            if free(step(e)) and c.entails(z3.Implies(inside, b == e), timeout=1500, rounds=2):
                b = e
                break
        else:
            # b(k) = min(D, S - D k): the sum is min(D hi, S)
            for D in [e for e in leaves if free(e)]:
                for e in leaves:
                    S = z3.simplify(e + D * k)
                    if e is D or not free(S):
                        continue
                    F = lambda h, D=D, S=S: z3.If(D * h <= S, D * h, S)
                    if c.entails(z3.And(S >= 0, z3.Implies(inside, F(k + 1) - F(k) == b)), timeout=2000, rounds=2):
                        total = lambda hi: z3.simplify(F(hi))
                        if c.entails(z3.Implies(inside, D * k <= S), timeout=2000, rounds=2):
                            total.before = lambda h: z3.simplify(D * h)     # for h < nn
                        return total
    d = step(b)
    if free(d):
        b0 = z3.simplify(z3.substitute(b, (k, IV(0))))
        # sum = hi*b0 + d*hi*(hi-1)/2
        if z3.is_int_value(d) and d.as_long() == 0:
            return lambda hi: z3.simplify(hi * b0)
        return lambda hi: z3.simplify(hi * b0 + (d * hi * (hi - 1)) / 2)
    return lambda hi: sums.sum_(IV(0), hi, f)


def _int_parts(v):
    out = []

    def walk(x):
        if isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        elif isinstance(x, Sc) and x.k == "i":
            out.append(x.re)
        elif isinstance(x, int):
            out.append(IV(x))

    walk(v)
    return out


def _veq(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[_veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, SArr) and a.ndim == 1 and isinstance(a.shape[0], int):
        return _veq(tuple(a), b)
    if isinstance(b, SArr) and b.ndim == 1 and isinstance(b.shape[0], int):
        return _veq(a, tuple(b))
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        raise Unsupported("comparison of sequence elements")
    from .vals import s_eq
    return z3b(s_eq(la, lb))


def seq_index(seq, v):
    """list.index: first position whose element equals v; ValueError when there is none."""
    c = ctx()
    n = z3i(seq.n)
    parts = _int_parts(v)
    cands = list(parts)
    for a in parts:
        for b in parts:
            if a is not b:
                cands.append(z3.simplify(a - b))
                cands.append(z3.simplify(a + b))
    cands.append(IV(0))
    hint = getattr(c, "key_hints", None)
    if hint:
        cands += hint(v)
    if c.choose("found"):
        if isinstance(seq, Flat):
            k, i = c.fresh("ix!fk", "i"), c.fresh("ix!fi", "i")
            inner = seq.inner(k)
            c.assume(z3.And(k >= 0, k < z3i(seq.outer_n), i >= 0, i < z3i(inner.n)))
            c.assume(_veq(inner.getter(i), v))
            p = z3.simplify(seq.off(k) + i)
        else:
            p = c.fresh("ix!pos", "i")
            c.assume(z3.And(p >= 0, p < n))
            c.assume(_veq(seq.getter(p), v))
            # first occurrence (left out, which is weaker, when it would need more than two quantified variables)
            if len(c.gstack) <= 1:
                c.forall(lambda q: z3.Implies(z3.And(q >= 0, q < p), z3.Not(_veq(seq.getter(q), v))), None, None)
        if not c.feasible(z3.BoolVal(True)):
            raise core.Infeasible
        return Sc("i", p)
    if isinstance(seq, Flat):
        for k in cands:
            inner = seq.inner(k)
            for i in cands:
                c.assume(z3.Not(z3.And(k >= 0, k < z3i(seq.outer_n), i >= 0, i < z3i(inner.n), _veq(inner.getter(i), v))))
    else:
        for p in cands:
            c.assume(z3.Implies(z3.And(p >= 0, p < n), z3.Not(_veq(seq.getter(p), v))))
    raise ValueError("value is not in list")


class SDict:
    """Dictionary built from a symbolic sequence of (key, value) pairs with pairwise distinct keys."""

    def __init__(self, pairs):
        self.pairs = pairs          # SSeq of (key, value)
        self.keysq = SSeq(pairs.n, lambda k: pairs.getter(k)[0])

    def __getitem__(self, key):
        c = ctx()
        hint = getattr(c, "key_hints", None)
        if c.choose("key present"):
            p = c.fresh("ix!key", "i")
            c.assume(z3.And(p >= 0, p < z3i(self.pairs.n)))
            c.assume(_veq(self.keysq.getter(p), key))
            # the last pair with this key wins (left out, which is weaker, when it would need more than two quantified variables)
            if len(c.gstack) <= 1:
                c.forall(lambda q: z3.Implies(z3.And(q > p, q < z3i(self.pairs.n)), z3.Not(_veq(self.keysq.getter(q), key))), None, None)
            if not c.feasible(z3.BoolVal(True)):
                raise core.Infeasible
            return self.pairs.getter(p)[1]
        parts = _int_parts(key)
        cands = list(parts)
        for a in parts:
            for b in parts:
                if a is not b:
                    cands.append(z3.simplify(a - b))
        if hint:
            cands += hint(key)
        for p in cands:
            c.assume(z3.Implies(z3.And(p >= 0, p < z3i(self.pairs.n)), z3.Not(_veq(self.keysq.getter(p), key))))
        if not c.feasible(z3.BoolVal(True)):
            raise core.Infeasible
        raise KeyError(key)

    def items(self):
        return self.pairs

    def keys(self):
        return self.keysq

    def values(self):
        return SSeq(self.pairs.n, lambda k: self.pairs.getter(k)[1])


# ------------------------------------------------------------------ comprehensions
class _Skip:
    pass


SKIP = _Skip()


class Nest:
    def __init__(self, it, f):
        self.it, self.f = it, f


def unpack(pat, x):
    """Flatten x along the target pattern."""
    if pat is None:
        return (x,)
    xs = unpack_iter(x, len(pat))
    out = ()
    for p, y in zip(pat, xs):
        out += unpack(p, y)
    return out


def unpack_iter(x, n):
    if isinstance(x, (SSeq, SArr)):
        ln = seq_len(x)
        if not isinstance(ln, int):
            if not ctx().decide(z3i(ln) == n):
                raise ValueError("wrong number of values to unpack")
            s = to_seq(x)
            return [s.getter(IV(i)) for i in range(n)]
        x = to_seq(x)
        if ln != n:
            raise ValueError("wrong number of values to unpack")
        return [x.getter(IV(i)) for i in range(n)]
    xs = list(x)
    if len(xs) != n:
        raise ValueError("wrong number of values to unpack")
    return xs


def flat_collect(it, f):
    """Concrete or symbolic evaluation of (possibly nested) comprehension bodies."""
    if not is_symbolic_iter(it):
        out = []
        sym = None
        for x in it:
            r = f(x)
            if r is SKIP:
                continue
            if isinstance(r, Nest):
                r = flat_collect(r.it, r.f)
                if isinstance(r, SSeq) or sym is not None:
                    sym = concat_seq(sym if sym is not None else to_seq(out), to_seq(r))
                else:
                    out.extend(r)
            elif sym is not None:
                sym = concat_seq(sym, to_seq([r]))
            else:
                out.append(r)
        return out if sym is None else sym
    seq = to_seq(it)

    def body(k):
        r = f(seq.getter(k.re))
        if r is SKIP:
            raise Unsupported("filtered symbolic comprehension")
        if isinstance(r, Nest):
            inner = flat_collect(r.it, r.f)
            return ("nest", to_seq(inner) if not isinstance(inner, SSeq) else inner)
        return ("elt", r)

    t = generic_map(seq.n, body, "c")
    if t.value is None:
        return []
    if t.value[0] == "elt":
        return SSeq(seq.n, lambda k: t.inst(k)[1])
    return Flat(seq.n, lambda k: t.inst(k)[1])


def comp(kind, it, f):
    r = flat_collect(it, f)
    if kind == "list":
        return r if isinstance(r, SSeq) else list(r)
    if kind == "gen":
        return r if isinstance(r, SSeq) else iter(r)
    if kind == "set":
        if isinstance(r, SSeq):
            raise Unsupported("symbolic set")
        return set(r)
    if kind == "dict":
        if isinstance(r, SSeq):
            return SDict(r)
        try:
            return dict(r)
        except Unsupported:
            return SDict(to_seq(r))
    raise Unsupported(kind)


# ------------------------------------------------------------------ loops
class Poison:
    """Value of a variable whose content after/inside a cut loop is not described by the invariant."""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def _bad(self, *a, **k):
        raise Unsupported(f"value of '{self._n}' is not described by the loop contract")

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self._bad()


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv mod pow rpow lt le gt ge eq ne getitem setitem call iter len "
           "bool neg abs invert and or iadd isub imul itruediv matmul contains index float int rmod rfloordiv").split():
    setattr(Poison, f"__{_n}__", Poison._bad)
Poison.__hash__ = lambda self: id(self)


class LoopSpec:
    """Contract of one loop.

    inv(env, k): list of (label, condition) that hold before iteration k (k: number of completed iterations).
    havoc(env, k): dict name -> fresh value of the loop variables at iteration k.
    """

    def __init__(self, inv=None, havoc=None, post=None, variant=None, name=None, exit_hook=None, iter_hook=None, ret_inv=None):
        self.inv, self.havoc, self.post, self.variant, self.name = inv, havoc, post, variant, name
        self.exit_hook, self.iter_hook = exit_hook, iter_hook


LOOPS: dict = {}


def guard_gen(it, key):
    """Items of a generator; one that is suspended inside a cut loop stands for all iterations and needs a contract."""
    c = ctx()
    while True:
        mark = len(c.trace)
        try:
            x = next(it)
        except StopIteration:
            return
        opened = 0
        for e in c.trace[mark:]:
            if isinstance(e, tuple) and e[0] == "iter":
                opened += 1
        if opened:
            raise Unsupported(f"loop {key} over a generator that is suspended inside a cut loop")
        yield x


class Loop:
    def __init__(self, key, it, mods, kind="for"):
        self.key, self.kind, self.mods = key, kind, mods
        self.it = it
        self.spec = LOOPS.get(key)
        if callable(self.spec) and not isinstance(self.spec, LoopSpec):
            self.spec = self.spec()
        if isinstance(it, types.GeneratorType):
            self.it = guard_gen(it, key)
        if kind == "for":
            self.concrete = not is_symbolic_iter(it) and (self.spec is None or not getattr(self.spec, "force", False))
        else:
            self.concrete = False
        self.count = 0
        self.phase = 0
        self.auto = self.spec is None
        if kind == "for" and not self.concrete:
            self.seq = to_seq(it)

    # ---- entry
    def enter(self, env):
        c = ctx()
        self.env0 = dict(env)
        if self.kind == "while" and self.auto:
            return
        if self.auto:
            self.k = z3.Const(c.fresh_name("ix!loop"), z3.IntSort())
            self.skey = (self.key, self.k.decl().name(), repr(c.prefix[: c.pos]))
            vals = []
            self.lists = {}
            for m in self.mods:
                v = env.get(m, None)
                if m in env and (type(v) is list or isinstance(v, SSeq)):
                    self.lists[m] = v
                    vals.append(RecList(m))
                elif m in env and type(v).__name__ in ("module", "function"):
                    vals.append(v)
                else:
                    vals.append(Poison(m))
            self.havoced = tuple(vals)
            self.reclists = {m: v for m, v in zip(self.mods, vals) if isinstance(v, RecList)}
            return
        zero = IV(0)
        for lab, cond in self.spec.inv(Env(env, self), zero):
            c.prove(f"{self.key}.init.{lab}", cond, "loop invariant holds on entry")
        self.k = c.fresh("ix!k", "i")
        c.assume(self.k >= 0)
        if self.kind == "for":
            c.assume(self.k <= z3i(self.seq.n))
        hv = self.spec.havoc(Env(env, self), self.k) if self.spec.havoc else {}
        vals = []
        self.env1 = dict(env)
        for m in self.mods:
            v = hv[m] if m in hv else Poison(m)
            vals.append(v)
            self.env1[m] = v
        for m in hv:
            if m not in self.mods:
                if m in env and env[m] is not hv[m]:
                    raise Unsupported(f"loop contract describes '{m}', which the loop {self.key} does not assign")
        self.havoced = tuple(vals)
        for lab, cond in self.spec.inv(Env(self.env1, self), self.k):
            c.assume(cond)
        self.pc_mark = len(c.pc)
        c.cover(f"{self.key}.invariant")

    # ---- per iteration
    def more(self, env):
        c = ctx()
        if self.kind == "while" and self.auto:
            self.count += 1
            if self.count > 8:
                raise Unsupported(f"loop {self.key} without contract")
            return True
        if self.auto:
            if self.phase == 0:
                self.phase = 1
                if c.choose("iteration"):
                    c.gstack.append(self.k)
                    c.assume(z3.And(self.k >= 0, self.k < z3i(self.seq.n)))
                    if not c.feasible(z3.BoolVal(True)):
                        raise core.Infeasible
                    self.mark = (len(c.pc) - 1, len(c.uni))
                    c.trace.append(("iter", self.key, self.k, z3i(self.seq.n)))
                    return True
                c.trace.append(("exit", self.key, z3i(self.seq.n)))
                return False
            # end of the arbitrary iteration: record what was appended
            rec = c.store.setdefault(("loop", self.skey), {})
            path = repr(c.prefix[: c.pos])
            rec[path] = (list(c.pc[self.mark[0]:]), list(c.uni[self.mark[1]:]),
                         {m: list(r.items) for m, r in self.reclists.items()})
            c.trace.append(("enditer", self.key, self.k))
            if getattr(c, "on_iter_end", None):
                c.on_iter_end(self)
            raise PathEnd
        if self.phase == 0:
            self.phase = 1
            if self.kind == "for":
                if c.choose("iteration"):
                    c.assume(self.k < z3i(self.seq.n))
                    if not c.feasible(z3.BoolVal(True)):
                        raise core.Infeasible
                    c.trace.append(("iter", self.key, self.k, z3i(self.seq.n)))
                    if self.spec.iter_hook:
                        self.spec.iter_hook(Env(self.env1, self), self.k)
                    return True
                c.assume(self.k == z3i(self.seq.n))
                c.trace.append(("exit", self.key, self.k))
                return False
            if self.spec.variant:
                self.v0 = self.spec.variant(Env(self.env1, self))
            c.trace.append(("iter", self.key, self.k))
            return True
        k1 = z3.simplify(self.k + 1)
        for lab, cond in self.spec.inv(Env(env, self), k1):
            c.prove(f"{self.key}.step.{lab}", cond, "loop invariant is preserved")
        if self.spec.variant:
            v1 = self.spec.variant(Env(env, self))
            c.prove(f"{self.key}.variant", z3.And(z3i(self.v0) >= 0, z3i(v1) < z3i(self.v0)), "loop terminates")
        c.trace.append(("enditer", self.key, self.k))
        if getattr(c, "on_iter_end", None):
            c.on_iter_end(self)
        raise PathEnd

    def item(self):
        return self.seq.getter(self.k)

    # ---- exit by exhaustion
    def exit(self, env):
        c = ctx()
        if not self.auto:
            if self.spec.exit_hook:
                self.spec.exit_hook(Env(env, self), self.k)
            return tuple(env.get(m, Poison(m)) for m in self.mods)
        rec = c.store.get(("loop", self.skey), {})
        out = []
        n = self.seq.n
        for m in self.mods:
            if m in self.lists:
                base = self.lists[m]
                if not rec:
                    out.append(base)
                    continue
                lens = {len(r[2][m]) for r in rec.values()}
                if lens == {0}:
                    out.append(base)
                    continue
                if lens != {1}:
                    raise Unsupported(f"loop {self.key}: number of appends to '{m}' varies")
                t = Template(self.k, n, [(r[0], r[1], r[2][m][0]) for r in rec.values()])
                nn = z3i(n)
                if t.cond is not None and not z3.is_true(t.cond):
                    c.forall(lambda k, t=t, nn=nn: z3.Implies(z3.And(k >= 0, k < nn), t.facts(k)), None, None)
                for r in rec.values():
                    for lo, hi, fn, nv in r[1]:
                        c.uni.append((None, None, _guarded(fn, lo, hi, self.k, nn), nv + 1))
                s = SSeq(n, t.inst)
                base_seq = to_seq(list(base)) if type(base) is list else base
                out.append(concat_seq(base_seq, s) if not (type(base) is list and not base) else s)
            else:
                v = self.env0.get(m)
                if type(v).__name__ in ("module", "function"):
                    out.append(v)
                else:
                    out.append(Poison(m))
        return tuple(out)


class RecList:
    """Records appends inside one arbitrary iteration of a summarised loop."""

    def __init__(self, name):
        self.name, self.items = name, []

    def append(self, v):
        self.items.append(v)

    def extend(self, vs):
        for v in vs:
            self.items.append(v)

    def __iadd__(self, o):
        if isinstance(o, (list, tuple)):
            self.items.extend(o)
            return self
        raise Unsupported("+= on loop list")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"'{self.name}.{n}' inside a summarised loop")

    def __iter__(self):
        raise Unsupported(f"reading '{self.name}' inside a summarised loop")

    __getitem__ = __len__ = __bool__ = __iter__


class Env:
    """Attribute access to the local variables of the verified function."""

    def __init__(self, d, loop=None):
        self.__dict__["_d"] = d
        self.__dict__["loop_"] = loop

    def item_(self, k):
        """The value the loop variable takes in iteration k."""
        return self.loop_.seq.getter(k)

    def __getattr__(self, n):
        if n in self._d:
            return self._d[n]
        raise Unsupported(f"loop contract refers to the local variable '{n}', which does not exist")

    def get(self, n, default=None):
        return self._d.get(n, default)
