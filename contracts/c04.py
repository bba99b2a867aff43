"""C04: iterative normal sampling reproduces the covariance."""
import z3

from contracts.util import fubini, induct, unknown
from pv import xp as X
from pv.arr import SArr, memo, rsum
from pv.core import PathEnd, Unsupported, ctx, z3i
from pv.harness import harness
from pv.seq import LoopSpec, SSeq
from pv.vals import Sc, cast

P = "glass.fields."
I, R = z3.IntSort(), z3.RealSort()
ZERO = z3.IntVal(0)
LOOP = P + "iternorm:for1"
STATE = {}


def re(s):
    return cast(s if isinstance(s, Sc) else s.at(), "r").re


class World:
    """Rows of the covariance and the ghost weights W(f, q) of field f on draw q (for one arbitrary mode)."""

    def __init__(self, v, rank):
        self.v, self.rank = v, rank
        self.count = v.int("count", lo=0)
        self.lead = tuple(v.int(f"modes{d}", lo=1) for d in range(rank))
        self.p = tuple(v.ix(f"mode{d}", n) for d, n in enumerate(self.lead))
        self.K = z3.Function("row_len", I, I)        # number of previous fields of row i
        self.row = z3.Function("row", I, *([I] * rank), I, R)
        self.W = z3.Function("W", I, I, R)
        v.c.lunary.setdefault("row_len", []).append(lambda a: [a >= 0])
        v.c.lunary.setdefault("W", []).append(lambda a: [z3.Implies(a.arg(1) > a.arg(0), a == 0)])
        self.rows = SSeq(self.count, self.get)

    def get(self, i):
        i = z3.simplify(i)
        return SArr((*self.lead, Sc("i", self.K(i) + 1)), "r", memo(lambda *q: Sc("r", self.row(i, *q))), X.NUMPY, owner="row")

    def cov(self, i, d):
        return self.row(i, *self.p, d)

    def weight(self, f, q):
        return self.W(z3.simplify(f), z3.simplify(q))


def contract():
    w = STATE["w"]
    v = w.v

    def havoc(env, k):
        """loop variables before iteration k >= 1: inverse of the weights of the K fields before the last one, and the last one's own"""
        if v.c.decide(k == 0):
            return {}
        K = w.K(k - 1)
        v.assume(w.K(k) <= K + 1)
        rk = w.rank
        M = z3.Function(v.c.fresh_name("any_m"), *([I] * (rk + 2)), R)
        A = z3.Function(v.c.fresh_name("any_a"), *([I] * (rk + 1)), R)
        first = k - 1 - K      # field of the first column
        mode = lambda t: [t.arg(d) == w.p[d] for d in range(rk)]
        v.c.lunary.setdefault(M.name(), []).append(
            lambda t: [z3.Implies(z3.And(*mode(t), z3.Or(t.arg(rk + 1) > t.arg(rk), first + t.arg(rk) < 0, first + t.arg(rk + 1) < 0)), t == 0)])
        v.c.lunary.setdefault(A.name(), []).append(
            lambda t: [z3.Implies(z3.And(*mode(t), z3.BoolVal(True)), t == w.weight(k - 1, first + t.arg(rk)))])
        ws = w.weight(k - 1, k - 1)
        v.assume(ws > 0)        # the conditional variance of the previous field is positive
        m = SArr((*w.lead, Sc("i", K), Sc("i", K)), "r", memo(lambda *q: Sc("r", M(*q))), X.NUMPY)
        aa = SArr((*w.lead, Sc("i", K)), "r", memo(lambda *q: Sc("r", A(*q))), X.NUMPY)
        if rk:
            sf = z3.Function(v.c.fresh_name("any_s"), *([I] * rk), R)
            v.assume(sf(*w.p) == ws)
            ss = SArr(w.lead, "r", memo(lambda *q: Sc("r", sf(*q))), X.NUMPY)
        else:
            ss = SArr((), "r", memo(lambda: Sc("r", ws)), X.NUMPY)
        w.prev = lambda t: A(*w.p, t)
        w.M, w.Kp = (lambda r, c: M(*w.p, r, c)), K
        return {"m": m, "a": aa, "s": ss, "n": w.lead, "xp": X.NUMPY}

    def inv(env, k1):
        if STATE.get("item") is None:
            return []
        step(env, w, STATE["i"], STATE["item"])
        return []
    return LoopSpec(inv, havoc)


def inverse(w, i, k, m, r, c):
    """weights of the fields before i times m is the identity"""
    f = i - k
    return rsum(ZERO, Sc("i", k), lambda t: Sc("r", w.weight(f + r, f + t) * m(t, c))).re == z3.If(r == c, z3.RealVal(1), z3.RealVal(0))


def step(env, w, i, item):
    v = w.v
    k = w.K(i)
    for nm in ("m", "a", "s"):
        if not isinstance(env.get(nm), SArr):
            if nm == "s" and isinstance(env.get(nm), Sc):
                continue
            raise Unsupported("the loop does not keep the inverse and the weights in m, a, s")
    if env.get("n") != w.lead and tuple(env.get("n")) != tuple(w.lead):
        raise Unsupported("shape of the modes")
    v.dims("m.shape", env.m, (*w.lead, Sc("i", k), Sc("i", k)))
    v.dims("a.shape", env.a, (*w.lead, Sc("i", k)))
    m = lambda r, c: re(env.m.at(*w.p, r, c))
    part = STATE["part"]
    if part == "variance":
        variance(w, i, k, env)
        return
    if part == "covariance":
        covariance(w, i, k, m, env)
        return
    # the state that is kept is what was yielded
    t0 = v.ix("t0", Sc("i", k))
    for t, nm, x in () if part != "inverse" else ((t0, "weights", re(env.a.at(*w.p, t0))), (k, "scale", re(env.s.at(*w.p) if isinstance(env.s, SArr) else env.s))):
        w.define(t)
        g = x == w.weight(i, i - k + t)
        if not v.hint(g, using=[w.definition(t), t < k if nm == "weights" else k >= 0]):
            v.hint(g)
        v.prove("kept." + nm, g)
    # inverse: zero outside the fields that exist, lower triangular
    r, c = v.ix("r", Sc("i", k)), v.ix("c", Sc("i", k))
    f = i - k
    later = v.c.decide(i >= 1)
    outside = z3.Or(f + r < 0, f + c < 0, c > r)
    if part == "inverse":
        v.assume(outside)
    else:       # rows of the fields before the last one, and the row of the last one
        v.assume(z3.And(z3.Not(outside), r < k - 1 if part == "identity-old" else r == k - 1))
    if part == "inverse":
        cc = z3.simplify(c + w.Kp + 1 - k) if later else None
        if later and v.c.decide(z3.And(r == k - 1, cc < w.Kp)):
            S = lambda n: rsum(ZERO, Sc("i", n), lambda t: Sc("r", w.prev(t) * w.M(t, cc))).re
            induction(v, "nothing-before-the-first", lambda n: S(n) == 0, w.Kp)
        v.prove("inverse.zero", m(r, c) == 0)
    elif later:
        inverse_step(w, i, k, m, r, c)


def induction(v, name, claim, n, step=None):
    ext, v.c.ext_enabled = v.c.ext_enabled, False
    ok = induct(v, name, claim, n, step)
    v.c.ext_enabled = ext
    return ok


def inverse_step(w, i, k, m, r, c):
    """the weights of the fields before i times m is the identity, at (r, c)"""
    v, K, M = w.v, w.Kp, w.M
    D = K + 1 - k                   # fields that fall out of the window
    F = i - 1 - K                   # first field of the enlarged matrix
    rr, cc = z3.simplify(r + D), z3.simplify(c + D)
    S = lambda n, f: rsum(ZERO, Sc("i", n), lambda t: Sc("r", f(t))).re
    new = lambda t: m(z3.simplify(t - D), c)
    T = lambda t: w.weight(F + rr, F + t) * new(t)
    part = lambda n: S(n, T)
    # what leaves the window does not contribute (lower triangular)
    ext, v.c.ext_enabled = v.c.ext_enabled, False

    def dropped(t):
        v.lemma("dropped", new(t) == 0)
        v.lemma("dropped-term", T(t) == 0)
    induct(v, "outside-window", lambda n: part(n) == 0, D, dropped)
    shifted = lambda n: S(n, lambda t: w.weight(F + rr, F + D + t) * m(t, c))
    induct(v, "window", lambda n: shifted(n) == part(n + D), k)
    unit = lambda c_: z3.If(c_, z3.RealVal(1), z3.RealVal(0))
    P0, P1, TK, NK = part(K), part(K + 1), T(K), new(K)
    facts, gen = [], [P0, P1, TK, NK]

    def fact(name, g, **kw):
        v.lemma(name, g, **kw)
        facts.append(g)
    fact("last-row", P1 == P0 + TK)
    if v.c.decide(rr < K):
        fact("not-yet-drawn", TK == 0)
        if v.c.decide(cc < K):
            # the inverse before this iteration (induction hypothesis)
            old = S(K, lambda t: w.weight(F + rr, F + t) * M(t, cc))
            v.assume(old == unit(rr == cc))
            v.congr("same-matrix", ZERO, K, T, lambda t: w.weight(F + rr, F + t) * M(t, cc))
            fact("old-row", P0 == old)
            facts += [old == unit(rr == cc)]
            gen.append(old)
        else:
            induct(v, "new-column", lambda n: part(n) == 0, K, lambda t: v.lemma("new-column-zero", new(t) == 0))
            facts.append(P0 == 0)
    else:
        s = w.weight(i - 1, i - 1)
        v.lemma("last-field", rr == K)
        v.hint(w.weight(F + rr, F + K) == s)
        fact("last-term", TK == s * NK, using=[w.weight(F + rr, F + K) == s], gen=[w.weight(F + rr, F + K), s, NK])
        gen.append(s)
        if v.c.decide(cc < K):
            old = S(K, lambda t: w.prev(t) * M(t, cc))
            fact("new-row", NK * s == -old)
            v.congr("same-matrix", ZERO, K, T, lambda t: w.prev(t) * M(t, cc))
            fact("old-row", P0 == old)
            gen.append(old)
        else:
            v.lemma("last-column", cc == K)
            fact("corner", NK * s == 1)
            induct(v, "new-column", lambda n: part(n) == 0, K, lambda t: v.lemma("new-column-zero", new(t) == 0))
            facts.append(P0 == 0)
    f = i - k
    same = v.c.decide(r == c)
    v.lemma("in-window", P1 == (1 if same else 0), using=[*facts, r == c if same else r != c, rr == r + D, cc == c + D, D == K + 1 - k,
                                                          k >= 0], gen=gen)
    v.lemma("window-sum", shifted(k) == part(K + 1))
    v.prove("inverse.identity", S(k, lambda t: w.weight(f + r, f + t) * m(t, c)) == z3.If(r == c, z3.RealVal(1), z3.RealVal(0)))
    v.c.ext_enabled = ext


def variance(w, i, k, env):
    v = w.v
    f = i - k
    W = lambda t: w.weight(i, f + t)
    S = lambda n, g: rsum(ZERO, Sc("i", n), lambda t: Sc("r", g(t))).re
    ext, v.c.ext_enabled = v.c.ext_enabled, False
    w.define(k)
    a = lambda t: re(env.a.at(*w.p, t))

    v.congr("weights", ZERO, k, lambda t: a(t) * a(t), lambda t: W(t) * W(t),
            by=lambda t: ([a(t) == W(t)], [a(t), W(t)]), via=lambda t: v.assume(a(t) == W(t)))       # kept.weights
    q = w.cov(i, ZERO) - S(k, lambda t: W(t) * W(t))
    v.prove("variance-left", q >= 0)
    v.prove("scale-nonnegative", W(k) >= 0)
    v.prove("variance", S(k, lambda t: W(t) * W(t)) + W(k) * W(k) == w.cov(i, ZERO))
    v.c.ext_enabled = ext


def covariance(w, i, k, m, env):
    """the requested covariances are those of the weights that were yielded"""
    v = w.v
    f = i - k
    one = lambda c: z3.If(c, z3.RealVal(1), z3.RealVal(0))
    W = lambda t: w.weight(i, f + t)
    S = lambda n, g: rsum(ZERO, Sc("i", n), lambda t: Sc("r", g(t))).re
    ext, v.c.ext_enabled = v.c.ext_enabled, False

    r = v.ix("field", Sc("i", k))
    if not v.c.decide(f + r >= 0):
        w.define(r)
        A = lambda n: S(n, lambda u: m(r, u) * w.cov(i, k - u))
        induct(v, "no-draw", lambda n: A(n) == 0, k, lambda u: v.assume(m(r, u) == 0))      # inverse.zero
        v.prove("before-the-first-draw", W(r) == 0)
        v.c.ext_enabled = ext
        return
    # the inverse by what was proved about it (inverse.zero, inverse.identity)
    N = z3.Function(v.c.fresh_name("inverse"), I, I, R)
    v.c.lunary.setdefault(N.name(), []).append(
        lambda t: [z3.Implies(z3.Or(t.arg(1) > t.arg(0), f + t.arg(0) < 0, f + t.arg(1) < 0), t == 0)])
    c = lambda u: w.cov(i, z3.simplify(k - u))
    V = lambda t: w.weight(f + r, f + t)
    inner = lambda t: S(k, lambda u: N(t, u) * c(u))

    def solve(t):
        w.define(t)
        v.congr("product", ZERO, k, lambda u: m(t, u) * c(u), lambda u: N(t, u) * c(u), via=lambda u: v.assume(N(t, u) == m(t, u)))
        v.lemma("weight", W(t) == inner(t))

    v.congr("solution", ZERO, k, lambda t: V(t) * W(t), lambda t: V(t) * inner(t), via=solve)
    cell = lambda t, u: Sc("r", V(t) * N(t, u) * c(u))
    v.congr("spread", ZERO, k, lambda t: V(t) * inner(t), lambda t: S(k, lambda u: cell(t, u).re))
    fubini(v, cell, k, k)

    def column(u):
        col = lambda n: S(n, lambda t: V(t) * N(t, u))
        if v.c.decide(f + u >= 0):
            v.assume(col(k) == one(u == r))         # inverse.identity
        else:
            induct(v, "before-the-first", lambda n: col(n) == 0, k)
            v.lemma("not-selected", u != r)
    v.congr("identity", ZERO, k, lambda u: S(k, lambda t: cell(t, u).re), lambda u: one(u == r) * c(u), via=column)
    induct(v, "select", lambda n: S(n, lambda u: one(u == r) * c(u)) == z3.If(r < n, c(r), z3.RealVal(0)), k)
    v.prove("covariance", S(k, lambda t: V(t) * W(t)) == c(r))
    v.c.ext_enabled = ext


def frame(e, name):
    """local variables of the function that raised"""
    tb, loc = e.__traceback__, {}
    while tb is not None:
        if tb.tb_frame.f_code.co_name == name:
            loc = tb.tb_frame.f_locals
        tb = tb.tb_next
    return loc


def sampler(rank, part):
    @harness(f"iternorm[{rank},{part}]", funcs=[P + "iternorm"], loops=lambda: {LOOP: contract})
    def h(v):
        w = World(v, rank)
        STATE.clear()
        STATE.update(w=w, part=part)
        v.cover()
        gen = v.fn(P + "iternorm")(w.rows)
        try:
            kind, item = v.attempt(next, gen)
        except Unsupported as e:
            if isinstance(e.__cause__, StopIteration):
                return
            raise
        if kind != "ok":
            v.prove("rejected", isinstance(item, ValueError))
            loc = frame(item, "iternorm")
            if rank == 0 and part == "variance" and isinstance(loc.get("a"), SArr) and loc.get("row") is not None:
                a = lambda t: re(loc["a"].at(*w.p, t))
                S = rsum(ZERO, loc["a"].shape[-1], lambda t: Sc("r", a(t) * a(t))).re
                v.prove("rejected-only-negative-variance", re(loc["row"].at(*w.p, ZERO)) - S < 0)
            return
        i = STATE["i"] = [e for e in ctx().trace if isinstance(e, tuple) and e[0] == "iter"][-1][2]
        k = w.K(i)
        v.dims("weights.shape", item, (*w.lead, Sc("i", k + 1)))
        w.definition = lambda t: w.weight(i, i - k + t) == re(item.at(*w.p, t))
        w.define = lambda t: v.assume(z3.Implies(z3.And(t >= 0, t <= k), w.definition(t)))
        STATE["item"] = item
        v.attempt(next, gen)
    return h


for _r in (0, 1):
    for _p in ("inverse", "identity-old", "identity-new", "variance", "covariance"):
        sampler(_r, _p)


def malformed(rank):
    @harness(f"malformed[{rank}]", funcs=[P + "iternorm"], loops=lambda: {LOOP: contract})
    def h(v):
        """an empty row, or one for other modes than the first, is rejected"""
        w = World(v, rank)
        STATE.clear()
        STATE["w"] = w
        base = w.rows.getter
        cut = z3.Int("cut")
        what = v.c.decide(z3.Bool("empty"))
        other = tuple(v.int(f"others{d}", lo=0) for d in range(rank))
        if not what:
            if not rank:
                other = (v.int("others0", lo=1),)
            else:
                v.assume(z3.Or([a.re != b.re for a, b in zip(w.lead, other)]))
            v.assume(cut >= 1)

        def get(i):
            r = base(i)
            if not i.eq(cut) and not v.c.decide(i == cut):
                return r
            if what:
                return SArr((*w.lead, 0), "r", memo(lambda *q: Sc("r", z3.RealVal(0))), X.NUMPY)
            return SArr((*other, r.shape[-1]), "r", memo(lambda *q: Sc("r", z3.RealVal(0))), X.NUMPY)
        v.assume(z3.And(cut >= 0, cut < w.count.re))
        v.cover()
        gen = v.fn(P + "iternorm")(SSeq(w.count, get))
        try:
            kind, e = v.attempt(next, gen)
        except Unsupported as u:
            if isinstance(u.__cause__, StopIteration):
                return
            raise
        it = [e for e in ctx().trace if isinstance(e, tuple) and e[0] == "iter"]
        if it and v.c.entails(it[-1][2] == cut):
            v.prove("rejected", kind != "ok" and isinstance(e, ValueError))
    return h


malformed(0)
malformed(1)


# ------------------------------------------------------------------ rows from spectra
C = P + "cls2cov"


def pointwise(a, fact):
    """a fact about every element of an unknown array"""
    rd = a.reader()         # the content at this point (the array is written to afterwards)
    f = re(rd(*[z3.Int(f"ix!probe{d}") for d in range(a.ndim)])).decl()
    ctx().lunary.setdefault(f.name(), []).append(lambda t: [fact(t, *t.children())])


def rows_loops():
    """outer loop: the columns that were not set yet are zero; inner loop: the first columns are the spectra of this row"""
    st = STATE

    def arr2(env):
        nm = [m for m in env.loop_.mods if isinstance(env.loop_.env0.get(m), SArr)]
        if len(nm) != 1:
            raise Unsupported("the row array is not identified")
        return nm[0]

    def ends(env):
        """integers that the outer loop carries"""
        return [m for m in env.loop_.mods if isinstance(env.loop_.env0.get(m), (int, Sc)) and not isinstance(env.loop_.env0.get(m), bool)]

    def inv1(env, k):
        v = st["v"]
        out = []
        for m in ends(env):
            out.append((m, 2 * z3i(env.get(m)) == k * (k + 1)))
        a = env.get(arr2(env))
        if st.get("phase") == "assume":
            return out
        l, d = v.ix("l", st["nl"]), v.ix("d", Sc("i", st["nc"].re + 1))
        out.append(("unused", z3.Implies(d >= k, re(a.at(l, d)) == 0)))
        return out

    def havoc1(env, k):
        a = unknown("rows", (st["nl"], Sc("i", st["nc"].re + 1)))
        pointwise(a, lambda x, l, d: z3.Implies(d >= k, x == 0))
        out = {arr2(env): a}
        for m in ends(env):
            out[m] = Sc("i", ctx().fresh("end", "i"))
        st["row"], st["before"] = k, a
        return out

    def value(x, k, l, d):
        S = st["S"]
        b = z3i(st["begin"](st["row"]))
        return x == z3.If(d < k, S.at(b + d, l), re(st["start"].at(l, d)))

    def inv2(env, k):
        v = st["v"]
        a = env.get(arr2(env))
        if z3.is_int_value(k) and k.as_long() == 0:
            st["start"] = env.loop_.env0[arr2(env)].copy_()
        l, d = v.ix("l2", st["nl"]), v.ix("d2", Sc("i", st["nc"].re + 1))
        auto = lambda l: z3.Implies(k >= 1, st["S"].at(z3i(st["begin"](st["row"])), l) >= 0)
        return [("columns", value(re(a.at(l, d)), k, l, d)), ("auto-not-negative", auto(l))]

    def havoc2(env, k):
        a = unknown("columns", (st["nl"], Sc("i", st["nc"].re + 1)))
        pointwise(a, lambda x, l, d: value(x, k, l, d))
        st["v"].forall(lambda l: z3.Implies(z3.And(k >= 1, l >= 0), st["S"].at(z3i(st["begin"](st["row"])), l) >= 0), None, None)
        return {arr2(env): a}
    def iteration(env, k):
        n, t = st["nf"].re, st["t"].re
        st["v"].hint((k + 1) * (k + 2) <= n * (n + 1), using=[k + 1 <= n, k >= 0])
        st["v"].hint((k + 1) * (k + 2) <= 2 * t)
    return {C + ":for1": LoopSpec(inv1, havoc1, iter_hook=iteration), C + ":for2": LoopSpec(inv2, havoc2)}


@harness("cls2cov", funcs=[C], loops=rows_loops)
def rows(v):
    from contracts.util import Spectra, triangle
    nf, t = triangle(v, lo=1)
    nl, nc = v.int("nl", lo=1), v.int("nc", lo=0)
    S = Spectra(v, t, maxlen=nl.re)
    STATE.clear()
    begin = lambda j: j * (j + 1) / 2
    STATE.update(v=v, nf=nf, t=t, nl=nl, nc=nc, S=S, begin=begin)
    v.cover()
    gen = v.fn(C)(S.seq, nl, nf, nc)
    try:
        kind, item = v.attempt(next, gen)
    except Unsupported as e:
        if isinstance(e.__cause__, StopIteration):
            return
        raise
    j = STATE["row"]
    if kind != "ok":
        v.prove("rejected", isinstance(item, ValueError))
        return
    v.dims("shape", item, (nl, Sc("i", nc.re + 1)))
    l, d = v.ix("mode", nl), v.ix("col", Sc("i", nc.re + 1))
    got = re(item.at(l, d))
    v.prove("value", got == z3.If(d <= j, S.at(begin(j) + d, l) / 2, z3.RealVal(0)))
    v.prove("auto-spectrum-not-negative", S.at(begin(j), l) >= 0)
    v.attempt(next, gen)
