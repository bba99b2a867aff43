"""C12: restriction, combination and partition follow their formulas."""
import z3

from contracts.util import Shells, lin, ravel, unknown
from pv import xp as X
from pv.arr import SArr, memo, rsum
from pv.core import Unsupported, ctx, z3i
from pv.harness import harness
from pv.seq import LoopSpec, SSeq
from pv.stubs import events
from pv.vals import Sc, cast

S = "glass.shells."
I, R = z3.IntSort(), z3.RealSort()
ZERO, HALF = z3.RealVal(0), z3.Q(1, 2)
ST = {}


def re(s):
    return cast(s if isinstance(s, Sc) else s.at(), "r").re


def trap(y, x, n):
    """trapezoidal rule for terms y(k), x(k), k < n"""
    return rsum(0, Sc("i", n - 1), lambda k: Sc("r", (x(k + 1) - x(k)) * (y(k) + y(k + 1)) * HALF)).re


# ------------------------------------------------------------------ restriction
def inputs(v, rank, least=1):
    n = v.int("n", lo=least)
    lead = tuple(v.int(f"m{q}", lo=1) for q in range(rank))
    z, f = v.arr("z", (n,)), v.arr("f", (*lead, n))
    v.increasing(z)
    return n, lead, z, f


def places(a, x, i, extra=None):
    """index terms at which the array `a` may hold x[i]"""
    if a is x or (getattr(a, "buf", None) is not None and a.buf is getattr(x, "buf", 0)):
        return [i]
    g = getattr(a, "ghost", None)
    if g:
        return g(x, i)
    s = getattr(x, "shell", None)
    if s is not None and getattr(a, "shell", None) is not None and a.shell.eq(s):
        return [i]
    u = getattr(a, "union", None)
    if u:
        return [u["pa"](t) for t in places(u["a"], x, i)] + [u["pb"](t) for t in places(u["b"], x, i)]
    m = getattr(a, "masked", None)
    if m:
        return [m["rank"](t) for t in places(m["of"], x, i)]
    c = getattr(a, "copied", None)
    return places(c, x, i) if c is not None else []


def contains(a, x, i):
    n = z3i(a.shape[0])
    return z3.Or(*[z3.And(t >= 0, t < n, re(a.at(t)) == re(x.at(i))) for t in places(a, x, i)])


def restriction(rank):
    @harness(f"restrict[{rank}]", funcs=[S + "restrict", "glass.arraytools.ndinterp"])
    def h(v):
        n, lead, z, f = inputs(v, rank)
        m = v.int("m", lo=2)
        za, wa = v.arr("za", (m,)), v.arr("wa", (m,))
        v.increasing(za)
        w = v.fn(S + "RadialWindow")(za, wa, v.real("zeff"))
        li = [v.ix(f"l{q}", d) for q, d in enumerate(lead)]
        v.cover()
        zr, fr = v.call(v.fn(S + "restrict"), z, f, w)
        if zr.ndim != 1:
            v.c.fail("grid", "not one-dimensional")
            return
        N = z3i(zr.shape[0])
        v.dims("values.shape", fr, (*lead, zr.shape[0]))
        a, b = re(za.at(z3.IntVal(0))), re(za.at(m.re - 1))
        # the grid: increasing, exactly the window's grid and the function's points strictly inside
        k, k2 = z3.Int("ix!k"), z3.Int("ix!k2")
        v.assume(z3.And(k >= 0, k < k2, k2 < N))
        v.prove("grid.increasing", re(zr.at(k)) < re(zr.at(k2)))
        i, j = v.ix("i", m), v.ix("j", n)
        v.prove("grid.contains-window-points", contains(zr, za, i))
        zj = re(z.at(j))
        v.prove("grid.contains-inner-points", z3.Implies(z3.And(zj > a, zj < b), contains(zr, z, j)))
        q = v.ix("q", Sc("i", N))
        x = v.let("x", re(zr.at(q)))
        v.lemma("window-range", z3.And(re(za.at(i)) >= a, re(za.at(i)) <= b))
        v.prove("grid.inside-window", z3.And(x >= a, x <= b))
        # the values
        fx = lin(lambda t: re(z.at(t)), lambda t: re(f.at(*li, t)), x, n.re)
        wx = lin(lambda t: re(za.at(t)), lambda t: re(wa.at(t)), x, m.re, None)
        v.prove("values", re(fr.at(*li, q)) == fx * wx)
    return h


for _r in (0, 1, 2):
    restriction(_r)


@harness("restrict[2d-z]", funcs=[S + "restrict"])
def bad_z(v):
    n, m = v.int("n", lo=1), v.int("m", lo=1)
    v.cover()
    v.raises_iff("z-must-be-1d", ValueError, z3.BoolVal(True), v.fn(S + "restrict"), v.arr("z", (n, m)), v.arr("f", (n, m)),
                 Shells(v, v.int("S", lo=1)).get(z3.IntVal(0)))


# ------------------------------------------------------------------ combination
def combination(rank):
    @harness(f"combine[{rank}]", funcs=[S + "combine"])
    def h(v):
        K = v.int("S", lo=1)
        sh = Shells(v, K)
        n = v.int("n", lo=1)
        lead = tuple(v.int(f"m{q}", lo=1) for q in range(rank))
        z, x = v.arr("z", (n,)), v.arr("x", (K, *lead))
        li = [v.ix(f"l{q}", d) for q, d in enumerate(lead)]
        q = v.ix("q", n)
        T = lambda s: trap(lambda k: sh.wa(s, k), lambda k: sh.za(s, k), sh.len(s))
        v.forall(lambda s: T(s) != 0, None, None)
        v.cover()
        out = v.call(v.fn(S + "combine"), z, x, sh.seq)
        v.dims("shape", out, (*lead, n))
        zq = re(z.at(q))
        term = lambda s: Sc("r", re(x.at(s, *li)) * lin(lambda k: sh.za(s, k), lambda k: sh.wa(s, k) / T(s), zq, sh.len(s)))
        got = re(out.at(*li, q))
        v.prove("sum-over-shells", got == rsum(z3.IntVal(0), K, term).re)
        s = v.ix("s", K)
        v.prove("outside-is-zero", z3.Implies(z3.Or(zq < sh.za(s, z3.IntVal(0)), zq > sh.za(s, sh.len(s) - 1)), term(s).re == 0))
        v.assume(T(s) != 0)
        first, last = sh.za(s, z3.IntVal(0)), sh.za(s, sh.len(s) - 1)
        v.c.decide(zq < first) or v.c.decide(zq > last) or v.c.decide(zq == last)
        v.prove("normalised-window", lin(lambda k: sh.za(s, k), lambda k: sh.wa(s, k) / T(s), zq, sh.len(s)) * T(s) == sh.lin(s, zq))
    return h


for _r in (0, 1):
    combination(_r)


# ------------------------------------------------------------------ partition by restriction
def by_restriction(rank):
    @harness(f"partition_restrict[{rank}]", funcs=[S + "partition_restrict"])
    def h(v):
        n, lead, z, f = inputs(v, rank)
        K = v.int("S", lo=1)
        sh = Shells(v, K)
        nr = z3.Function("r_len", I, I)
        zr, fr = z3.Function("r_z", I, I, R), z3.Function("r_f", I, *[I] * rank, I, R)
        v.c.forall(lambda s: nr(s) >= 1, None, None)

        def restrict(zz, ff, w, **k):
            if k or not (zz.buf is z.buf and ff.buf is f.buf) or w.za.buf is None or not hasattr(w.za, "shell"):
                raise Unsupported("use of restrict")
            s = w.za.shell
            d = Sc("i", nr(s))
            return (SArr((d,), "r", memo(lambda i: Sc("r", zr(s, i))), X.NUMPY), SArr((*lead, d), "r", memo(lambda *i: Sc("r", fr(s, *i))), X.NUMPY))

        v.replace(S + "restrict", restrict)
        li = [v.ix(f"l{q}", d) for q, d in enumerate(lead)]
        s = v.ix("s", K)
        v.cover()
        out = v.call(v.fn(S + "partition_restrict"), z, f, sh.seq)
        v.dims("shape", out, (K, *lead))
        v.prove("integral-of-restriction", re(out.at(s, *li)) == trap(lambda k: fr(s, *li, k), lambda k: zr(s, k), nr(s)))
    return h


for _r in (0, 1, 2):
    by_restriction(_r)


# ------------------------------------------------------------------ least squares
def grid_loop():
    """After k shells the grid is increasing and holds all of z and of the first k window grids."""
    def arr1(env):
        names = [m for m in env.loop_.mods if isinstance(env.get(m), SArr) and env.get(m).ndim == 1]
        names = [m for m in names if getattr(env.get(m), "shell", None) is None]
        if len(names) != 1:
            raise Unsupported("loop contract: the grid built by the loop is not identified")
        return names[0]

    def inv(env, k):
        g = env.get(arr1(env))
        n = z3i(g.shape[0])
        p, p2, i, s, j = (z3.Int("ix!g" + t) for t in ("p", "p2", "i", "s", "j"))
        z, sh = ST["z"], ST["sh"]
        ws = sh.get(s)
        return [("size", n >= 1),
                ("increasing", z3.Implies(z3.And(p >= 0, p < p2, p2 < n), re(g.at(p)) < re(g.at(p2)))),
                ("contains-z", z3.Implies(z3.And(i >= 0, i < z3i(z.shape[0])), contains(g, z, i))),
                ("contains-windows", z3.Implies(z3.And(s >= 0, s < k, j >= 0, j < sh.len(s)), window_in(g, s, j, k)))]

    def window_in(g, s, j, k):
        """windows before the one just added through the invariant, the one just added through the union"""
        sh = ST["sh"]
        n = z3i(g.shape[0])
        u = getattr(g, "union", None)
        cand = []
        if getattr(g, "ghost", None):
            cand = [g.ghost_w(s, j)]
        elif u:
            for part, pos in ((u["a"], u["pa"]), (u["b"], u["pb"])):
                if getattr(part, "ghost", None):
                    cand.append(pos(part.ghost_w(s, j)))
                elif getattr(part, "shell", None) is not None:
                    cand.append(pos(j))
        else:
            cand = [j]
        return z3.Or(*[z3.And(t >= 0, t < n, re(g.at(t)) == sh.za(s, j)) for t in cand])

    def havoc(env, k):
        c = ctx()
        z, sh = ST["z"], ST["sh"]
        n = c.fresh("grid_n", "i")
        c.assume(n >= 1)
        g = unknown("grid", (Sc("i", n),))
        g0 = g.reader()
        nm = c.fresh_name("where")
        gz, gw = z3.Function(nm + "_z", I, I), z3.Function(nm + "_w", I, I, I)
        c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < z3i(z.shape[0])), z3.And(gz(i) >= 0, gz(i) < n, re(g0(gz(i))) == re(z.at(i)))), None, None)
        c.forall(lambda s, j: z3.Implies(z3.And(s >= 0, s < k, j >= 0, j < sh.len(s)),
                                         z3.And(gw(s, j) >= 0, gw(s, j) < n, re(g0(gw(s, j))) == sh.za(s, j))), None, None, 2)
        c.forall(lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < n), re(g0(i)) < re(g0(j))), None, None, 2)

        def ghost(x, i):
            if x is z or x.buf is z.buf:
                return [gz(i)]
            if getattr(x, "shell", None) is not None:
                return [gw(x.shell, i)]
            return []

        g.ghost, g.ghost_w = ghost, gw
        v, O, L = ST["v"], z3.IntVal(0), z3.IntVal(1)
        a, b = gz(O), gz(L)
        facts = [re(z.at(O)) < re(z.at(L)), z3.And(a >= 0, a < n, re(g.at(a)) == re(z.at(O))), z3.And(b >= 0, b < n, re(g.at(b)) == re(z.at(L)))]
        if v.hint(facts[0]):
            c.assume(z3.And(*facts[1:]))        # instances of the above for the first two points
            v.hint(n >= 2, using=[*facts, z3.Implies(a == b, re(g.at(a)) == re(g.at(b)))])
        return {arr1(Before(env)): g}

    class Before:
        """names of the loop variables with their values before the loop"""

        def __init__(self, env):
            self.e = env
            self.loop_ = env.loop_

        def get(self, m):
            return self.e.loop_.env0.get(m)

    sp = lambda: LoopSpec(inv, havoc)
    return {S + "partition_lstsq:for1": sp(), S + "partition_nnls:for1": sp()}


def squares(method, rank, tol):
    @harness(f"partition_{method}[{rank}{',sumtol' if tol else ''}]", funcs=[S + "partition_" + method, "glass.arraytools.ndinterp"], loops=grid_loop)
    def h(v):
        ST.clear()
        n, lead, z, f = inputs(v, rank, 2)
        K = v.int("S", lo=1)
        sh = Shells(v, K)
        ST.update(v=v, z=z, sh=sh)
        tolv = v.real("sumtol") if tol else None
        t = z3.simplify(z3.If(tolv.re >= z3.Q(1, 10000), tolv.re, z3.Q(1, 10000))) if tol else z3.Q(1, 100)
        calls = []
        tau = v.ix("tau", K)
        NN = z3.Function("NN", I, R, R)

        def nnls(a, b, **k):
            if k or a.ndim != 2 or b.ndim != 1 or getattr(a, "qr_of", None) is None:
                raise Unsupported("use of nnls")
            calls.append(a)
            v.dims("nnls.matrix", a, (K, K))
            v.dims("nnls.vector", b, (K,))
            return SArr((K,), "r", memo(lambda s: Sc("r", NN(s, re(b.at(tau))))), X.NUMPY)

        v.replace("glass.algorithm.nnls", nnls)
        li = [v.ix(f"l{q}", d) for q, d in enumerate(lead)]
        s = v.ix("s", K)
        v.cover()
        out = v.call(v.fn(S + "partition_" + method), z, f, sh.seq, **({"sumtol": tolv} if tol else {}))
        v.dims("shape", out, (K, *lead))
        solved = [e for e in v.c.trace if isinstance(e, tuple) and e[0] in ("lstsq", "qr")]
        if len(solved) != 1:
            raise Unsupported("not one linear-algebra step")
        A = solved[0][1]
        # the grid of the system: the one whose normalisation integrals were taken
        P1 = z3i(A.shape[0])
        P = z3.simplify(P1 - 1)
        grids = [e.x for e in events("trapezoid") if e.x is not None and e.x.ndim == 1 and v.c.entails(z3i(e.x.shape[0]) == P)]
        grids = [g for g in grids if getattr(g, "buf", None) is not z.buf] or grids
        if not grids:
            raise Unsupported("no grid of the system")
        g = grids[0]
        x = lambda k: re(g.at(k))
        v.dims("matrix.shape", A, (Sc("i", P1), K))
        p = v.ix("p", Sc("i", P))
        spacing = z3.If(p == 0, x(z3.IntVal(1)) - x(z3.IntVal(0)),
                        z3.If(p == P - 1, x(P - 1) - x(P - 2), (x(p + 1) - x(p - 1)) / 2))
        T = trap(lambda k: sh.lin(s, x(k)), x, P)
        v.assume(T != 0)
        v.prove("matrix.window-times-spacing", re(A.at(p, s)) * T == sh.lin(s, x(p)) * spacing)
        v.prove("matrix.constraint", re(A.at(P, s)) * t == 1)
        rhs = lambda q: lin(lambda k: re(z.at(k)), lambda k: re(f.at(*li, k)), x(q), n.re)
        total = trap(lambda k: re(f.at(*li, k)), lambda k: re(z.at(k)), n.re)
        if method == "lstsq":
            _, _, B, sol, rcond = solved[0]
            col = ravel(li, lead)
            v.prove("rhs.function-times-spacing", re(B.at(p, col)) == rhs(p) * spacing)
            v.prove("rhs.constraint", re(B.at(P, col)) * t == total)
            v.prove("solution", re(out.at(s, *li)) == re(sol.at(s, col)))
        else:
            Q = solved[0][2]
            sp = lambda q: z3.If(q == 0, x(z3.IntVal(1)) - x(z3.IntVal(0)), z3.If(q == P - 1, x(P - 1) - x(P - 2), (x(q + 1) - x(q - 1)) / 2))
            b = lambda q: z3.If(q < P, rhs(q) * sp(q), total / t)
            y = rsum(0, Sc("i", P1), lambda q: Sc("r", re(Q.at(q, tau)) * b(q))).re
            v.prove("solution", re(out.at(s, *li)) == NN(s, y))
    return h


for _m in ("lstsq", "nnls"):
    for _r in (0, 1, 2):
        squares(_m, _r, False)
    squares(_m, 0, True)


# ------------------------------------------------------------------ dispatch
@harness("partition", funcs=[S + "partition"])
def dispatch(v):
    z, f = v.arr("z", (v.int("n", lo=2),)), v.arr("f", (v.int("n", lo=2),))
    sh = Shells(v, v.int("S", lo=1))
    marks = {}
    for m in ("lstsq", "nnls", "restrict"):
        marks[m] = object()

        def target(a, b, c, m=m, **k):
            if k:
                raise Unsupported("options")
            v.prove(f"arguments.{m}", a is z and b is f and c is sh.seq)
            return marks[m]
        v.replace(S + "partition_" + m, target)
    v.cover()
    fn = v.fn(S + "partition")
    v.prove("default-is-nnls", v.call(fn, z, f, sh.seq) is marks["nnls"])
    for m in marks:
        v.prove(f"method.{m}", v.call(fn, z, f, sh.seq, method=m) is marks[m])
    for bad in ("", "NNLS", "unknown", "lstsq "):
        v.raises_iff(f"unknown-method.{bad}", ValueError, z3.BoolVal(True), fn, z, f, sh.seq, method=bad)


LEVEL_NOTE = "the method names tried are the three supported ones and four unsupported ones"
ASSUMPTIONS = ["numpy.linalg.lstsq and qr: least-squares solution and reduced QR factorisation; that the non-negative solution of (R, Q^T b) is "
               "that of (A, b) is linear algebra that is not proved here",
               "normalisation integrals of windows are non-zero"]
