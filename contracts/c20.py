"""C20: sampled ellipticities are admissible and of the requested population."""
import z3

from contracts.util import unknown
from pv import vals as V
from pv import xp as X
from pv.arr import SArr, exists, rsum
from pv.core import Unsupported, ctx, z3i
from pv.harness import harness
from pv.seq import LoopSpec
from pv.stubs import events
from pv.vals import F, Sc, cast

P = "glass.shapes."
R = z3.RealSort()
# Draw(x, m, s): x = m + s*n for a standard normal draw n made by the generator
DRAW = z3.Function("Draw", R, R, R, z3.BoolSort())
ST = {}


def real(x):
    return cast(x, "r").re


def mod2(z):
    z = cast(z, "c")
    return z.re * z.re + z.im * z.im


def prefix_of(e):
    """the function symbol of the noise of a draw event"""
    t = e.raw(*[z3.Int("ix!probe")] * len(e.shape))
    return t.decl().name() if z3.is_app(t) else None


# ------------------------------------------------------------------ axis ratios
def ratio(name, shape, size):
    @harness(f"triaxial_axis_ratio[{name}]", funcs=[P + "triaxial_axis_ratio"])
    def h(v):
        D = {x: v.int(x, lo=1) for x in "ab"}
        dims = tuple(D[q] for q in shape)
        mk = lambda nm: v.arr(nm, dims, gt=0) if shape else v.real(nm, gt=0)
        zeta, xi = mk("zeta"), mk("xi")
        v.cover()
        kw = {} if shape else {"xp": X.NUMPY}
        out = dims
        if size is not None:
            out = tuple(D[q] for q in size)
            kw["size"] = out if len(out) != 1 else out[0]
        q = v.call(v.fn(P + "triaxial_axis_ratio"), zeta, xi, rng=v.rng(), **kw)
        if out:
            v.dims("shape", q, out)
        p = [v.ix(f"p{i}", d) for i, d in enumerate(out)]
        ST["p"] = p
        z = lambda a: real(a.at(*p[len(p) - len(dims):])) if isinstance(a, SArr) else a.re
        x = real(q.at(*p)) if isinstance(q, SArr) else real(V.sc(q))
        prove_ratio(v, x, z(zeta), z(xi))
    return h


def prove_ratio(v, x, zeta, xi):
    v.c.store["gen"] = None
    roots = sorted(v.apps("sqrt", x), key=lambda a: len(a.sexpr()))
    cosines = v.apps("cos", x)
    draws = [e for e in events("draw") if e.method == "uniform"]
    if len(roots) == 2 and len(cosines) == 1 and len(draws) == 2:
        # steps of the argument; only hints, nothing depends on their success
        inner, outer = roots
        p = ST["p"]
        ct = 2 * draws[0].raw(*p) - 1
        cphi = cosines[0]
        C, Q = v.let("C", ct * ct), v.let("Q", cphi * cphi)
        v.hint(z3.And(C >= 0, C <= 1))
        v.hint(z3.And(Q >= 0, Q <= 1))
        z2, x2 = v.let("z2", zeta * zeta), v.let("x2", xi * xi)
        v.hint(z3.And(z2 > 0, x2 > 0), using=[z2 == zeta * zeta, x2 == xi * xi, zeta > 0, xi > 0])
        rng = [C >= 0, C <= 1, Q >= 0, Q <= 1, z2 > 0, x2 > 0]
        a = v.let("a", (1 + (z2 - 1) * (1 - Q)) * C + x2 * (1 - C))
        c = v.let("c", 1 + (z2 - 1) * Q)
        b2 = v.let("b2", 4 * (z2 - 1) * (z2 - 1) * C * (1 - Q) * Q)
        da, dc, db = a == (1 + (z2 - 1) * (1 - Q)) * C + x2 * (1 - C), c == 1 + (z2 - 1) * Q, b2 == 4 * (z2 - 1) * (z2 - 1) * C * (1 - Q) * Q
        v.hint(c > 0, using=rng + [dc])
        v.hint(1 + (z2 - 1) * (1 - Q) > 0, using=rng)
        v.hint(a > 0, using=rng + [da, 1 + (z2 - 1) * (1 - Q) > 0])
        v.hint(b2 >= 0, using=rng + [db])
        v.hint(4 * a * c - b2 == 4 * (C * z2 + x2 * (1 - C) * c), using=[da, dc, db])
        v.hint(4 * a * c >= b2, using=rng + [c > 0, 4 * a * c - b2 == 4 * (C * z2 + x2 * (1 - C) * c)])
        s = v.let("s", inner)
        defs = [da, dc, db, C == ct * ct, Q == cphi * cphi, z2 == zeta * zeta, x2 == xi * xi]
        t = inner.arg(0)
        v.hint(t == (a - c) * (a - c) + b2, using=defs)
        v.hint((a - c) * (a - c) + b2 >= 0, using=[b2 >= 0])
        v.hint(z3.And(s >= 0, s * s == (a - c) * (a - c) + b2))
        v.hint(s <= a + c, using=[s >= 0, s * s == (a - c) * (a - c) + b2, 4 * a * c >= b2, a > 0, c > 0])
        f = v.let("f", outer.arg(0))
        v.hint(f * (a + c + s) == a + c - s, using=defs + [s == inner, f == outer.arg(0), a > 0, c > 0, s >= 0])
        v.hint(z3.And(f >= 0, f <= 1), using=[f * (a + c + s) == a + c - s, s <= a + c, s >= 0, a > 0, c > 0])
        o = v.let("o", outer)
        v.hint(z3.And(o >= 0, o * o == f))
        v.hint(o <= 1, using=[o >= 0, o * o == f, f <= 1])
    v.prove("at-least-zero", x >= 0)
    v.prove("at-most-one", x <= 1)


ratio("scalar", "", None)
ratio("1d", "a", None)
ratio("2d", "ab", None)
ratio("scalar,size", "", "a")
ratio("scalar,shape", "", "ab")
ratio("1d,size", "b", "ab")


# ------------------------------------------------------------------ distribution of axis ratios
def ryden_loops():
    def draws():
        """each entry of a draw has the parameters found at the same place"""
        c = ctx()
        for e in events("draw"):
            if id(e) in ST["seen"]:
                continue
            if e.method != "normal" or len(e.shape) > 1:
                raise Unsupported("parameters are drawn in another way")
            ST["seen"].add(id(e))
            ST["keep"].append(e)
            if not e.shape:
                c.assume(DRAW(real(V.sc(e.result)), real(V.sc(e.loc)), real(V.sc(e.scale))))
                continue
            nm = prefix_of(e)
            rd = lambda a: (lambda j: real(a.at(j)) if isinstance(a, SArr) and a.ndim else real(V.sc(a)))
            loc, scale = rd(e.loc), rd(e.scale)
            c.lunary.setdefault(nm, []).append(
                lambda a, loc=loc, scale=scale: [DRAW(loc(a.children()[-1]) + scale(a.children()[-1]) * a,
                                                      loc(a.children()[-1]), scale(a.children()[-1]))])

    def spec(name, good, params):
        first = {}

        def inv(env, k):
            draws()
            a = getattr(env, name)
            if not isinstance(a, SArr) or a.ndim != 1:
                raise Unsupported("not a one-dimensional array")
            p = ST["p"]
            x = real(a.at(p))
            if "x" not in first:
                first["x"] = x
            m, s = (ST[q] for q in params)
            out = [("shape", z3i(a.shape[0]) == z3i(ST["n"])), ("draw", DRAW(x, m, s)),
                   ("kept", z3.Implies(good(first["x"]), x == first["x"]))]
            if "old" in first:
                out.append(("not-redrawn", z3.Implies(good(first["old"]), x == first["old"])))
            return out

        def havoc(env, k):
            a = unknown(name, (Sc("i", z3i(ST["n"])),))
            first["old"] = real(a.at(ST["p"]))
            return {name: a}
        return lambda: (first.clear(), LoopSpec(inv, havoc))[1]

    return {P + "ellipticity_ryden04:while1": spec("eps", lambda x: x <= 0, ("mu", "sigma")),
            P + "ellipticity_ryden04:while2": spec("gam", lambda x: z3.And(x >= 0, x <= 1), ("gamma", "sg"))}


def ryden(name, kinds, size):
    @harness(f"ellipticity_ryden04[{name}]", funcs=[P + "ellipticity_ryden04"], loops=ryden_loops, budget=400)
    def h(v):
        n = v.int("n", lo=1)
        names = ("mu", "sigma", "gamma", "sg")
        args = [v.arr(k, (n,), lo=0 if k in ("sigma", "sg") else None) if d else v.real(k, lo=0 if k in ("sigma", "sg") else None)
                for k, d in zip(names, kinds)]
        p = v.ix("p", n)
        val = lambda a: real(a.at(p)) if isinstance(a, SArr) else a.re
        ST.clear()
        ST.update(v=v, p=p, n=n, seen=set(), keep=[], **{k: val(a) for k, a in zip(names, args)})
        v.cover()
        got = []

        def ratios(zeta, xi, size=None, *, rng=None, xp=None):
            if size is not None or not isinstance(zeta, SArr) or zeta.ndim != 1 or not isinstance(xi, SArr):
                raise Unsupported("axis ratios asked for in another way")
            got.append((real(zeta.at(p)), real(xi.at(p))))
            q = unknown("ratio", zeta.shape)
            rz, rx = zeta.reader(), xi.reader()
            v.prove("axis-ratio-of-every-galaxy", z3i(zeta.shape[0]) == z3i(n))
            v.c.forall(lambda k: z3.Implies(z3.And(real(rz(k)) > 0, real(rx(k)) > 0), z3.And(real(q.at(k)) >= 0, real(q.at(k)) <= 1)))
            return q
        v.replace(P + "triaxial_axis_ratio", ratios)
        # the draws that equal an end point have probability zero and make the axis ratio 0/0
        def generic():
            for z, x in got:
                v.assume(z != 0)
                v.assume(x != 0)
        e = v.call(v.fn(P + "ellipticity_ryden04"), *args, **({"size": n} if size else {}), rng=v.rng(),
                   **({} if any(kinds) else {"xp": X.NUMPY}))
        v.dims("shape", e, (n,))
        for z, x in got:
            v.prove("axis-ratios-ordered", z3.And(z >= 0, z < 1, x >= 0, x <= z))
        generic()
        v.prove("modulus", mod2(e.at(p)) <= 1)
    return h


ryden("all", (1, 1, 1, 1), False)
ryden("size", (0, 0, 0, 0), True)
ryden("mixed", (1, 0, 1, 0), False)


# ------------------------------------------------------------------ populations
def offset(kk):
    """number of galaxies of the populations before kk"""
    if ST["rank"] == 0:
        return z3.IntVal(0)
    cnt = ST["count"]
    return rsum(0, kk, lambda q: cnt(q)).re


def population_loops(fname, goodness, inner):
    """populations before the k-th are complete"""
    def draws():
        c = ctx()
        for e in events("draw"):
            if id(e) in ST["seen"]:
                continue
            if e.method != "standard_normal" or len(e.shape) != 1:
                raise Unsupported("ellipticities are drawn in another way")
            ST["seen"].add(id(e))
            ST["keep"].append(e)
            if "facts" in ST:
                c.lunary.setdefault(prefix_of(e), []).append(lambda a: ST["facts"](a))

    def order(k):
        """facts about the prefix sums of the counts (proved)"""
        if not ST["rank"]:
            return
        v, kk, n = ST["v"], ST["kk"], ST["npop"]
        cnt = ST["count"]
        S = lambda lo, hi: rsum(lo, hi, lambda q: cnt(q)).re
        Z = z3.IntVal(0)
        for lo, hi in ((kk, k), (k, kk), (k, n), (kk, n)):
            v.hint(z3.Implies(z3.And(lo >= 0, lo < hi), z3.And(S(Z, hi) == S(Z, lo) + S(lo, hi), S(lo, hi) == cnt(lo).re + S(lo + 1, hi),
                                                             S(lo + 1, hi) >= 0)))
        ST["k"] = k

    def value(env, at):
        return cast(env.eps.at(at), "c")

    def inv(env, k):
        draws()
        i = z3i(env.i)
        kk, t = ST["kk"], ST["t"]
        if not isinstance(env.eps, SArr) or env.eps.ndim != 1:
            raise Unsupported("result is not a one-dimensional array")
        z = value(env, offset(kk) + t)
        if ST.get("k") is not None and not k.eq(ST["k"]):
            if "shapes" in ST:
                ST["shapes"](z, env)
            good, v = goodness(z), ST["v"]
            w = cast(ST["old"].at(offset(kk) + t), "c")
            before = kk < ST["k"]
            v.hint(z3.Implies(before, z3.And(z.re == w.re, z.im == w.im)))
            v.hint(z3.Implies(before, good), using=[z3.Implies(before, z3.And(z.re == w.re, z.im == w.im)), z3.Implies(before, goodness(w))],
                   gen=[z.re, z.im, w.re, w.im])
            v.hint(z3.Implies(kk == ST["k"], good))
            if "shapes" in ST:
                v.hint(z3.Implies(kk < k, good), using=[z3.Implies(before, good), z3.Implies(kk == ST["k"], good), k == ST["k"] + 1], gen=[z.re, z.im])
        return [("offset", i == offset(k)),
                ("size", z3i(env.eps.shape[0]) == offset(ST["npop"])),
                ("done", z3.Implies(kk < k, goodness(z)))]

    def havoc(env, k):
        c = ctx()
        d = dict(i=Sc("i", c.fresh("i", "i")), eps=unknown("eps", (Sc("i", offset(ST["npop"])),), "c"))
        order(k)
        ST["old"] = SArr(d["eps"].shape, "c", d["eps"].reader(), X.NUMPY)
        return d
    out = {P + fname + ":for1": LoopSpec(inv, havoc)}
    if inner:
        def inv2(env, k):
            draws()
            e, r = env.e, env.r
            if not isinstance(e, SArr) or e.ndim != 1:
                raise Unsupported("population is not a one-dimensional array")
            z = cast(e.at(ST["t"]), "c")
            pop = ST["pop"](env)
            own = z3.And(DRAW(z.re, 0, pop["sigma"]), DRAW(z.im, 0, pop["sigma"]))
            mine = z3.And(ST["t"] < pop["count"], pop["is"])
            out = [("size", z3i(e.shape[0]) == pop["count"]), ("own-draw", z3.Implies(mine, own))]
            if isinstance(r, SArr):
                out += [("mask.size", z3i(r.shape[0]) == pop["count"]), ("mask", z3.Implies(ST["t"] < pop["count"], r.at(ST["t"]).re == (mod2(z) > 1)))]
            return out

        def havoc2(env, k):
            n = (Sc("i", ST["pop"](env)["count"]),)
            d = dict(e=unknown("e", n, "c"))
            if isinstance(env.get("r"), SArr):
                d["r"] = unknown("r", n, "b")
            return d
        out[P + fname + ":while1"] = LoopSpec(inv2, havoc2)
    return out


def setup(v, kind, lo=0):
    """kind: rank of count and sigma ('00', '01', '10', '11')"""
    n = v.int("npop", lo=1)
    rank = 1 if "1" in kind else 0
    C = v.arr("count", (n,), "i", lo=0) if kind[0] == "1" else v.int("count", lo=0)
    S = v.arr("sigma", (n,), lo=lo) if kind[1] == "1" else v.real("sigma", lo=lo)
    cf = (lambda q: C.at(q)) if kind[0] == "1" else (lambda q: C)
    sf = (lambda q: S.at(q)) if kind[1] == "1" else (lambda q: S)
    npop = n.re if rank else z3.IntVal(1)
    kk = v.ix("kk", n) if rank else z3.IntVal(0)
    t = z3.Int("ix!t")
    v.assume(z3.And(t >= 0, t < cf(kk).re))
    ST.clear()
    ST.update(v=v, rank=rank, count=cf, sigma=sf, npop=npop, kk=kk, t=t, seen=set(), keep=[])

    def pop(env):
        k = env.k if isinstance(env.k, tuple) else (env.k,)
        q = z3i(k[0]) if rank else z3.IntVal(0)
        return dict(count=cf(q).re, sigma=real(sf(q)), **{"is": q == kk})
    ST["pop"] = pop
    return n, C, S, rank, kk, t


def gaussian(kind):
    def good(z):
        s = real(ST["sigma"](ST["kk"]))
        return z3.And(mod2(z) <= 1, DRAW(z.re, 0, s), DRAW(z.im, 0, s))

    @harness(f"ellipticity_gaussian[{kind}]", funcs=[P + "ellipticity_gaussian", P + "_populate_random_complex_array"],
             loops=lambda: population_loops("ellipticity_gaussian", good, True), budget=400)
    def h(v):
        n, C, S, rank, kk, t = setup(v, kind)
        s = real(ST["sigma"](kk))
        ST["facts"] = lambda a: [DRAW(s * a, 0, s)]
        v.cover()
        e = v.call(v.fn(P + "ellipticity_gaussian"), C, S, rng=v.rng(), **({} if rank else {"xp": X.NUMPY}))
        finish(v, e, good)
    return h


def finish(v, e, good):
    v.dims("size", e, (Sc("i", offset(ST["npop"]) if ST["rank"] else ST["count"](0).re),))
    kk, t = ST["kk"], ST["t"]
    z = cast(e.at(offset(kk) + t), "c")
    if not ST["rank"] and "shapes" in ST and "k" not in ST:
        ST["k"] = kk
        ST["shapes"](z, {"e": e})
    v.prove("in-order", good(z))


for kind in ("00", "01", "10", "11"):
    gaussian(kind)


# no floating-point number lies between sqrt(0.5) and its rounded value
LIMIT = V.sc(0.5 ** 0.5).re
# Shape(x, y, s): x + iy = tanh(r/2)/r n for a complex normal draw n of width eta(s) and modulus r
SHAPE = z3.Function("Shape", R, R, R, z3.BoolSort())


def intnorm(kind):
    def good(z):
        return z3.And(mod2(z) < 1, SHAPE(z.re, z.im, real(ST["sigma"](ST["kk"]))))

    def shapes(z, env):
        """a value with the direction of the draw and the modulus tanh(r/2) is a Shape"""
        c, t, v, k = ctx(), ST["t"], ST["v"], ST["k"]
        es = list(events("draw"))
        e = env.get("e")
        if len(es) != 2 or not isinstance(e, SArr) or e.ndim != 1:
            raise Unsupported("ellipticities are drawn in another way")
        mine = ST["kk"] == k
        s = real(ST["sigma"](k))
        x = cast(e.at(t), "c")
        v.hint(z3.Implies(mine, z3.And(z.re == x.re, z.im == x.im)))
        n1, n2 = es[0].raw(t), es[1].raw(t)
        ratio = (8 + 5 * s * s) / (2 - 4 * s * s)
        r = F["sqrt"](z3.simplify(s * s * ratio * n1 * n1 + s * s * ratio * n2 * n2))
        T = F["tanh"](z3.simplify(r / 2))
        m = mod2(x)
        cond = z3.And(x.re * n2 == x.im * n1, x.re * n1 >= 0, x.im * n2 >= 0, m == T * T)
        c.assume(z3.Implies(cond, SHAPE(x.re, x.im, s)))
        # steps towards cond; only hints
        pre = z3.And(s >= 0, 2 * s * s < 1)
        v.hint(pre)
        roots = v.apps("sqrt", x.re)
        W = [q for q in roots if not v.apps(prefix_of(es[0]), q)]
        Rs = [q for q in roots if v.apps(prefix_of(es[0]), q)]
        ths = v.apps("tanh", x.re)
        if not W or len(Rs) != 1 or len(ths) != 1:
            return
        w, rr = v.let("w", W[0]), v.let("r", Rs[0])
        d = v.let("ratio", ratio)
        v.hint(d * (2 - 4 * s * s) == 8 + 5 * s * s, using=[pre, d == ratio])
        v.hint(d > 0, using=[pre, d * (2 - 4 * s * s) == 8 + 5 * s * s])
        v.hint(W[0].arg(0) == d, using=[pre, d == ratio])
        v.hint(z3.And(w >= 0, w * w == d), using=[w == W[0], W[0].arg(0) == d, d > 0, z3.Implies(W[0].arg(0) >= 0, z3.And(W[0] >= 0, W[0] * W[0] == W[0].arg(0)))])
        for o in W[1:]:
            v.hint(o.arg(0) == d, using=[pre, d == ratio])
            v.hint(o == w, using=[w == W[0], o.arg(0) == d, W[0].arg(0) == d])
        ws = [w == o for o in W]
        q = v.let("q", s * s * d * (n1 * n1 + n2 * n2))
        v.hint(q >= 0, using=[q == s * s * d * (n1 * n1 + n2 * n2), d > 0])
        v.hint(r.arg(0) == q, using=[q == s * s * d * (n1 * n1 + n2 * n2), d == ratio])
        v.hint(Rs[0].arg(0) == s * s * w * w * (n1 * n1 + n2 * n2), using=ws)
        v.hint(Rs[0].arg(0) == q, using=[Rs[0].arg(0) == s * s * w * w * (n1 * n1 + n2 * n2), w * w == d, q == s * s * d * (n1 * n1 + n2 * n2)])
        v.hint(r == Rs[0], using=[r.arg(0) == q, Rs[0].arg(0) == q])
        v.hint(z3.And(rr >= 0, rr * rr == q), using=[rr == Rs[0], Rs[0].arg(0) == q, q >= 0, z3.Implies(Rs[0].arg(0) >= 0, z3.And(Rs[0] >= 0, Rs[0] * Rs[0] == Rs[0].arg(0)))])
        th = v.let("T", T)
        v.hint(T == ths[0], using=[r == Rs[0]])
        v.hint(z3.And(th >= 0, th < 1, z3.Implies(rr > 0, th > 0), z3.Implies(rr == 0, th == 0)),
               using=[th == T, T == ths[0], rr == Rs[0], rr >= 0, T < 1, T > -1, z3.Implies(T.arg(0) > 0, T > 0), z3.Implies(T.arg(0) == 0, T == 0), r == Rs[0]])
        f = c.fresh("f", "r")
        fdef = z3.And(z3.Implies(rr > 0, f * rr == th), z3.Implies(rr == 0, f == 1))
        fval = z3.If(rr > 0, th / rr, 1)
        c.assume(f == fval)
        v.hint(fdef, using=[f == fval, rr >= 0])
        v.hint(f > 0, using=[fdef, rr >= 0, z3.Implies(rr > 0, th > 0)])
        for u, n in ((x.re, n1), (x.im, n2)):
            v.hint(u == s * w * n * f, using=[*ws, rr == Rs[0], th == T, T == ths[0], f == fval, rr >= 0])
        ex, ey = x.re == s * w * n1 * f, x.im == s * w * n2 * f
        v.hint(x.re * n2 == x.im * n1, using=[ex, ey], gen=[x.re, x.im, n1, n2])
        v.hint(x.re * n1 >= 0, using=[ex, w >= 0, f > 0, s >= 0], gen=[x.re, n1])
        v.hint(x.im * n2 >= 0, using=[ey, w >= 0, f > 0, s >= 0], gen=[x.im, n2])
        v.hint(m == f * f * q, using=[ex, ey, w * w == d, q == s * s * d * (n1 * n1 + n2 * n2)], gen=[x.re, x.im, n1, n2])
        v.hint(f * f * q == th * th, using=[fdef, rr >= 0, rr * rr == q, z3.Implies(rr == 0, th == 0)])
        v.hint(m == T * T, using=[m == f * f * q, f * f * q == th * th, th == T])
        v.hint(m < 1, using=[m == T * T, th == T, th >= 0, th < 1], gen=[x.re, x.im])
        v.hint(SHAPE(x.re, x.im, s), using=[z3.Implies(cond, SHAPE(x.re, x.im, s)), x.re * n2 == x.im * n1, x.re * n1 >= 0, x.im * n2 >= 0, m == T * T],
               gen=[x.re, x.im, n1, n2, T])
        own = z3.Implies(mine, z3.And(z.re == x.re, z.im == x.im))
        s1 = real(ST["sigma"](ST["kk"]))
        v.hint(z3.Implies(mine, s == s1))
        v.hint(z3.Implies(mine, good(z)), using=[own, m < 1, SHAPE(x.re, x.im, s), z3.Implies(mine, s == s1)], gen=[z.re, z.im, x.re, x.im, s, s1])

    @harness(f"ellipticity_intnorm[{kind}]", funcs=[P + "ellipticity_intnorm", P + "_populate_random_complex_array"],
             loops=lambda: population_loops("ellipticity_intnorm", good, False), budget=400)
    def h(v):
        n, C, S, rank, kk, t = setup(v, kind, None)
        s = real(ST["sigma"](kk))
        ST["shapes"] = shapes
        gap = lambda x: z3.Or(2 * x * x < 1, x >= LIMIT, x < 0)
        if kind[1] == "1":
            v.forall(lambda q: gap(real(S.at(q))))
        else:
            v.assume(gap(S.re))
        v.cover()
        k, e = v.attempt(v.fn(P + "ellipticity_intnorm"), C, S, rng=v.rng(), **({} if rank else {"xp": X.NUMPY}))
        bad = lambda s: z3.Or(s < 0, s >= LIMIT)
        if k == "exc":
            if not isinstance(e, ValueError):
                v.c.fail("ellipticity_intnorm.no-other-exception", f"{type(e).__name__}: {e}")
                return
            v.prove("rejects-only-inadmissible", exists((n,), lambda q: bad(real(S.at(q)))) if kind[1] == "1" else bad(S.re))
            return
        v.prove("accepts-only-admissible", z3.Not(bad(s)))
        finish(v, e, good)
    return h


for kind in ("00", "01", "10", "11"):
    intnorm(kind)


# ------------------------------------------------------------------ resampling
def resample(name, shape, which):
    @harness(f"resample_shapes[{name}]", funcs=[P + "resample_shapes"])
    def h(v):
        dims = tuple(v.int(f"d{i}", lo=1) for i in range(len(shape)))
        eps = v.arr("eps", dims, "c")
        kw = {}
        if which in ("varg", "vargamma"):
            kw[which] = g = v.real(which, lo=0)
        N = Sc("r", z3.RealVal(1))
        for d in dims:
            N = N * d
        total = rsum(0, dims[0], lambda i: Sc("r", mod2(eps.at(i)))).re if len(dims) == 1 else None
        if total is not None:
            if which:
                root = lambda i: F["sqrt"](mod2(eps.at(i)))
                v.congr("squares", 0, dims[0], lambda i: Sc("r", root(i) * root(i)), lambda i: Sc("r", mod2(eps.at(i))))
            v.hint(total >= 0)
            # some ellipticity is not zero
            v.assume(total > 0)
        v.cover()
        k, out = v.attempt(v.fn(P + "resample_shapes"), eps, rng=v.rng(), **kw)
        mean = total / real(dims[0]) if total is not None else None
        if which:
            v.hint(mean > 0, using=[total > 0, real(dims[0]) >= 1])
        if k == "exc":
            if which is None or not isinstance(out, ValueError):
                v.c.fail("resample_shapes.no-other-exception", f"{type(out).__name__}: {out}")
            else:
                v.prove("rejects-only-inadmissible", g.re > mean)
            return
        v.dims("shape", out, dims)
        p = [v.ix(f"p{i}", d) for i, d in enumerate(dims)]
        q = [v.ix(f"q{i}", d) for i, d in enumerate(dims)]
        if which:
            v.prove("accepts-only-admissible", g.re <= mean)
        a, b, x, y = mod2(eps.at(*p)), mod2(eps.at(*q)), mod2(out.at(*p)), mod2(out.at(*q))
        if which is None:
            v.prove("modulus-kept", x == a)
        elif which == "vargamma":
            fac = v.let("fac", 1 - g.re / mean)
            v.hint(fac >= 0, using=[fac == 1 - g.re / mean, mean > 0, g.re <= mean])
            for root in v.apps("sqrt", x):
                for want, nn in ((fac, fac >= 0), (a, a >= 0)):
                    if v.hint(root.arg(0) == want, timeout=1500):
                        v.hint(root * root == want, using=[nn, root.arg(0) == want, z3.Implies(root.arg(0) >= 0, root * root == root.arg(0))])
                        break
            v.hint(x == a * fac)
            v.prove("modulus-rescaled", x == a * (1 - g.re / mean))
        else:
            v.prove("one-common-factor", x * b == y * a)
    return h


resample("plain", "a", None)
resample("plain,2d", "ab", None)
resample("vargamma", "a", "vargamma")
resample("varg", "a", "varg")


@harness("resample_shapes[both]", funcs=[P + "resample_shapes"])
def both(v):
    n = v.int("n", lo=1)
    v.cover()
    k, out = v.attempt(v.fn(P + "resample_shapes"), v.arr("eps", (n,), "c"), varg=v.real("varg"), vargamma=v.real("vargamma"), rng=v.rng())
    v.prove("rejected", z3.BoolVal(k == "exc" and isinstance(out, ValueError)))

ASSUMPTIONS = ["uniform draws lie in [0, 1); draws that hit an end point exactly (eps = 0, gam = 1) have probability zero and are excluded",
               "no double lies between sqrt(0.5) and 0.5**0.5",
               "the while loops of the samplers end with probability one: partial correctness only"]
