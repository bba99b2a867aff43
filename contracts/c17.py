"""C17: sampled redshifts come from their own distribution."""
import z3

from contracts.util import iter_index, loop_array, unknown
from pv import xp as X
from pv.arr import SArr, rsum
from pv.xp import ravel_index
from pv.core import Unsupported, ctx, z3i
from pv.harness import harness
from pv.seq import LoopSpec, SDict, SSeq
from pv.stubs import events
from pv.vals import Sc, cast

P = "glass.galaxies."
R, I = z3.RealSort(), z3.IntSort()
HALF = z3.Q(1, 2)
ZERO = z3.IntVal(0)
# Sample(x, k): x was sampled from the distribution with number k
SAMPLE = z3.Function("Sample", R, I, z3.BoolSort())
ST = {}


def re(s):
    return cast(s if isinstance(s, Sc) else s.at(), "r").re


def apps_of(e, name):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(name):
            out.append(x)
        todo.extend(x.children())
    return out


@harness("inverse-cdf", funcs=[P + "_draw_nz"])
def inverse(v):
    n, m = v.int("n", lo=2), v.int("count", lo=0)
    z, nz = v.arr("z", (n,)), v.arr("nz", (n,), lo=0)
    v.increasing(z)
    C = lambda k: rsum(ZERO, Sc("i", k), lambda j: (z.at(j + 1) - z.at(j)) * (nz.at(j) + nz.at(j + 1)) * Sc("r", HALF)).re
    T = C(n.re - 1)
    v.assume(T > 0)
    v.cover()
    out = v.call(v.fn(P + "_draw_nz"), m, z, nz, rng=v.rng())
    v.dims("count", out, (m,))
    if not v.c.feasible(m.re > 0):
        return
    p = v.ix("p", m)
    es = events("draw")
    if len(es) != 1 or es[0].method not in ("uniform", "random") or len(es[0].shape) != 1:
        raise Unsupported("drawn in another way")
    u = v.let("u", re(es[0].result.at(p)))
    v.assume(z3.And(es[0].raw(p) >= 0, es[0].raw(p) < 1))
    v.prove("uniform-draw", z3.And(u >= 0, u < 1))
    x = re(out.at(p))
    js = apps_of(x, "bracket#")
    if not js:
        raise Unsupported("the distribution is inverted in another way")
    j = v.let("ix!j", js[0])
    zj, zk, cj, ck = re(z.at(j)), re(z.at(j + 1)), C(j), C(j + 1)
    h = lambda f: v.lemma(f"step{len(v.c.pc)}", f)
    v.lemma("cdf-step", ck == cj + (zk - zj) * (re(nz.at(j)) + re(nz.at(j + 1))) * HALF)
    v.prove("bracket.index", z3.And(j >= 0, j + 1 < n.re))
    v.prove("bracket", z3.And(cj <= u * T, u * T < ck))
    v.prove("inverse", x == zj + (u * T - cj) / (ck - cj) * (zk - zj))
    v.lemma("grid.order", z3.And(zj < zk, re(z.at(ZERO)) <= zj, zk <= re(z.at(n.re - 1))))
    CJ, CK, Y = v.let("cj", cj), v.let("ck", ck), v.let("y", u * T)
    br = z3.And(CJ <= Y, Y < CK)
    v.lemma("bracket-let", br)
    q = v.let("q", (Y - CJ) / (CK - CJ))
    v.lemma("fraction", z3.And(q >= 0, q < 1), using=[br, q == (Y - CJ) / (CK - CJ)])
    XX = v.let("x", x)
    v.lemma("inverse-let", XX == zj + q * (zk - zj))
    order = z3.And(zj < zk, re(z.at(ZERO)) <= zj, zk <= re(z.at(n.re - 1)))
    v.prove("inside-interval", z3.And(XX >= zj, XX < zk), using=[XX == zj + q * (zk - zj), z3.And(q >= 0, q < 1), order])
    v.prove("inside-grid", z3.And(XX >= re(z.at(ZERO)), XX < re(z.at(n.re - 1))), using=[z3.And(XX >= zj, XX < zk), order])


# ------------------------------------------------------------------ populations
def offset(kk):
    return rsum(0, kk, lambda q: ST["count"](q)).re if ST["rank"] else ZERO


def draw_contract(v):
    """contract of _draw_nz: the given number of samples of the given distribution"""
    def f(count, z, nz, *, rng):
        k = iter_index(v) if ST["rank"] else ZERO
        v.prove("population.count", z3i(count) == ST["count"](k).re)
        j = v.ix("grid_j", ST["n"])
        for nm, a, b in (("z", z, ST["z"]), ("nz", nz, ST["nz"])):
            v.dims(f"population.{nm}.shape", a, (ST["n"],))
            v.prove(f"population.{nm}", re(a.at(j)) == b(k, j))
        if rng is not ST["rng"] and getattr(rng, "rng", None) is not ST["rng"]:
            v.c.fail("generator", "another generator is used")
        x = unknown("sample", (count,))
        nm = x.at(ZERO).re.decl().name()
        ctx().lunary.setdefault(nm, []).append(lambda a: [SAMPLE(a, k)])
        return x
    return f


def loops():
    def order(k):
        v, kk, n = ST["v"], ST["kk"], ST["npop"]
        cnt = ST["count"]
        S = lambda lo, hi: rsum(lo, hi, lambda q: cnt(q)).re
        for lo, hi in ((kk, k), (k, kk), (k, n), (kk, n)):
            v.hint(z3.Implies(z3.And(lo >= 0, lo < hi), z3.And(S(ZERO, hi) == S(ZERO, lo) + S(lo, hi), S(lo, hi) == cnt(lo).re + S(lo + 1, hi),
                                                             S(lo + 1, hi) >= 0)))
        ST["k"] = k

    def inv(env, k):
        kk, t, v = ST["kk"], ST["t"], ST["v"]
        if "array" not in ST:
            ST["array"] = loop_array(env, 1)        # on entry
        a = env.get(ST["array"])
        z = re(a.at(offset(kk) + t))
        good = SAMPLE(z, kk)
        if ST.get("k") is not None and not k.eq(ST["k"]):
            w = re(ST["old"].at(offset(kk) + t))
            before = kk < ST["k"]
            v.hint(z3.Implies(before, z == w))
            v.hint(z3.Implies(before, good), using=[z3.Implies(before, z == w), z3.Implies(before, SAMPLE(w, kk))], gen=[z, w])
            v.hint(z3.Implies(kk == ST["k"], good))
            v.hint(z3.Implies(kk < k, good), using=[z3.Implies(before, good), z3.Implies(kk == ST["k"], good), k == ST["k"] + 1], gen=[z])
        return [("offset", z3i(env.total) == offset(k)),
                ("size", z3i(a.shape[0]) == offset(ST["npop"])),
                ("done", z3.Implies(kk < k, good))]

    def havoc(env, k):
        c = ctx()
        a = ST["array"]
        d = {"total": Sc("i", c.fresh("total", "i")), a: unknown("redshifts", (Sc("i", offset(ST["npop"])),))}
        order(k)
        ST["old"] = SArr(d[a].shape, "r", d[a].reader(), X.NUMPY)
        return d
    return {P + "redshifts_from_nz:for1": LoopSpec(inv, havoc)}


def populations(kind, warn=None):
    @harness(f"redshifts_from_nz[{kind}]", funcs=[P + "redshifts_from_nz"], loops=loops)
    def h(v):
        ST.clear()
        K, n = v.int("npop", lo=1), v.int("n", lo=2)
        rank = 1 if "1" in kind else 0
        count = v.arr("count", (K,), "i", lo=0) if kind[0] == "1" else v.int("count", lo=0)
        z = v.arr("z", (K, n) if kind[1] == "1" else (n,))
        nz = v.arr("nz", (K, n) if kind[2] == "1" else (n,))
        kk = v.ix("kk", K) if rank else ZERO
        rd = lambda a, r: (lambda k, j: re(a.at(k, j))) if r == "1" else (lambda k, j: re(a.at(j)))
        cf = (lambda q: count.at(q)) if kind[0] == "1" else (lambda q: count)
        t = z3.Int("ix!t")
        v.assume(z3.And(t >= 0, t < cf(kk).re))
        rng = v.rng()
        ST.update(v=v, rank=rank, count=cf, npop=K.re if rank else z3.IntVal(1), kk=kk, t=t, n=n, z=rd(z, kind[1]), nz=rd(nz, kind[2]), rng=rng)
        v.replace(P + "_draw_nz", draw_contract(v))
        v.cover()
        out = v.call(v.fn(P + "redshifts_from_nz"), count, z, nz, rng=rng, **({"warn": False} if warn is None else {"warn": warn}))
        v.dims("size", out, (Sc("i", offset(K.re)) if rank else count,))
        v.prove("in-order", SAMPLE(re(out.at(offset(kk) + t)), kk))
    return h


for k in ("000", "100", "010", "001", "111", "101"):
    populations(k)


@harness("redshifts", funcs=[P + "redshifts"])
def redshifts(v):
    """sampling from a window is sampling from its grid and values"""
    n, m = v.int("n", lo=2), v.int("count", lo=0)
    za, wa = v.arr("za", (n,)), v.arr("wa", (n,))
    w = v.fn("glass.shells.RadialWindow")(za, wa, v.real("zeff"))
    rng = v.rng()
    got = []
    res = unknown("result", (m,))

    def f(count, z, nz, *, rng=None, warn=True):
        got.append((count, z, nz, rng))
        return res
    v.replace(P + "redshifts_from_nz", f)
    v.cover()
    out = v.call(v.fn(P + "redshifts"), m, w, rng=rng)
    if len(got) != 1 or out is not res:
        raise Unsupported("sampled in another way")
    c, z, nz, g = got[0]
    j = v.ix("j", n)
    v.prove("count", z3i(c) == m.re)
    v.dims("grid", z, (n,))
    v.dims("distribution", nz, (n,))
    v.prove("values", z3.And(re(z.at(j)) == re(za.at(j)), re(nz.at(j)) == re(wa.at(j))))
    v.prove("generator", z3.BoolVal(g is rng))


BELOW = z3.Function("Below", I, I)      # number of positions whose label index is smaller
POS = z3.Function("Pos", I, I)          # where a label is found in the mapping


def bins_case(ndim):
    @harness(f"redshifts_from_bins[{ndim}d]", funcs=[P + "redshifts_from_bins"])
    def h(v):
        c = ctx()
        K, n, m = v.int("nkeys", lo=1), v.int("n", lo=2), v.int("m", lo=1)
        shape = (m,) if ndim == 1 else (m, 3)
        bins = v.arr("bins", shape, "i")
        z, nz, key = v.arr("z", (n,)), v.arr("nz", (K, n)), v.arr("key", (K,), "i")
        size = m.re if ndim == 1 else m.re * 3
        ki = lambda q: key.at(q).re
        c.forall(lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < K.re), ki(a) != ki(b)), None, None, 2)      # keys of a mapping
        nd = SDict(SSeq(K, lambda q: (key.at(q), SArr((n,), "r", lambda j: nz.at(q, j), X.NUMPY))))
        ist = tuple(v.ix(f"t{d}", s) for d, s in enumerate(shape))
        flat = ravel_index(ist, bins.shape)
        lab = {}

        def indict(x):
            """every label occurs in the mapping"""
            p = POS(x)
            return z3.And(p >= 0, p < K.re, ki(p) == x)

        def unique_all(x):
            """sorted distinct labels, index of each position's label, and how often each occurs"""
            if x is not bins or lab:
                raise Unsupported("labels are grouped in another way")
            U = c.fresh("labels", "i")
            val, inv, cnt = c.fresh_fun("label", 1, "i"), c.fresh_fun("inverse", 1, "i"), c.fresh_fun("count", 1, "i")
            lab.update(U=U, val=val, inv=inv)
            c.assume(z3.And(U >= 1, U <= size))
            b = lambda i: bins.at(*((i,) if ndim == 1 else (i / 3, i % 3))).re
            c.lunary.setdefault(inv.decl.name(), []).append(
                lambda a: [z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] < size), z3.And(a >= 0, a < U, val(a) == b(a.children()[-1])))])
            c.lunary.setdefault(val.decl.name(), []).append(
                lambda a: [z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] < U), indict(a))])
            c.lunary.setdefault(cnt.decl.name(), []).append(lambda a: [a >= 0])
            s = rsum(ZERO, Sc("i", U), lambda q: Sc("i", cnt(q))).re
            c.assume(s == size)
            mk = lambda f: SArr((Sc("i", U),), "i", lambda q: Sc("i", f(q)), X.NUMPY)
            inverse = SArr(bins.shape, "i", lambda *i: Sc("i", inv(ravel_index(i, bins.shape))), X.NUMPY)
            lab["cnt"] = cnt
            return mk(val), SArr((Sc("i", U),), "i", lambda q: Sc("i", c.fresh("first", "i")), X.NUMPY), inverse, mk(cnt)
        X.NUMPY.unique_all = unique_all
        plain = X.NUMPY.argsort

        def argsort(x, *a, **kw):
            """for the indices of the labels: the sorted position of an element lies in the block of its label"""
            out = plain(x, *a, **kw)
            rd = x.reader()
            e = rd(z3.Int("ix!probe")).re
            if lab and z3.is_app(e) and e.decl().name() == lab["inv"].decl.name():
                o = lambda q: rsum(ZERO, q, lambda r: Sc("i", lab["cnt"](r))).re

                def block(a):
                    s, u = a.children()[-1], rd(a).re
                    return [z3.Implies(z3.And(s >= 0, s < size), z3.And(o(u) <= s, s < o(u) + lab["cnt"](u)))]
                c.lunary.setdefault(out.at(ZERO).re.decl().name(), []).append(block)
                lab["p"] = lambda i: out.at(i).re
            elif lab.get("p") is not None and z3.is_app(e) and e.decl().name() == lab["p"](ZERO).decl().name():
                # sorting a permutation of 0..n-1 inverts it
                c.lunary.setdefault(out.at(ZERO).re.decl().name(), []).append(
                    lambda a: [z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] < size), lab["p"](a) == a.children()[-1])])
                lab["q"] = lambda i: out.at(i).re
            return out
        X.NUMPY.argsort = argsort

        def draw(count, zz, nn, *, rng):
            j = v.ix("grid_j", n)
            v.dims("population.z.shape", zz, (n,))
            v.dims("population.nz.shape", nn, (n,))
            v.prove("population.z", re(zz.at(j)) == re(z.at(j)))
            hit = apps_of(re(nn.at(j)), nz.at(ZERO, ZERO).re.decl().name())
            if len(hit) != 1:
                raise Unsupported("distribution of the label is not identified")
            q = hit[0].children()[0]
            v.prove("population.nz", re(nn.at(j)) == re(nz.at(q, j)))
            if getattr(rng, "rng", rng) is not g:
                v.c.fail("generator", "another generator is used")
            nm = c.fresh_name("sample")
            gs = list(c.gstack)
            f = z3.Function(nm, *([I] * (len(gs) + 1)), R)
            c.lunary.setdefault(nm, []).append(
                lambda a: [SAMPLE(a, z3.substitute(q, *zip(gs, a.children()))) if gs else SAMPLE(a, q)])
            return SArr((count,), "r", lambda i: Sc("r", f(*gs, i)), X.NUMPY)
        v.replace(P + "_draw_nz", draw)
        c.key_hints = lambda x: [POS(z3i(x))]
        g = v.rng()
        v.cover()
        out = v.call(v.fn(P + "redshifts_from_bins"), bins, z, nd, rng=g)
        v.dims("shape", out, bins.shape)
        x = re(out.at(*ist))
        if not lab or "q" not in lab:
            raise Unsupported("labels are grouped in another way")
        q = POS(bins.at(*ist).re)
        ok = z3.And(q >= 0, q < K.re, ki(q) == bins.at(*ist).re)
        u = v.let("ix!u", lab["inv"](flat))
        v.lemma("label", z3.And(u >= 0, u < lab["U"], lab["val"](u) == bins.at(*ist).re))
        s, ps = lab["q"](flat), lab["p"](lab["q"](flat))
        v.lemma("inverse", z3.And(s >= 0, s < size, ps == flat, lab["inv"](ps) == u), gen=[s, ps])
        S = lambda lo, hi: rsum(lo, hi, lambda r: Sc("i", lab["cnt"](r))).re
        v.lemma("block", z3.And(S(ZERO, u) <= s, s < S(ZERO, u) + lab["cnt"](u)), gen=[s, ps, lab["inv"](ps)])
        ks = apps_of(x, "flat") + apps_of(x, "sample")
        ks = [t for t in ks if z3.is_int(t)] or [t.children()[0] for t in ks]
        if not ks:
            raise Unsupported("samples are collected in another way")
        k = v.let("ix!k", ks[0])
        v.lemma("located", z3.And(k >= 0, k < lab["U"], S(ZERO, k) <= s, s < S(ZERO, k) + lab["cnt"](k)))
        for lo, hi in ((k, u), (u, k)):
            v.lemma("order", z3.Implies(lo < hi, z3.And(S(ZERO, hi) == S(ZERO, lo) + S(lo, hi), S(lo, hi) == lab["cnt"](lo) + S(lo + 1, hi), S(lo + 1, hi) >= 0)))
        v.lemma("same-label", k == u)
        v.lemma("mapping", ok, gen=[lab["val"](u)])
        pos = apps_of(z3.And(*[z3.BoolVal(True), *[f for f in c.lunary.get(x.decl().name(), [lambda a: []])[0](x)]]), "ix!pos")
        if len(pos) != 1:
            raise Unsupported("distribution of the label is not identified")
        w = v.let("ix!w", pos[0])
        v.lemma("found", z3.And(w >= 0, w < K.re, ki(w) == lab["val"](k)))
        v.lemma("label-of-block", lab["val"](k) == bins.at(*ist).re)
        # the keys are distinct: instance for these two
        v.assume(z3.Implies(z3.And(w >= 0, w < K.re, q >= 0, q < K.re, w != q), ki(w) != ki(q)))
        v.lemma("same-key", w == q)
        v.prove("own-label", SAMPLE(x, q), gen=[x])
    return h


bins_case(1)
bins_case(2)

ASSUMPTIONS = [
    "numpy unique_all, argsort, interp and uniform draws are used through their documented contracts: sorted distinct labels with inverse and "
    "counts, the sorted position of an element lies in the block of its value (counting lemma), and sorting a permutation inverts it",
    "machine arithmetic is treated as mathematical; count sums are integers",
]
LEVEL_NOTE = "redshifts_from_nz: up to one leading axis; redshifts_from_bins: label arrays (m,) and (m, 3); more axes and other label types by bounded runs"
