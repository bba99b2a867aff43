"""C08: effective spectra are the exact bilinear combination."""
import z3

from contracts.util import Spectra, fubini, loop_array, nfields_contract, pos, prove_nfields, ravel, root, triangle, unknown
from pv import core
from pv.arr import SArr, memo, rsum
from pv.core import Unsupported, ctx, z3i
from pv.harness import harness
from pv.seq import LoopSpec
from pv.vals import Sc, cast

P = "glass.fields."
FUN = [P + "effective_cls", P + "getcl", P + "nfields_from_nspectra"]
ST = {}
I, R = z3.IntSort(), z3.RealSort()
C = z3.Function("C", I, I, I, R)      # C(i, j, l): spectrum of the pair (i, j), cut or padded


def real(s):
    return cast(s, "r").re


def bilinear(o1, o2, l):
    n, w1, w2 = ST["n"], ST["w1"], ST["w2"]
    return rsum(z3.IntVal(0), n, lambda a: rsum(z3.IntVal(0), n, lambda b: Sc("r", real(w1.at(a, *o1)) * real(w2.at(b, *o2)) * C(a, b, l)))).re


def loops():
    def mstar(env):
        q = env.loop_.seq
        o1, o2 = ST["o1"], ST["o2"]
        a, b = ravel(o1, ST["d1"]), ravel(o2, ST["d2"])
        if hasattr(q, "index_of"):
            m = z3.If(a <= b, q.index_of(a, b), q.index_of(b, a))
        else:
            m = a * ST["size2"] + b
        return m

    def inv(env, k):
        v = ST["v"]
        if "o1" not in ST:
            raise Unsupported("no observation point")
        nm = loop_array(env, len(ST["d1"]) + len(ST["d2"]) + 1)
        out = env.get(nm)
        same = [z3i(x) == z3i(y) for x, y in zip(out.shape, ST["shape"])]
        m = mstar(env)
        return [("shape", z3.And(*same)),
                ("entry", z3.Implies(m < k, real(out.at(*ST["o1"], *ST["o2"], ST["l"])) == ST["want"]))]

    def havoc(env, k):
        nm = loop_array(env, len(ST["d1"]) + len(ST["d2"]) + 1)
        v = ST["v"]
        q = env.loop_.seq
        c = v.c
        m = mstar(env)
        n = z3i(q.n)
        v.hint(z3.And(m >= 0, m < n))
        return {nm: unknown("out", ST["shape"])}

    def iteration(env, k):
        """the pair of this iteration and the observed pair: equal positions mean equal indices"""
        v = ST["v"]
        it = env.item_(k)
        if isinstance(it, tuple) and len(it) == 2 and all(isinstance(x, tuple) for x in it):
            j1, j2 = ([z3i(x) for x in t] for t in it)
            o1, o2 = ST["o1"], ST["o2"]
            eq = z3.And(*[a == b for a, b in zip([*j1, *j2], [*o1, *o2])])
            sw = z3.And(*[a == b for a, b in zip([*j1, *j2], [*o2, *o1])]) if len(o1) == len(o2) else eq
            for r, dr in ((j1, ST["d1"]), (j2, ST["d2"])):
                for o, do in ((o1, ST["d1"]), (o2, ST["d2"])):
                    if len(r) == 2 and dr is do:
                        d = dr[1].re
                        use = [r[1] >= 0, r[1] < d, o[1] >= 0, o[1] < d, d >= 1]
                        v.hint(z3.Implies(r[0] + 1 <= o[0], r[0] * d + r[1] < o[0] * d + o[1]), using=use, gen=[*r, *o])
                        v.hint(z3.Implies(o[0] + 1 <= r[0], o[0] * d + o[1] < r[0] * d + r[1]), using=use, gen=[*r, *o])
                        v.hint(z3.Implies(r[0] * d + r[1] == o[0] * d + o[1], z3.And(r[0] == o[0], r[1] == o[1])))
            m = mstar(env)
            v.hint(z3.Implies(m == k, z3.Or(eq, sw)))

    return {P + "effective_cls:for2": LoopSpec(inv, havoc, iter_hook=iteration)}


def effective(r1, r2, lmax, thorough=False):
    nm = f"effective[{r1},{'same' if r2 is None else r2},{'lmax' if lmax else 'all'}]"

    @harness(nm, funcs=FUN, loops=loops, thorough=thorough)
    def h(v):
        ST.clear()
        n, t = triangle(v, lo=1)
        S = Spectra(v, t)
        lm = v.int("lmax", lo=0) if lmax else None
        d1 = tuple(v.int(f"a{q}", lo=1) for q in range(r1))
        d2 = d1 if r2 is None else tuple(v.int(f"b{q}", lo=1) for q in range(r2))
        w1 = v.arr("w1", (n, *d1))
        w2 = w1 if r2 is None else v.arr("w2", (n, *d2))
        # definition of C: the entry of the list at the standard position of the pair, zero beyond its length
        core.UNARY["C"] = [lambda a: [a == z3.If(a.arg(0) >= a.arg(1), S.at(pos(a.arg(0), a.arg(1)), a.arg(2)),
                                                 S.at(pos(a.arg(1), a.arg(0)), a.arg(2)))]]
        nfields_contract(v, n, t)

        def getcl(cls, i, j, lmax=None):
            i, j = z3i(i), z3i(j)
            if cls is not S.seq or lmax is None:
                raise Unsupported("use of getcl")
            v.prove("getcl.pre", z3.And(i >= 0, j >= 0, i < n.re, j < n.re, z3i(lmax) >= -1))
            return SArr((Sc("i", z3.simplify(z3i(lmax) + 1)),), "r", memo(lambda l: Sc("r", C(i, j, l))), w1.xp)

        v.replace(P + "getcl", getcl)
        o1 = tuple(v.ix(f"o{q}", d) for q, d in enumerate(d1))
        o2 = tuple(v.ix(f"p{q}", d) for q, d in enumerate(d2))
        L = z3.Int("modes")
        if lmax:
            v.assume(L == lm.re + 1)
        else:
            # the longest spectrum
            p0 = v.ix("longest", t)
            v.assume(L == S.flen(p0))
            v.c.forall(lambda k: z3.Implies(z3.And(k >= 0, k < t.re), S.flen(k) <= L), None, None)
        l = v.ix("l", Sc("i", L))
        size2 = z3.IntVal(1)
        for d in d2:
            size2 = size2 * d.re
        ST.update(v=v, n=n, w1=w1, w2=w2, o1=o1, o2=o2, d1=d1, d2=d2, l=l, size2=size2, shape=(*d1, *d2, Sc("i", L)))
        want = bilinear(o1, o2, l)
        if r2 is None:
            # the two sets can be exchanged: C is symmetric
            Z, N = z3.IntVal(0), n.re
            f = lambda a, b: Sc("r", real(w1.at(a, *o1)) * real(w1.at(b, *o2)) * C(a, b, l))
            g = lambda a, b: Sc("r", real(w1.at(a, *o2)) * real(w1.at(b, *o1)) * C(a, b, l))
            v.c.ext_enabled = False
            if fubini(v, f, N, N) is not None:
                inner = lambda a: v.congr("symmetric", Z, N, lambda b: g(a, b), lambda b: f(b, a))
                v.congr("exchange", Z, N, lambda a: rsum(Z, N, lambda b: g(a, b)), lambda a: rsum(Z, N, lambda b: f(b, a)), via=inner)
            v.hint(bilinear(o2, o1, l) == want)
            v.c.ext_enabled = True
        ST["want"] = v.let("want", want)
        v.cover()
        args = (S.seq, w1) if r2 is None else (S.seq, w1, w2)
        out = v.call(v.fn(P + "effective_cls"), *args, **({"lmax": lm} if lmax else {}))
        v.dims("shape", out, (*d1, *d2, Sc("i", L)))
        v.prove("bilinear", real(out.at(*o1, *o2, l)) == ST["want"])
    return h


for _lm in (True, False):
    effective(0, None, _lm)
    effective(0, 0, _lm)
    effective(1, None, _lm)
    effective(1, 0, _lm)
    effective(1, 1, _lm)
effective(0, 1, True)
effective(2, None, True)
effective(2, 1, True)
prove_nfields()


@harness("rejects-weights", funcs=FUN, maxpaths=64)
def weights(v):
    """a first axis that is not the number of fields is rejected, in either set"""
    n, t = triangle(v, lo=1)
    S = Spectra(v, t)
    nfields_contract(v, n, t)
    lm = v.int("lmax", lo=0)
    m = v.int("m", lo=0)
    good, bad = v.arr("good", (n,)), v.arr("bad", (m,))
    v.assume(m.re != n.re)
    zero = v.arr("zero", ())
    v.cover()
    f = v.fn(P + "effective_cls")
    for tag, args in (("first", (bad,)), ("second", (good, bad)), ("first-scalar", (zero,)), ("second-scalar", (good, zero))):
        k, e = v.attempt(f, S.seq, *args, lmax=lm)
        v.prove("rejects-" + tag, k == "exc" and isinstance(e, ValueError))


@harness("rejects-count", funcs=FUN)
def rejects(v):
    c = v.int("count", lo=1)
    S = Spectra(v, c)
    v.cover()
    k, out = v.attempt(v.fn(P + "nfields_from_nspectra"), c)
    if k == "exc":
        v.prove("error-type", isinstance(out, ValueError))
        k2, e2 = v.attempt(v.fn(P + "effective_cls"), S.seq, v.arr("w", (v.int("m", lo=1),)), lmax=v.int("lmax", lo=0))
        v.prove("rejected", k2 == "exc" and isinstance(e2, ValueError))
        n = v.int("n", lo=0)
        v.assume(n.re * (n.re + 1) == 2 * c.re)
        root(v, n, c)
        v.prove("rejected-is-not-triangular", False)
    else:
        m = z3i(out)
        v.prove("accepted-is-triangular", z3.And(m >= 0, m * (m + 1) == 2 * c.re))
