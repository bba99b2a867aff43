"""C05: field generation assembles the right ingredients."""
import z3

from contracts.util import Spectra, triangle, unknown
from pv import xp as X
from pv.arr import SArr, memo, rsum
from pv.core import Unsupported, ctx, z3i
from pv.harness import harness
from pv.seq import LoopSpec, SSeq
from pv.stubs import Deque, event, events
from pv.vals import Sc, cast

P = "glass.fields."
G = P + "_generate_grf"
I, R = z3.IntSort(), z3.RealSort()
ZERO = z3.IntVal(0)
DEG = z3.Function("Degree", I, I)           # degree of the coefficient at a position (field-major order of this library)
PERM = z3.Function("Reorder", I, I)         # where the coefficient at a HEALPix position is in that order
ZR, ZI = z3.Function("DrawRe", I, I, R), z3.Function("DrawIm", I, I, R)     # standard normal pairs drawn for field q
W = z3.Function("Weight", I, I, I, R)       # scaling weights (C04) of field k
ST = {}


class Kept(SSeq):
    """the draws that are kept: a queue of arbitrary length"""

    def append(self, x):
        n, g = z3i(self.n), self.getter
        self.getter = lambda i: x if i.eq(n) else (g(i) if ctx().entails(i < n) else pick(i < n, g(i), x))
        self.n = Sc("i", z3.simplify(n + 1))

    def popleft(self):
        if not ctx().entails(z3i(self.n) > 0):
            raise Unsupported("popleft of a queue that may be empty")
        g = self.getter
        self.getter = lambda i: g(z3.simplify(i + 1))
        self.n = Sc("i", z3.simplify(z3i(self.n) - 1))
        return g(ZERO)

    def pv_subst(self, pairs):
        raise Unsupported("queue of draws in a comprehension result")


def pick(cond, a, b):
    ra, rb = a.reader(), b.reader()
    return SArr(a.shape, "c", memo(lambda *p: ite(cond, cast(ra(*p), "c"), cast(rb(*p), "c"))), a.xp)


def ite(c, a, b):
    return Sc("c", z3.If(c, a.re, b.re), z3.If(c, a.im, b.im))


def queue(env):
    nm = [m for m in env.loop_.mods if isinstance(env.loop_.env0.get(m), (Deque, Kept))]
    if len(nm) != 1:
        raise Unsupported("the queue of draws is not identified")
    return nm[0]


def window():
    def length(k):
        C = ST["C"]
        return z3.If(k < C, k, C)

    def inv(env, k):
        v = ST["v"]
        y = env.get(queue(env))
        n = z3.IntVal(len(y)) if isinstance(y, Deque) else z3i(y.n)
        out = [("kept.count", n == length(k))]
        if isinstance(y, Kept) and ST.get("phase") != "assume" and ST.get("item") is not None:
            i, p = v.ix("kept", y.n), v.ix("pos", ST["size"])
            e = y.getter(i)
            if not isinstance(e, SArr) or e.ndim != 1:
                raise Unsupported("something else is kept")
            x = cast(e.at(p), "c")
            q = z3.simplify(k - n + i)
            v.hint(z3.Implies(i == n - 1, q == k - 1))
            out.append(("kept.draws", z3.And(x.re == ZR(q, p), x.im == ZI(q, p))))
        return out

    def havoc(env, k):
        ST["k"] = k
        L = length(k)
        size = ST["size"]
        arr = lambda i: SArr((size,), "c", memo(lambda p: Sc("c", ZR(z3.simplify(k - L + i), p), ZI(z3.simplify(k - L + i), p))), X.NUMPY)
        ST["phase"] = "assume"
        return {queue(env): Kept(Sc("i", L), arr)}

    def hook(env, k):
        ST["phase"] = "run"
    return {G + ":for1": LoopSpec(inv, havoc, iter_hook=hook)}


def sampler(ncorr):
    @harness(f"_generate_grf[{ncorr}]", funcs=[G], loops=window)
    def h(v):
        c = ctx()
        ST.clear()
        N, t = triangle(v, lo=1)
        S = Spectra(v, t)
        gls = S.seq
        nside = v.int("nside", lo=1)
        nc = v.int("ncorr", lo=0) if ncorr == "given" else None
        rng = v.rng()
        C = nc.re + 1 if nc is not None else N.re
        ST.update(v=v, C=C)
        got = {}

        def nfields(n):
            v.prove("number-of-fields", z3i(n) == t.re)
            return N

        def cls2cov(cls, nl, nf, ncor):
            if cls is not gls:
                raise Unsupported("covariance of other spectra")
            i = v.ix("spectrum", t)
            ST["n"] = n = z3i(nl)
            v.prove("modes.enough", n >= z3i(gls.getter(i).shape[0]))
            v.prove("modes.positive", n > 0)
            v.prove("fields", z3i(nf) == N.re)
            v.prove("correlations", z3i(ncor) + 1 == C)
            ST["size"] = Sc("i", n * (n + 1) / 2)
            return SSeq(N, lambda k: SArr((Sc("i", n), Sc("i", C)), "r", lambda l, d: Sc("r", z3.Function("Cov", I, I, I, R)(k, l, d)), X.NUMPY))

        def iternorm(cov):
            if not isinstance(cov, SSeq):
                raise Unsupported("covariance rows in another form")
            k, l, d = v.ix("row", N), v.ix("mode", Sc("i", ST["n"])), v.ix("col", Sc("i", C))
            r = cov.getter(k)
            v.dims("rows.shape", r, (Sc("i", ST["n"]), Sc("i", C)))
            v.prove("rows", cast(r.at(l, d), "r").re == z3.Function("Cov", I, I, I, R)(k, l, d))
            return SSeq(N, lambda k: SArr((Sc("i", ST["n"]), Sc("i", C)), "r", memo(lambda l, d: Sc("r", W(k, l, d))), X.NUMPY))

        def multalm(alm, bl):
            v.dims("scaled.shape", alm, (ST["size"],))
            v.dims("weights.shape", bl, (Sc("i", ST["n"]),))
            ra, rb = alm.reader(), bl.reader()
            return SArr(alm.shape, "c", memo(lambda p: cast(ra(p), "c") * cast(rb(DEG(p)), "c")), X.NUMPY)

        def reorder(alm):
            ra = alm.copy_().reader()
            v.dims("coefficients", alm, (ST["size"],))
            return SArr(alm.shape, "c", memo(lambda p: cast(ra(PERM(p)), "c")), X.NUMPY)
        v.replace(P + "nfields_from_nspectra", nfields)
        v.replace(P + "cls2cov", cls2cov)
        v.replace(P + "iternorm", iternorm)
        v.replace(P + "_glass_to_healpix_alm", reorder)
        v.replace("glass.harmonics.multalm", multalm)
        v.cover()
        gen = v.fn(G)(gls, nside, ncorr=nc, rng=rng)
        try:
            kind, item = v.attempt(next, gen)
        except Unsupported as e:
            if isinstance(e.__cause__, StopIteration):
                return
            raise
        empty = v.ix("any", t)
        if kind != "ok":
            v.prove("rejected", isinstance(item, ValueError))
            v.prove("rejected-only-if-empty", z3i(gls.getter(empty).shape[0]) == 0)
            return
        it = [e for e in ctx().trace if isinstance(e, tuple) and e[0] == "iter"][-1]
        k = it[2]
        v.prove("one-per-field", it[3] == N.re)
        n, size = ST["n"], ST["size"]
        # the draw of this iteration
        ds = events("draw")
        if len(ds) != 1 or ds[0].method != "standard_normal" or len(ds[0].shape) != 2:
            raise Unsupported("drawn in another way")
        if ds[0].rng is not rng:
            v.c.fail("generator", "drawn from another generator")
        v.dims("draw.shape", ds[0].result, (size, 2))
        raw = ds[0].raw
        p = v.ix("p", size)
        for q in (p, PERM(p)):
            v.assume(z3.And(ZR(k, q) == raw(q, ZERO), ZI(k, q) == raw(q, z3.IntVal(1))))      # definition of this field's draw
        v.c.lunary.setdefault("DrawRe", []).append(lambda a: [z3.Implies(a.arg(0) == k, a == raw(a.arg(1), ZERO))])
        v.c.lunary.setdefault("DrawIm", []).append(lambda a: [z3.Implies(a.arg(0) == k, a == raw(a.arg(1), z3.IntVal(1)))])
        v.assume(z3.And(PERM(p) >= 0, PERM(p) < size.re, DEG(PERM(p)) >= 0, DEG(PERM(p)) < n))
        es = events("alm2map")
        if len(es) != 1:
            raise Unsupported("transformed in another way")
        e = es[0]
        v.prove("nside", z3i(e.nside) == nside.re)
        v.prove("options", z3.BoolVal(e.pixwin is False and e.pol is False))
        v.prove("lmax", z3.BoolVal(e.lmax is None) if not isinstance(e.lmax, Sc) else e.lmax.re == n - 1)
        v.dims("alm", e.alm, (size,))
        if item is not e.result:
            raise Unsupported("the map is changed")
        L = z3.If(k + 1 < C, k + 1, C)
        q = PERM(p)
        z = lambda f: f(q)
        sr = rsum(ZERO, Sc("i", L), lambda i: Sc("r", ZR(z3.simplify(k + 1 - L + i), q) * W(k, DEG(q), z3.simplify(C - L + i)))).re
        si = rsum(ZERO, Sc("i", L), lambda i: Sc("r", ZI(z3.simplify(k + 1 - L + i), q) * W(k, DEG(q), z3.simplify(C - L + i)))).re
        a = cast(e.alm.at(p), "c")
        if v.c.decide(p < n):
            v.prove("m0.real", a.im == 0)
            v.prove("m0.value", a.re == sr + si)
        else:
            v.prove("coefficient.re", a.re == sr)
            v.prove("coefficient.im", a.im == si)
        ST["item"] = item
        v.attempt(next, gen)
    return h


sampler("given")
sampler("none")


@harness("generate", funcs=[P + "generate"])
def generate(v):
    """map i is transformation i of Gaussian map i with the variance of the auto-spectrum (i, i)"""
    n, t = v.int("n", lo=0), v.int("nspectra", lo=0)
    val = z3.Function("Spectrum", I, I, R)
    ln = v.c.fresh_fun("len", 1, "i")
    v.c.lunary.setdefault(ln.decl.name(), []).append(lambda a: [a >= 0])
    gls = SSeq(t, lambda k: SArr((Sc("i", ln(k)),), "r", lambda l: Sc("r", val(k, l)), X.NUMPY))
    VAR = z3.Function("Variance", I, R)
    T = z3.Function("Transformed", I, I, I, R, R)
    npix = v.int("npix", lo=1)
    nside, nc, rng = v.int("nside", lo=1), v.int("ncorr", lo=0), v.rng()
    calls = []

    class Field:
        def __init__(self, k):
            self.k = k

        def pv_subst(self, pairs):
            return Field(z3.substitute(self.k, *pairs))

        def __call__(self, x, var):
            event("field", k=self.k, x=x, var=var)
            i = [a for a in apps(x.at(ZERO).re, "Gaussian")]
            if not i:
                raise Unsupported("something else is transformed")
            return SArr(x.shape, "r", lambda p: Sc("r", T(self.k, i[0].arg(0), p, cast(var if isinstance(var, Sc) else var.at(), "r").re)), X.NUMPY)
    GA = z3.Function("Gaussian", I, I, R)

    def grf(spectra, ns, *, ncorr=None, rng=None):
        calls.append((spectra, ns, ncorr, rng))
        return SSeq(n, lambda k: SArr((npix,), "r", memo(lambda p: Sc("r", GA(k, p))), X.NUMPY))

    def cltovar(cl):
        a = [q for q in apps(cl.at(z3.Int("ix!l")).re, "Spectrum")]
        if len(a) != 1:
            raise Unsupported("variance of something else")
        k = a[0].arg(0)
        v.dims("variance.length", cl, (Sc("i", ln(k)),))
        v.prove("variance.spectrum", cl.at(z3.Int("ix!l")).re == val(k, z3.Int("ix!l")))
        return Sc("r", VAR(k))

    def getcl(cls, i, j, *a, **kw):
        """contract (C01): the spectrum of fields i and j"""
        if cls is not gls or a or kw:
            raise Unsupported("another spectrum is looked up")
        i, j = z3i(i), z3i(j)
        v.prove("diagonal", i == j)
        return gls.getter(z3.simplify(i * (i + 1) / 2))
    import pv.stubs as S
    S.TRANSFORMCL.cltovar = cltovar
    v.replace(P + "_generate_grf", grf)
    v.replace(P + "getcl", getcl)
    fields = SSeq(n, Field)
    v.cover()
    v.hint(n.re * (n.re + 1) == 2 * (n.re * (n.re + 1) / 2))
    try:
        kind, gen = v.attempt(lambda: v.fn(P + "generate")(fields, gls, nside, ncorr=nc, rng=rng))
        if kind == "ok":
            kind, item = v.attempt(next, iter(gen))
        else:
            item = gen
    except Unsupported as e:
        if isinstance(e.__cause__, StopIteration):
            v.prove("accepted", 2 * t.re == n.re * (n.re + 1))
            return
        raise
    if kind != "ok":
        v.prove("rejected", isinstance(item, ValueError))
        v.prove("rejected-only-mismatch", 2 * t.re != n.re * (n.re + 1))
        return
    v.prove("accepted", 2 * t.re == n.re * (n.re + 1))
    if len(calls) != 1:
        raise Unsupported("sampled in another way")
    v.prove("spectra", z3.BoolVal(calls[0][0] is gls))
    v.prove("nside", z3i(calls[0][1]) == nside.re)
    v.prove("ncorr", z3i(calls[0][2]) == nc.re if isinstance(calls[0][2], Sc) else z3.BoolVal(False))
    v.prove("generator", z3.BoolVal(calls[0][3] is rng))
    it = [e for e in ctx().trace if isinstance(e, tuple) and e[0] == "iter"][-1]
    k = it[2]
    v.prove("one-per-field", it[3] == n.re)
    v.dims("map", item, (npix,))
    p = v.ix("p", npix)
    x = cast(item.at(p), "r").re
    v.prove("map-i", x == T(k, k, p, VAR(k * (k + 1) / 2)))


def apps(e, name):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name:
            out.append(x)
        todo.extend(x.children())
    return out

ASSUMPTIONS = [
    "cls2cov and iternorm are used through their contracts (C04), nfields_from_nspectra and getcl through theirs (C01), multalm and the reordering "
    "of coefficients through theirs (C02); cltovar is transformcl's variance of a spectrum, alm2map HEALPix's synthesis",
    "cov rows given to iternorm have one more column than ncorr (C04), so all weights rows have the same length",
]
