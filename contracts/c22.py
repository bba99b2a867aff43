"""C22: multi-plane convergence equals the line-of-sight sum."""
import z3

from contracts.util import iter_index, unknown
from pv import core
from pv import cosmo as C
from pv import xp as X
from pv.arr import SArr, memo, rsum
from pv.core import Unsupported, z3i
from pv.harness import harness
from pv.interp import interp_term
from pv.seq import LoopSpec, SSeq
from pv.vals import Sc, cast

L = "glass.lensing."
M = L + "MultiPlaneConvergence"
I, R = z3.IntSort(), z3.RealSort()
ST = {}
STATE = {"cosmo", "z2", "z3", "x3", "w3", "r23", "delta3", "kappa2", "kappa3"}

# the curvature part of the addition theorem of distances: d(a, b) = d(b) c(a) - d(a) c(b), c = 1 in a flat universe
f_c = z3.Function("curv_of_z", R, R)


def re(s):
    return cast(s if isinstance(s, Sc) else (s.at() if isinstance(s, SArr) else Sc("r", z3.RealVal(s))), "r").re


class World:
    """Redshifts, weights and maps of an arbitrary sequence of planes in an arbitrary universe."""

    def __init__(self, v, flat):
        self.v, self.flat = v, flat
        self.cosmo = C.SymCosmo(flat=flat)
        self.Z, self.W = z3.Function("Z", I, R), z3.Function("Wl", I, R)
        self.D = z3.Function("D", I, I, R)
        self.G = z3.Function("contribution", I, R, I, R)
        v.c.lunary.setdefault("contribution", []).append(
            lambda a: [a == self.coef(self.Z(a.arg(0)), self.W(a.arg(0)), a.arg(1)) * self.D(a.arg(0), a.arg(2))])
        v.c.lunary.setdefault("Z", []).append(lambda a: [z3.Implies(a.arg(0) >= 0, a > 0)])
        v.c.lpair.setdefault("Z", []).append(lambda s, t: [z3.Implies(z3.And(s.arg(0) >= 0, s.arg(0) < t.arg(0)), s < t)])
        c = self.cosmo
        if flat:
            v.c.lunary.setdefault("dC_of_z", []).append(lambda a: [z3.Implies(a.arg(0) > 0, a > 0)])
        else:
            dm = C.f_dm
            v.c.lunary.setdefault("dM_of_z", []).append(lambda a: [z3.Implies(a.arg(0) > 0, a > 0), z3.Implies(a.arg(0) == 0, a == 0)])
            v.c.lunary.setdefault("curv_of_z", []).append(lambda a: [z3.Implies(a.arg(0) == 0, a == 1)])
            v.c.lunary.setdefault("dM_of_z_z", []).append(
                lambda a: [a == dm(a.arg(1)) * f_c(a.arg(0)) - dm(a.arg(0)) * f_c(a.arg(1)),
                           z3.Implies(a.arg(0) < a.arg(1), a > 0)])

    def d(self, z):
        return C.f_dc(z) if self.flat else C.f_dm(z)

    def x(self, z):
        """distance in Hubble units"""
        return self.d(z) / self.cosmo.dh

    def x2(self, a, b):
        return (C.f_dc(b) - C.f_dc(a) if self.flat else C.f_dm2(a, b)) / self.cosmo.dh

    def coef(self, zj, wj, zs):
        """contribution of a plane at zj with lensing weight wj to the convergence at zs"""
        return 3 * self.cosmo.om0 / 2 * self.x(zj) * self.x2(zj, zs) / self.x(zs) * (1 + zj) / C.f_E(zj) * wj

    def kappa(self, count, zs, p):
        """line-of-sight sum over the first `count` planes"""
        return rsum(z3.IntVal(0), Sc("i", count), lambda j: Sc("r", self.G(j, zs, p))).re

    def map(self, j, P):
        return SArr((P,), "r", memo(lambda p: Sc("r", self.D(j, p))), X.NUMPY, owner="delta")

    def put(self, obj, m, P):
        """the object after m >= 1 planes (class invariant)"""
        Z = self.Z
        if set(vars(obj)) != STATE:
            raise Unsupported("the state of the object is not the one the invariant describes")
        z2 = z3.If(m >= 2, Z(m - 2), z3.RealVal(0)) if not z3.is_int_value(z3.simplify(m)) else Z(m - 2)
        z3_ = Z(m - 1)
        if not self.v.c.decide(m >= 2):
            z2 = z3.RealVal(0)
        else:
            z2 = Z(m - 2)
        obj.z2, obj.z3 = Sc("r", z2), Sc("r", z3_)
        obj.x3, obj.w3 = Sc("r", self.x(z3_)), Sc("r", self.W(m - 1))
        obj.r23 = Sc("r", self.x2(z2, z3_) / self.x(z3_))
        obj.delta3 = self.map(m - 1, P)
        one = self.v.c.entails(m == 1)
        k2 = (lambda p: z3.RealVal(0)) if one else (lambda p: self.kappa(m - 2, z2, p))
        k3 = (lambda p: z3.RealVal(0)) if one else (lambda p: self.kappa(m - 1, z3_, p))
        obj.kappa2 = SArr((P,), "r", memo(lambda p: Sc("r", k2(p))), X.NUMPY)
        obj.kappa3 = SArr((P,), "r", memo(lambda p: Sc("r", k3(p))), X.NUMPY)
        return z2, z3_

    def check(self, obj, m, P, p, tag, old=None):
        """the class invariant after m planes"""
        v, Z = self.v, self.Z
        zz = Z(m - 1)
        za = Z(m - 2) if not v.c.entails(m == 1) else z3.RealVal(0)
        v.prove(tag + ".zsrc", re(obj.zsrc) == zz)
        v.prove(tag + ".wlens", re(obj.wlens) == self.W(m - 1))
        v.prove(tag + ".delta", re(obj.delta.at(p)) == self.D(m - 1, p))
        v.dims(tag + ".kappa.shape", obj.kappa, (P,))
        v.prove(tag + ".invariant.z2", re(obj.z2) == za)
        v.prove(tag + ".invariant.x3", re(obj.x3) == self.x(zz))
        v.prove(tag + ".invariant.r23", re(obj.r23) == self.x2(za, zz) / self.x(zz))


def world(v, flat):
    w = World(v, flat)
    cl = v.fn(M)
    return w, cl(w.cosmo)


def first_plane(flat):
    @harness(f"first-plane[{'flat' if flat else 'curved'}]", funcs=[M + ".add_plane", M + "._initialise_inputs", M + ".__init__"])
    def h(v):
        w, obj = world(v, flat)
        P = v.int("P", lo=1)
        p = v.ix("p", P)
        v.cover()
        if v.c.decide(z3.Bool("rejected_first")):       # a plane that is rejected before the first one has no effect
            zs = v.real("z_bad", hi=0)
            kind, r = v.attempt(obj.add_plane, w.map(z3.IntVal(7), P), zs, Sc("r", w.W(z3.IntVal(7))))
            v.prove("behind-the-observer", kind != "ok" and isinstance(r, ValueError))
        one = z3.IntVal(1)
        v.call(obj.add_plane, w.map(z3.IntVal(0), P), Sc("r", w.Z(z3.IntVal(0))), Sc("r", w.W(z3.IntVal(0))))
        w.check(obj, one, P, p, "first")
        v.prove("first.kappa", re(obj.kappa.at(p)) == 0)
        v.prove("first.invariant.kappa2", re(obj.kappa2.at(p)) == 0)
    return h


def next_plane(flat, window=False):
    @harness(f"{'window' if window else 'next-plane'}[{'flat' if flat else 'curved'}]",
             funcs=[M + ".add_plane"] + ([M + ".add_window"] if window else []))
    def h(v):
        w, obj = world(v, flat)
        P, mm = v.int("P", lo=1), v.int("m", lo=1)
        m = mm.re
        p = v.ix("p", P)
        za_, zb = w.put(obj, m, P)
        Z = w.Z
        zc = Z(m)
        v.cover()
        if window:
            n = v.int("n", lo=2)
            za, wa = v.arr("za", (n,)), v.arr("wa", (n,))
            v.increasing(za)
            at = interp_term(zc, n.re, lambda k: re(za.at(k)), lambda k: re(wa.at(k)), None, None)
            area = rsum(z3.IntVal(0), Sc("i", n.re - 1), lambda k: (za.at(k + 1) - za.at(k)) * (wa.at(k) + wa.at(k + 1)) * Sc("r", z3.Q(1, 2))).re
            v.assume(at != 0)
            shell = v.fn("glass.shells.RadialWindow")(za, wa, Sc("r", zc))
            v.assume(w.W(m) * at == area)
            v.call(obj.add_window, w.map(m, P), shell)
            v.prove("window.zsrc", re(obj.zsrc) == zc)
            v.prove("window.lensing-weight", re(obj.wlens) * at == area)
            v.prove("window.delta", re(obj.delta.at(p)) == w.D(m, p))
            return
        v.call(obj.add_plane, w.map(m, P), Sc("r", zc), Sc("r", w.W(m)))
        w.check(obj, m + 1, P, p, "next")
        got2, got = re(obj.kappa2.at(p)), re(obj.kappa.at(p))
        one = v.c.entails(m == 1)
        O = z3.IntVal(0)
        v.prove("next.invariant.kappa2", got2 == (z3.RealVal(0) if one else w.kappa(m - 1, zb, p)))
        # the sum over the planes in front of the last one
        c_last = w.coef(zb, w.W(m - 1), zc) * w.D(m - 1, p)
        if one:
            v.lemma("first-sum", w.kappa(m, zc, p) == w.G(O, zc, p))
            v.lemma("first-term", w.G(O, zc, p) == w.coef(Z(O), w.W(O), zc) * w.D(O, p))
            v.prove("next.kappa", got == w.kappa(m, zc, p))
            return
        x1, x2, x3 = w.d(za_), w.d(zb), w.d(zc)
        for t in (x1, x2, x3):
            v.lemma("distance-positive", t > 0)
        d12, d13 = w.x2(za_, zb), w.x2(za_, zc)
        v.lemma("planes-apart", z3.And(d12 > 0, d13 > 0))
        T = v.real("t_ratio")
        v.assume(T.re * (d12 * w.x(zc)) == d13 * w.x(zb))       # t = r13 / r12
        t = T.re
        v.lemma("recursion", got == (1 - t) * w.kappa(m - 2, za_, p) + t * w.kappa(m - 1, zb, p) + c_last)
        # the sums of the invariant run to the same plane: the plane itself does not contribute at its own redshift
        s1 = w.kappa(m - 1, za_, p)
        v.lemma("own-plane", w.G(m - 2, za_, p) == 0)
        v.lemma("extend", s1 == w.kappa(m - 2, za_, p))
        ext, v.c.ext_enabled = v.c.ext_enabled, False
        term = lambda j, z: Sc("r", w.G(j, z, p))
        j = v.ix("jj", Sc("i", m - 1))
        v.congr("interpolate", O, m - 1, lambda j: Sc("r", (1 - t) * term(j, za_).re + t * term(j, zb).re), lambda j: term(j, zc))
        v.c.ext_enabled = ext
        v.lemma("combined", (1 - t) * s1 + t * w.kappa(m - 1, zb, p) == w.kappa(m - 1, zc, p))
        v.lemma("last", w.kappa(m, zc, p) == w.kappa(m - 1, zc, p) + w.G(m - 1, zc, p))
        v.lemma("last-term", w.G(m - 1, zc, p) == c_last)
        v.prove("next.kappa", got == w.kappa(m, zc, p))
        if flat:
            u = lambda z: w.x(z)
            v.prove("flat-formula", w.coef(Z(j), w.W(j), zc) ==
                    3 * w.cosmo.om0 / 2 * (u(Z(j)) * (u(zc) - u(Z(j))) / u(zc)) * (1 + Z(j)) / C.f_E(Z(j)) * w.W(j))
    return h


for _f in (True, False):
    first_plane(_f)
    next_plane(_f)
    next_plane(_f, True)


@harness("rejected-plane", funcs=[M + ".add_plane"])
def rejected(v):
    w, obj = world(v, False)
    P, mm = v.int("P", lo=1), v.int("m", lo=1)
    m = mm.re
    p = v.ix("p", P)
    w.put(obj, m, P)
    before = dict(vars(obj))
    vals = {k: re(x.at(p)) for k, x in before.items() if isinstance(x, SArr)}
    zs = v.real("zsrc")
    v.cover()
    kind, r = v.attempt(obj.add_plane, w.map(m, P), zs, Sc("r", w.W(m)))
    if kind == "ok":
        v.prove("accepts-only-increasing", zs.re > w.Z(m - 1))
    elif not isinstance(r, ValueError):
        v.c.fail("no-other-exception", f"{type(r).__name__}: {r}")
    else:
        v.prove("rejects-only-not-increasing", zs.re <= w.Z(m - 1))
        after = vars(obj)
        v.prove("state.same-attributes", set(after) == set(before))
        for k, x in before.items():
            if isinstance(x, SArr):
                v.prove(f"state.{k}", isinstance(after[k], SArr) and re(after[k].at(p)) == vals[k])
            elif isinstance(x, Sc):
                v.prove(f"state.{k}", re(after[k]) == x.re)
            else:
                v.prove(f"state.{k}", after[k] is x)


# ------------------------------------------------------------------ matrix and weights
class Shells:
    def __init__(self, v, count):
        self.count = count
        self.len = z3.Function("w_len", I, I)
        self.fn = v.fn("glass.shells.RadialWindow")
        self.f = {n: z3.Function("w_" + n, I, I, R) for n in ("za", "wa", "zeff")}
        v.c.forall(lambda s: self.len(s) >= 2, None, None)
        self.seq = SSeq(count, memo(self.get))

    def get(self, s):
        s = z3.simplify(s)
        d = Sc("i", self.len(s))
        mk = lambda n: SArr((d,), "r", memo(lambda i: Sc("r", self.f[n](s, i))), X.NUMPY)
        w = self.fn(mk("za"), mk("wa"), Sc("r", self.f["zeff"](s, z3.IntVal(0))))
        w.za.shell = s
        return w


T = z3.Function("T", I, I, R)        # T(j, k): contribution of a unit plane in shell j to the convergence in shell k > j


def matrix_loop():
    def inv(env, k):
        nm = [x for x in env.loop_.mods if isinstance(env.get(x), SArr) and env.get(x).ndim == 2]
        if len(nm) != 1:
            raise Unsupported("loop contract: the matrix is not identified")
        a = env.get(nm[0])
        n, i, j = ST["n"], ST["i"], ST["j"]
        return [("shape", z3.And(*[z3i(d) == n.re for d in a.shape])),
                ("rows", re(a.at(i, j)) == z3.If(i < k, z3.If(j < i, T(j, i), z3.RealVal(0)), z3.If(i == j, z3.RealVal(1), z3.RealVal(0))))]

    def havoc(env, k):
        nm = [x for x in env.loop_.mods if isinstance(env.loop_.env0.get(x), SArr) and env.loop_.env0.get(x).ndim == 2]
        n = ST["n"]
        a = unknown("wmat", (n, n))
        # the rows not reached yet are those of the unit matrix, the others hold the contributions
        a0 = a.reader()         # the content at this point (the array is written to afterwards)
        ST["v"].c.forall(lambda i, j: re(a0(i, j)) == z3.If(i < k, z3.If(j < i, T(j, i), z3.RealVal(0)), z3.If(i == j, z3.RealVal(1), z3.RealVal(0))),
                         None, None, 2)
        return {nm[0]: a, **{x: Ghost(g.cosmo) for x, g in env.loop_.env0.items() if isinstance(g, Ghost)}}

    return {L + "multi_plane_matrix:for1": LoopSpec(inv, havoc)}


class Ghost:
    """Contract of the convergence object: after planes 0..k with unit maps, kappa is column-wise the contribution to shell k."""

    def __init__(self, cosmo):
        ST["v"].prove("matrix.cosmology", cosmo is ST["cosmo"])
        self.cosmo, self.k = cosmo, None

    def add_window(self, delta, w):
        v, n = ST["v"], ST["n"]
        k = iter_index(v, L + "multi_plane_matrix")
        if getattr(w.za, "shell", None) is None or self.k is not None:
            raise Unsupported("use of add_window")
        v.prove("matrix.shell", w.za.shell == k)
        q = v.ix("q", n)
        v.dims("matrix.delta.shape", delta, (n,))
        v.prove("matrix.unit-plane", re(delta.at(q)) == z3.If(q == k, z3.RealVal(1), z3.RealVal(0)))
        self.k = k

    @property
    def kappa(self):
        k = self.k
        if k is None:
            raise Unsupported("kappa before a plane")
        return SArr((ST["n"],), "r", memo(lambda j: Sc("r", z3.If(j < k, T(j, k), z3.RealVal(0)))), X.NUMPY)

    def __array_namespace__(self, **k):
        return X.NUMPY


@harness("matrix", funcs=[L + "multi_plane_matrix"], loops=matrix_loop)
def matrix(v):
    ST.clear()
    n = v.int("n", lo=1)
    sh = Shells(v, n)
    i, j = v.ix("i", n), v.ix("j", n)
    ST.update(v=v, n=n, i=i, j=j, cosmo=C.SymCosmo())
    v.replace(M, Ghost)
    v.cover()
    out = v.call(v.fn(L + "multi_plane_matrix"), sh.seq, ST["cosmo"])
    v.dims("shape", out, (n, n))
    v.prove("entry", re(out.at(i, j)) == z3.If(j < i, T(j, i), z3.RealVal(0)))


@harness("unit-planes", funcs=[M + ".add_plane"])
def unit(v):
    """lemma: with unit maps the line-of-sight sum at entry i is the single contribution of plane i"""
    k, i = v.int("k", lo=0), v.int("i", lo=0)
    c = z3.Function("c_of", I, R)
    v.cover()
    from contracts.util import induct
    unitm = lambda j: z3.If(j == i.re, z3.RealVal(1), z3.RealVal(0))
    S = lambda m: rsum(z3.IntVal(0), Sc("i", m), lambda j: Sc("r", c(j) * unitm(j))).re
    induct(v, "single", lambda m: S(m) == z3.If(i.re < m, c(i.re), z3.RealVal(0)), k.re)
    v.prove("sum-of-unit-planes", S(k.re) == z3.If(i.re < k.re, c(i.re), z3.RealVal(0)))


def weights(rank):
    @harness(f"weights[{rank}]", funcs=[L + "multi_plane_weights"])
    def h(v):
        n, m = v.int("n", lo=1), v.int("rows", lo=1)
        sh = Shells(v, n)
        rest = tuple(v.int(f"b{q}", lo=1) for q in range(rank))
        w = v.arr("w", (m, *rest))
        mat = v.arr("mat", (n, n))
        cosmo = C.SymCosmo()

        def contract(shells, cs, **k):
            if k or shells is not sh.seq or cs is not cosmo:
                raise Unsupported("use of multi_plane_matrix")
            return mat
        v.replace(L + "multi_plane_matrix", contract)
        o = [v.ix(f"o{q}", d) for q, d in enumerate(rest)]
        S = rsum(z3.IntVal(0), m, lambda k: Sc("r", re(w.at(k, *o)))).re
        v.assume(S != 0)
        v.cover()
        out = v.raises_iff("shape-mismatch", ValueError, m.re != n.re, v.fn(L + "multi_plane_weights"), w, sh.seq, cosmo)
        if out is None:
            return
        i = v.ix("i", n)
        v.dims("shape", out, (n, *rest))
        v.prove("entry", re(out.at(i, *o)) == rsum(z3.IntVal(0), n, lambda k: Sc("r", re(mat.at(k, i)) * (re(w.at(k, *o)) / S))).re)
    return h


for _r in (0, 1):
    weights(_r)


ASSUMPTIONS = ["the cosmology: distances and H(z)/H0 are functions of redshift with d(z) > 0 for z > 0, d(a, b) > 0 for a < b and the addition "
               "theorem d(a, b) = d(b) c(a) - d(a) c(b) (c = 1 when flat)"]
