"""C21: lensing maps are the documented multiples of convergence."""
import z3

from pv import vals as V
from pv import xp as X
from pv.core import Unsupported, z3i
from pv.harness import harness
from pv.stubs import ell_f, events, pw_f
from pv.vals import Sc, cast, lift

P = "glass.lensing."
I = z3.IntSort()


def nside_map(v):
    nside = v.int("nside", lo=1)
    npix = 12 * nside.re * nside.re
    v.c.store.setdefault("nside_hints", []).append(nside)
    return nside, v.arr("kappa", (Sc("i", npix),))


def same(a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        raise Unsupported("an argument of a transform is not a number")
    return z3i(x) == z3i(y)


def analysis(v, kappa, lmax):
    """the one set of coefficients of the convergence map"""
    ev = events("map2alm")
    if len(ev) != 1:
        raise Unsupported(f"{len(ev)} harmonic analyses")
    e = ev[0]
    i = v.ix("pix", e.map.shape[0])
    v.eq("analysis.map", e.map.at(i), kappa.at(i))
    v.prove("analysis.lmax", same(e.lmax, lmax))
    v.prove("analysis.pixel-weights", bool(e.use_pixel_weights))
    return e.coeffs


def coefficients(v, name, alm, kalm, lmax, claim):
    """alm(p) = factor(l(p)) kalm(p): `claim(l, got, kappa_lm)` gives the equations of one part (real, imaginary)"""
    v.dims(name + ".size", alm, kalm.shape)
    n = z3i(kalm.shape[0])
    p = v.ix("lm", Sc("i", n))
    l = ell_f(n, p)
    # the degree of every coefficient is at most lmax
    v.assume(z3.And(l >= 0, l <= lmax.re))
    g, k = cast(alm.at(p), "c"), cast(kalm.at(p), "c")
    v.c.decide(l > 0)
    for part in ("re", "im"):
        claim(f"{name}.{part}", l, getattr(g, part), getattr(k, part))


def root(v, q):
    """the root of a non-negative number"""
    s = V.s_sqrt(Sc("r", q)).re
    v.lemma("root", z3.And(s >= 0, s * s == q))
    return s


def roots(v, g):
    """facts about the roots that occur in the code's value"""
    facts, gen = [], []
    for a in v.apps("sqrt", g):
        f = z3.And(a >= 0, z3.Implies(a.arg(0) >= 0, a * a == a.arg(0)))
        v.lemma("root-in-code", f)
        if v.c.entails(a.arg(0) >= 0):
            f = z3.And(a >= 0, a * a == a.arg(0))
            v.lemma("root-in-code", f)
        facts.append(f)
        gen.append(a)
    return facts, gen


def potential(v):
    def claim(name, l, g, k):
        L = z3.ToReal(l)
        if v.c.decide(l > 0):
            v.prove(name, g * L * (L + 1) == -2 * k)
        else:
            v.prove(name, g == 0)
    return claim


def deflection(v):
    def claim(name, l, g, k):
        L = z3.ToReal(l)
        if v.c.decide(l > 0):
            s = root(v, L * (L + 1))
            v.lemma("root-positive", s > 0)
            v.prove(name, g * s == -2 * k)
        else:
            v.prove(name, g == 0)
    return claim


def shear(v, nside, disc):
    def claim(name, l, g, k):
        L = z3.ToReal(l)
        if v.c.decide(l > 0):
            s, q = root(v, L * (L + 1)), root(v, (L - 1) * (L + 2))
            v.lemma("root-positive", s > 0)
            v.lemma("degree", L >= 1)
            p0, p2 = pw_f[0](nside.re, l), pw_f[1](nside.re, l)
            v.assume(p0 > 0)
            g = z3.simplify(v.c.reduce(z3.simplify(g)))
            facts, gen = roots(v, g)
            using = [z3.And(s > 0, s * s == L * (L + 1)), z3.And(q >= 0, q * q == (L - 1) * (L + 2)), L >= 1, p0 > 0, *facts]
            gen = [s, q, *gen]
            S = s * q
            if not v.c.entails(z3.Or([a == s for a in gen[2:]] + [z3.BoolVal(False)])):
                # a single root of the product
                for a in gen[2:]:
                    v.hint(a == S, using=using, gen=[*gen, L])
                    using.append(a == S) if v.c.entails(a == S) else None
            v.prove(name, g * s * p0 == -k * q * p2 if disc else g * s == -k * q, using=using, gen=[*gen, L, k, p0, p2])
        else:
            v.prove(name, g == 0)
    return claim


def windows(v, nside, disc):
    v.forall(lambda l: pw_f[0](nside.re, l) > 0, None, None)


def complex_map(v, name, got, parts):
    v.dims(name + ".shape", got, parts[0].shape)
    i = v.ix("pix", parts[0].shape[0])
    g = cast(got.at(i), "c")
    v.prove(name + ".first", g.re == cast(parts[0].at(i), "r").re)
    v.prove(name + ".second", g.im == cast(parts[1].at(i), "r").re)


def spin_map(v, name, out, spin, nside, lmax, kalm, claim):
    ev = [e for e in events("alm2map_spin") if v.c.entails(same(e.spin, spin))]
    if len(ev) != 1:
        raise Unsupported(f"{len(ev)} transforms of spin {spin}")
    e = ev[0]
    v.prove(name + ".nside", same(e.nside, nside))
    v.prove(name + ".lmax", same(e.lmax, lmax))
    b = e.alms[1]
    v.dims(name + ".curl-size", b, kalm.shape)
    z = cast(b.at(v.ix("b", b.shape[0])), "c")
    v.prove(name + ".curl-free", z3.And(z.re == 0, z.im == 0))
    coefficients(v, name, e.alms[0], kalm, lmax, claim)
    return e


def convergence(pot, defl, sh, given, disc, funcs=(P + "from_convergence",)):
    which = [n for n, o in (("potential", pot), ("deflection", defl), ("shear", sh)) if o]
    name = "from_convergence[" + ",".join(which + (["lmax"] if given else []) + (["discretized"] if disc else [])) + "]"

    @harness(name, funcs=list(funcs))
    def h(v):
        nside, kappa = nside_map(v)
        kw = {"lmax": v.int("lmax", lo=0)} if given else {}
        lmax = kw.get("lmax", Sc("i", 3 * nside.re - 1))
        windows(v, nside, disc)
        v.cover()
        out = v.call(v.fn(P + "from_convergence"), kappa, **kw, discretized=disc, **{n: True for n in which})
        v.prove("number-of-maps", isinstance(out, tuple) and len(out) == len(which))
        if not isinstance(out, tuple) or len(out) != len(which):
            return
        if not which:
            v.prove("nothing-computed", True)
            return
        kalm = analysis(v, kappa, lmax)
        got = dict(zip(which, out))
        if pot:
            ev = events("alm2map")
            if len(ev) != 1:
                raise Unsupported(f"{len(ev)} scalar transforms")
            e = ev[0]
            v.prove("potential.nside", same(e.nside, nside))
            v.prove("potential.lmax", same(e.lmax, lmax))
            v.prove("potential.no-window", not e.pixwin)
            v.dims("potential.shape", got["potential"], e.result.shape)
            i = v.ix("pix", e.result.shape[0])
            v.eq("potential.map", got["potential"].at(i), e.result.at(i))
            coefficients(v, "potential", e.alm, kalm, lmax, potential(v))
        if defl:
            e = spin_map(v, "deflection", out, 1, nside, lmax, kalm, deflection(v))
            complex_map(v, "deflection.map", got["deflection"], e.result)
        if sh:
            e = spin_map(v, "shear", out, 2, nside, lmax, kalm, shear(v, nside, disc))
            complex_map(v, "shear.map", got["shear"], e.result)
    return h


for _m in range(8):
    convergence(bool(_m & 1), bool(_m & 2), bool(_m & 4), _m in (0, 3, 4, 7), _m in (4, 6))
convergence(True, True, True, False, True)
convergence(False, False, True, True, False)


def older(given, disc):
    @harness("shear_from_convergence[" + ",".join((["lmax"] if given else []) + (["discretized"] if disc else [])) + "]",
             funcs=[P + "shear_from_convergence"])
    def h(v):
        nside, kappa = nside_map(v)
        kw = {"lmax": v.int("lmax", lo=0)} if given else {}
        lmax = kw.get("lmax", Sc("i", 3 * nside.re - 1))
        windows(v, nside, disc)
        v.cover()
        out = list(v.call(v.fn(P + "shear_from_convergence"), kappa, **kw, discretized=disc))
        kalm = analysis(v, kappa, lmax)
        e = spin_map(v, "shear", out, 2, nside, lmax, kalm, shear(v, nside, disc))
        v.prove("components", len(out) == 2)
        i = v.ix("pix", e.result[0].shape[0])
        for q in (0, 1):
            v.eq(f"map.{q}", out[q].at(i), e.result[q].at(i))
    return h


older(False, True)
older(True, False)

ASSUMPTIONS = ["HEALPix analysis (map2alm) and synthesis (alm2map, alm2map_spin) are functions of their arguments; almxfl multiplies every "
               "coefficient by the factor of its own degree (zero beyond the list of factors)",
               "the spin-0 pixel window is positive"]
