"""C18: galaxy shear composes ellipticity and lensing exactly."""
import z3

from contracts.util import unknown
from pv import vals as V
from pv.core import z3i
from pv.harness import harness
from pv.seq import LoopSpec
from pv.stubs import pix_f
from pv.vals import Sc, cast

P = "glass.galaxies.galaxy_shear"
STATE = {}


def loops():
    """Galaxies before the start of the next batch have the values of their pixels."""
    def inv(env, k):
        p, size, kap, g1, g2, pix = (STATE[x] for x in ("p", "size", "kappa", "gamma1", "gamma2", "pix"))
        out = [("size", z3.And(z3i(env.k.shape[0]) == size, z3i(env.g.shape[0]) == size, z3.BoolVal(env.k.ndim == 1 and env.g.ndim == 1)))]
        done = p < env.item_(k).re
        gv = cast(env.g.at(p), "c")
        out.append(("kappa", z3.Implies(done, env.k.at(p).re == kap)))
        out.append(("shear", z3.Implies(done, z3.And(gv.re == g1, gv.im == g2))))
        return out

    def havoc(env, k):
        n = (Sc("i", STATE["size"]),)
        return dict(k=unknown("k", n), g=unknown("g", n, "c"), i=Sc("i", z3.FreshInt("i")))

    def final(env, k):
        p, v = STATE["p"], STATE["v"]
        gv = cast(env.g.at(p), "c")
        for f in (env.k.at(p).re == STATE["kappa"], gv.re == STATE["gamma1"], gv.im == STATE["gamma2"]):
            v.hint(f)

    return {"glass.galaxies.galaxy_shear:for1": LoopSpec(inv, havoc, exit_hook=final)}


def inputs(v, n, eps_complex=True):
    ns = v.int("nside", lo=1)
    npix = ns * ns * 12
    v.c.store["nside_hints"] = [ns]
    lon, lat = v.arr("lon", (n,)), v.arr("lat", (n,))
    eps = v.arr("eps", (n,), "c")
    maps = [v.arr(k, (npix,)) for k in ("kappa", "gamma1", "gamma2")]
    p = v.ix("p", n)
    pix = pix_f(ns.re, lon.at(p).re, lat.at(p).re)
    vals = [m.at(pix).re for m in maps]
    STATE.update(v=v, p=p, size=z3i(n), kappa=vals[0], gamma1=vals[1], gamma2=vals[2], pix=pix)
    return lon, lat, eps, maps, p, vals


def shear(reduced, default=False):
    @harness(f"galaxy_shear[{'reduced' if reduced else 'plain'}{',default' if default else ''}]", funcs=[P], loops=loops)
    def h(v):
        n = v.int("n", lo=1)
        lon, lat, eps, maps, p, vals = inputs(v, n)
        e = eps.at(p)
        v.cover()
        kap, g1, g2 = vals
        if reduced:
            v.assume(kap != 1)
        out = v.call(v.fn(P), lon, lat, eps, *maps, **({} if default else {"reduced_shear": reduced}))
        v.dims("shape", out, (n,))
        o = cast(out.at(p), "c")
        if not reduced:
            v.prove("sum.re", o.re == e.re + g1)
            v.prove("sum.im", o.im == e.im + g2)
            return
        G1, G2 = g1 / (1 - kap), g2 / (1 - kap)
        dr = 1 + G1 * e.re + G2 * e.im
        di = G1 * e.im - G2 * e.re
        v.assume(z3.Or(dr != 0, di != 0))
        v.prove("composition.re", o.re * dr - o.im * di == e.re + G1)
        v.prove("composition.im", o.re * di + o.im * dr == e.im + G2)
    return h


shear(True)
shear(False)
shear(True, True)


@harness("unit-disk", funcs=[P], loops=loops)
def disk(v):
    n = v.int("n", lo=1)
    lon, lat, eps, maps, p, vals = inputs(v, n)
    kap, g1, g2 = vals
    e = eps.at(p)
    v.cover()
    v.assume(kap != 1)
    a, b, c, d = e.re, e.im, g1 / (1 - kap), g2 / (1 - kap)
    v.assume(c * c + d * d < 1)
    v.assume(a * a + b * b < 1)
    out = v.call(v.fn(P), lon, lat, eps, *maps)
    o = cast(out.at(p), "c")
    dr, di = 1 + c * a + d * b, c * b - d * a
    D, N, E, G = dr * dr + di * di, (a + c) * (a + c) + (b + d) * (b + d), a * a + b * b, c * c + d * d
    v.lemma("identity", D - N == (1 - E) * (1 - G))
    v.lemma("smaller", N < D, using=[D - N == (1 - E) * (1 - G), E < 1, G < 1])
    v.lemma("denominator-positive", D > 0)
    v.lemma("denominator-nonzero", z3.Or(dr != 0, di != 0))
    v.lemma("composition.re", o.re * dr - o.im * di == a + c)
    v.lemma("composition.im", o.re * di + o.im * dr == b + d)
    D, N = v.let("D", D), v.let("N", N)
    v.lemma("smaller-squares", z3.And(N < D, D > 0))
    M = v.let("M", o.re * o.re + o.im * o.im)
    v.lemma("modulus", M * D == N)
    v.lemma("inside-squares", M < 1, using=[M * D == N, z3.And(N < D, D > 0)])
    v.prove("inside", o.re * o.re + o.im * o.im < 1)
