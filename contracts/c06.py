"""C06: field transformations are consistent with each other."""
import z3

from pv.calculus import diff
from pv.harness import harness
from pv.vals import F, sc

T = "glass.grf._transformations."
C = "glass.grf._core."


def make(v, kind, tag):
    grf = v.mod("glass.grf")
    if kind == "N":
        return grf.Normal(), None
    if kind == "L":
        l = v.real("lam" + tag, gt=0)
        return grf.Lognormal(l), l
    a = v.real("a" + tag)
    l = v.real("lam" + tag, gt=0)
    return grf.SquaredNormal(a, l), l


PAIRS = [("N", "N"), ("L", "L"), ("L", "N"), ("N", "L"), ("S", "S")]
BAD = [("S", "N"), ("N", "S"), ("S", "L"), ("L", "S")]
FUN = [C + "corr", C + "icorr", C + "dcorr"] + [T + f"{c}.{m}" for c in ("Normal", "Lognormal", "SquaredNormal")
                                                for m in ("corr", "icorr", "dcorr", "__call__")]


def pair(k1, k2):
    @harness(f"consistent[{k1}{k2}]", funcs=FUN)
    def h(v):
        grf = v.mod("glass.grf")
        corr, icorr, dcorr = v.fn(C + "corr"), v.fn(C + "icorr"), v.fn(C + "dcorr")
        t1, l1 = make(v, k1, "1")
        t2, l2 = make(v, k2, "2")
        n = v.int("n", lo=1)
        x = v.arr("x", (n,))
        i = v.ix("i", n)
        X = x.at(i).re
        y = v.call(corr, t1, t2, x)
        v.dims("corr.shape", y, (n,))
        # domain of the inverse: correlations of two squared normals above minus the product of the offsets
        dom = z3.BoolVal(True)
        if k1 == "S":
            dom = X + t1.a.re * t2.a.re >= 0
        v.assume(dom)
        v.cover()
        back = v.call(icorr, t1, t2, y)
        v.dims("icorr.shape", back, (n,))
        if k1 == "S":
            aa, ll = t1.a.re * t2.a.re, l1.re * l2.re
            v.lemma("product-positive", ll > 0)
            v.lemma("square", y.at(i).re / (2 * ll) + aa * aa == (X + aa) * (X + aa))
            r = back.at(i).re + aa
            v.lemma("root", z3.And(r >= 0, r * r == (X + aa) * (X + aa)))
        elif k1 == "L" and k2 == "L":
            ll = l1.re * l2.re
            v.lemma("product-positive", ll > 0)
            v.lemma("ratio", y.at(i).re / ll + 1 == F["exp"](X))
        v.eq("icorr(corr(x))=x", back.at(i), x.at(i))
        # the other direction: corr(icorr(y)) = y on the range of corr
        z = v.arr("y", (n,))
        Z = z.at(i).re
        if k1 == "L" and k2 == "L":
            v.assume(1 + Z / (l1.re * l2.re) > 0)
        if k1 == "S":
            v.assume(Z / (2 * l1.re * l2.re) + (t1.a.re * t2.a.re) ** 2 >= 0)
        w = v.call(icorr, t1, t2, z)
        f = v.call(corr, t1, t2, w)
        if k1 == "S":
            aa, ll = t1.a.re * t2.a.re, l1.re * l2.re
            r = w.at(i).re + aa
            v.lemma("root2", z3.And(r >= 0, r * r * (2 * ll) == Z + aa * aa * (2 * ll)))
        v.eq("corr(icorr(y))=y", f.at(i), z.at(i))
        # symmetry: the order of the pair does not matter
        s = v.call(corr, t2, t1, x)
        v.eq("corr-symmetric", s.at(i), y.at(i))
        s = v.call(icorr, t2, t1, y)
        v.eq("icorr-symmetric", s.at(i), back.at(i))
        # the derivative transform is the derivative of the forward transform
        d = v.call(dcorr, t1, t2, x)
        v.dims("dcorr.shape", d, (n,))
        v.eq("dcorr=corr'", d.at(i), sc_r(diff(y.at(i).re, X)))
        s = v.call(dcorr, t2, t1, x)
        v.eq("dcorr-symmetric", s.at(i), d.at(i))
    return h


def sc_r(t):
    from pv.vals import Sc
    return Sc("r", t)


for _p in PAIRS:
    pair(*_p)


def bad(k1, k2):
    @harness(f"unsupported[{k1}{k2}]", funcs=FUN)
    def h(v):
        t1, _ = make(v, k1, "1")
        t2, _ = make(v, k2, "2")
        n = v.int("n", lo=1)
        x = v.arr("x", (n,))
        v.cover()
        for f in ("corr", "icorr", "dcorr"):
            k, e = v.attempt(v.fn(C + f), t1, t2, x)
            v.prove(f"{f}-raises", k == "exc" and isinstance(e, NotImplementedError))


for _p in BAD:
    bad(*_p)


@harness("unknown-transformation", funcs=FUN)
def unknown(v):
    class Other:
        def corr(self, other, x):
            return NotImplemented

        icorr = dcorr = corr

    n = v.int("n", lo=1)
    x = v.arr("x", (n,))
    v.cover()
    for kind in "NLS":
        t, _ = make(v, kind, kind)
        for f in ("corr", "icorr", "dcorr"):
            for a, b in ((t, Other()), (Other(), t)):
                k, e = v.attempt(v.fn(C + f), a, b, x)
                v.prove(f"{f}-{kind}-raises", k == "exc" and isinstance(e, NotImplementedError))


@harness("fields", funcs=FUN)
def fields(v):
    n = v.int("n", lo=1)
    x = v.arr("x", (n,))
    var = v.real("var", lo=0)
    i, j = v.ix("i", n), v.ix("j", n)
    v.cover()
    t, _ = make(v, "N", "n")
    v.eq("normal-unchanged", v.call(t, x, var).at(i), x.at(i))
    t, l = make(v, "L", "l")
    y = v.call(t, x, var)
    v.dims("lognormal.shape", y, (n,))
    e = F["exp"](x.at(i).re - var.re / 2)
    v.eq("lognormal", y.at(i), sc_r(l.re * (e - 1)))
    v.prove("lognormal-bound", y.at(i).re >= -l.re)
    v.prove("lognormal-increasing", z3.Implies(x.at(i).re < x.at(j).re, y.at(i).re < y.at(j).re))
    t, l = make(v, "S", "s")
    y = v.call(t, x, var)
    v.dims("squared.shape", y, (n,))
    q = x.at(i).re - t.a.re
    v.eq("squared-normal", y.at(i), sc_r(l.re * (q * q - 1)))
    v.prove("squared-normal-bound", y.at(i).re >= -l.re)
