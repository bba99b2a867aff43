"""C01: one standard order for two-point data."""
import z3

from contracts.util import Spectra, iter_index, one_yield, pair, root, tri, triangle
from pv import vals as V
from pv.core import z3i
from pv.harness import harness
from pv.vals import Sc

P = "glass.fields."


def check_cl(v, pre, cl, S, p, lmax=None):
    if lmax is None:
        v.dims(pre + ".length", cl, (Sc("i", S.flen(p)),))
        l = v.ix("l", S.flen(p))
        v.eq(pre + ".value", cl.at(l), Sc("r", S.fval(p, l)))
    else:
        v.dims(pre + ".length", cl, (Sc("i", lmax.re + 1),))
        l = v.ix("l", Sc("i", lmax.re + 1))
        v.eq(pre + ".value", cl.at(l), Sc("r", S.at(p, l)))


def getcl(form, order):
    @harness(f"getcl[{form},{order}]", funcs=[P + "getcl"])
    def h(v):
        n, t = triangle(v, lo=1)
        S = Spectra(v, t)
        i, j, p = pair(v, n, t)
        a, b = (Sc("i", i), Sc("i", j)) if order == "ij" else (Sc("i", j), Sc("i", i))
        kw = {}
        lmax = None
        if form == "lmax":
            lmax = v.int("lmax", lo=0)
            kw["lmax"] = lmax
        v.cover()
        cl = v.call(v.fn(P + "getcl"), S.seq, a, b, **kw)
        check_cl(v, "entry", cl, S, p, lmax)
    return h


for _f in ("plain", "lmax"):
    for _o in ("ij", "ji"):
        getcl(_f, _o)


@harness("enumerate_spectra", funcs=[P + "enumerate_spectra"])
def enumerate_(v):
    count = v.int("count", lo=0)
    S = Spectra(v, count)
    v.cover()
    gen = v.call(v.fn(P + "enumerate_spectra"), S.seq)
    got = one_yield(v, gen)
    if got is None:
        return
    k = iter_index(v)
    i, j, cl = got[0]
    i, j = z3i(i), z3i(j)
    v.prove("pair", z3.And(j >= 0, j <= i))
    v.prove("position", 2 * k == i * (i + 1) + 2 * (i - j))
    v.dims("entry.length", cl, (Sc("i", S.flen(k)),))
    l = v.ix("l", S.flen(k))
    v.eq("entry.value", cl.at(l), Sc("r", S.fval(k, l)))


@harness("spectra_indices", funcs=[P + "spectra_indices"])
def indices(v):
    n, t = triangle(v)
    v.cover()
    out = v.call(v.fn(P + "spectra_indices"), n)
    v.dims("shape", out, (t, 2))
    p = v.ix("p", t)
    i, j = out.at(p, z3.IntVal(0)).re, out.at(p, z3.IntVal(1)).re
    v.prove("pair", z3.And(j >= 0, j <= i, i < n.re))
    v.prove("position", 2 * p == i * (i + 1) + 2 * (i - j))


@harness("nfields", funcs=[P + "nfields_from_nspectra", P + "_inv_triangle_number"])
def nfields(v):
    n, t = triangle(v)
    v.cover()
    root(v, n, t)
    m = v.call(v.fn(P + "nfields_from_nspectra"), t)
    v.prove("number-of-fields", z3i(m) == n.re)


@harness("nfields-rejects", funcs=[P + "nfields_from_nspectra", P + "_inv_triangle_number"])
def nfields_bad(v):
    c = v.int("count", lo=0)
    v.cover()
    k, m = v.attempt(v.fn(P + "nfields_from_nspectra"), c)
    if k == "ok":
        m = z3i(m)
        v.prove("accepted-is-triangular", z3.And(m >= 0, m * (m + 1) == 2 * c.re))
    else:
        v.prove("error-type", isinstance(m, ValueError))
        n = v.int("n", lo=0)
        v.assume(n.re * (n.re + 1) == 2 * c.re)
        root(v, n, c)
        v.prove("rejected-is-not-triangular", False)
