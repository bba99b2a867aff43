"""C09: discretised spectra are cut, windowed and pruned exactly."""
import z3

from contracts.util import Spectra, locate, nfields_contract, pair, prove_nfields, root, triangle
from pv.core import z3i
from pv.harness import harness
from pv.seq import to_seq
from pv.stubs import pw_f
from pv.vals import Sc

P = "glass.fields."
FUN = [P + "discretized_cls"]


def mn(a, b):
    return z3.If(a <= b, a, b)


def discretized(lmax, nside, ncorr):
    opts = [n for n, o in (("lmax", lmax), ("nside", nside), ("ncorr", ncorr)) if o]

    @harness("discretized[" + ",".join(opts) + "]", funcs=FUN)
    def h(v):
        kw = {}
        if lmax:
            kw["lmax"] = v.int("lmax", lo=0)
        if nside:
            kw["nside"] = v.int("nside", lo=1)
        if ncorr:
            kw["ncorr"] = v.int("ncorr", lo=0)
            n, t = triangle(v)
        else:
            t = v.int("count", lo=0)
        S = Spectra(v, t)
        v.cover()
        if ncorr:
            nfields_contract(v, n, t)
        out = v.call(v.fn(P + "discretized_cls"), S.seq, **kw)
        out = to_seq(out)
        v.prove("count", z3i(out.n) == t.re)
        if not v.c.decide(t.re > 0):
            return
        if ncorr:
            i, j, p = pair(v, n, t)
        else:
            p = v.ix("p", t)
        got = out.getter(p)
        if ncorr:
            locate(v, p, i, i - j, z3i(got.shape[0]))
            v.c.decide(i - j <= kw["ncorr"].re)
        keep = i - j <= kw["ncorr"].re if ncorr else z3.BoolVal(True)
        L = S.flen(p)
        if lmax:
            L = mn(L, kw["lmax"].re + 1)
        if nside:
            L = mn(L, kw["lmax"].re + 1 if lmax else 3 * kw["nside"].re)
        v.prove("length", z3i(got.shape[0]) == z3.If(keep, L, 0))
        l = v.ix("l", got.shape[0])
        w = pw_f[0](kw["nside"].re, l) if nside else z3.RealVal(1)
        v.eq("value", got.at(l), Sc("r", S.fval(p, l) * w * w))
        # the input list is not changed
        v.prove("input-count", z3i(S.seq.n) == t.re)
    return h


for _a in (False, True):
    for _b in (False, True):
        for _c in (False, True):
            discretized(_a, _b, _c)


prove_nfields()


@harness("discretized-empty", funcs=FUN)
def empty(v):
    v.cover()
    for kw in ({}, {"lmax": v.int("lmax", lo=0)}, {"nside": v.int("nside", lo=1)}, {"ncorr": v.int("ncorr", lo=0)}):
        out = v.call(v.fn(P + "discretized_cls"), [], **kw)
        v.prove("empty", isinstance(out, list) and len(out) == 0)


@harness("discretized-rejects", funcs=FUN + [P + "nfields_from_nspectra"])
def rejects(v):
    c = v.int("count", lo=1)
    S = Spectra(v, c)
    v.cover()
    k, out = v.attempt(v.fn(P + "discretized_cls"), S.seq, ncorr=v.int("ncorr", lo=0))
    if k == "ok":
        # the count of an accepted list is triangular: m(m+1)/2 spectra of m fields
        m = z3i(v.call(v.fn(P + "nfields_from_nspectra"), c))
        v.prove("accepted-is-triangular", z3.And(m >= 0, m * (m + 1) == 2 * c.re))
    else:
        v.prove("error-type", isinstance(out, ValueError))
        n = v.int("n", lo=0)
        v.assume(n.re * (n.re + 1) == 2 * c.re)
        root(v, n, c)
        v.prove("rejected-is-not-triangular", False)
