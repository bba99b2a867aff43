"""C02: conversion to and from HEALPix order is an exact permutation."""
import z3

from contracts.util import locate, nfields_contract, pair, prove_nfields, root, triangle
from pv import core
from pv.core import Unsupported, z3i
from pv.harness import harness
from pv.seq import SSeq, to_seq
from pv.tri import tri_n, trow
from pv.vals import Sc

P = "glass.fields."
I = z3.IntSort()


def diagonal(v, n, t):
    """an arbitrary pair (a, b), a >= b, its standard position and its position in the diagonal order"""
    a, b, p = pair(v, n, t)
    k = z3.simplify(a - b)
    q = z3.Int("ix!diag")
    # the diagonals before this one have n, n - 1, ... entries
    v.assume(2 * q == 2 * k * n.re - k * (k - 1) + 2 * b)
    return a, b, p, k, q


def locate_diagonal(v, n, t, k, b, q, *terms):
    """the diagonal that holds position q is k, the place in it is b"""
    N = n.re
    for K in v.apps("flat_k", *terms):
        if not K.children()[-1].eq(q):
            continue
        halve(v, K, *terms)
        kk = z3.Int("dg!k")
        v.assume(kk == k)
        f = [2 * q == 2 * kk * N - kk * (kk - 1) + 2 * b, 2 * t.re == N * (N + 1), kk >= 0, b >= 0, b + kk <= N - 1]
        v.hint((N - kk) * (N - kk - 1) >= 0)
        v.hint(kk * (2 * N - kk) >= 0)
        v.lemma("diagonal-in-range", z3.And(q >= 0, q < t.re), using=[*f, (N - kk) * (N - kk - 1) >= 0, kk * (2 * N - kk) >= 0])
        below = lambda x: 2 * x * N - x * (x - 1)       # twice the number of entries before diagonal x
        f = [K >= 0, K < N, below(K) <= 2 * q, 2 * q < below(K) + 2 * (N - K), k >= 0, b >= 0, b + k <= N - 1]
        for x in f:
            v.hint(x)
        g = 2 * q == below(k) + 2 * b
        v.hint(g)
        # x + 1 <= y < N: all of diagonal x lies before diagonal y
        for x, y in ((K, kk), (kk, K)):
            gap = z3.Implies(z3.And(x + 1 <= y, y < N), (y - x - 1) * (2 * N - y - x) >= 0)
            v.hint(gap, using=[x >= 0])
            v.hint(z3.Implies(z3.And(x + 1 <= y, y < N), below(x) + 2 * (N - x) <= below(y)), using=[gap, x >= 0], gen=[K])
        v.hint(kk < N)
        v.hint(2 * q == below(kk) + 2 * b)
        v.hint(K == kk)


def halve(v, x, *terms):
    """x(x - 1)/2 is exact"""
    h = v.c.fresh("half", "i")
    v.assume(x * (x - 1) == 2 * h)      # one of two consecutive numbers is even
    for t in terms:
        for d in core._scan1(z3.simplify(t))[0]:
            if d.decl().kind() == z3.Z3_OP_IDIV and any(y.eq(x) for y in subterms(d)):
                for s in (1, -1):
                    if v.hint(d == s * h, using=[x * (x - 1) == 2 * h], gen=[x]):
                        break


def subterms(e):
    out, todo = [], [e]
    while todo:
        e = todo.pop()
        out.append(e)
        todo.extend(e.children())
    return out


def spectra(t):
    return SSeq(t, lambda k: Sc("i", z3.simplify(k)))


def standard_key(v, n, t):
    """where a pair would be in the table of pairs"""
    def hints(key):
        if not (isinstance(key, tuple) and len(key) == 2):
            raise Unsupported("key of the table of pairs")
        a, b = (z3i(x) for x in key)
        p = v.c.fresh("ix!kp", "i")
        v.assume(2 * p == a * (a + 1) + 2 * (a - b))
        N = n.re
        for x in (a >= b, b >= 0, a <= N - 1):
            v.hint(x)
        v.hint(N * N + N >= a * a + 3 * a + 2, using=[a <= N - 1, a >= 0])
        v.hint(z3.And(p >= 0, p < t.re), using=[N * N + N >= a * a + 3 * a + 2, 2 * t.re == N * (N + 1), 2 * p == a * (a + 1) + 2 * (a - b),
                                                a >= b, b >= 0])
        r = trow(p)
        locate(v, p, a, a - b, r, sym="trow")
        halve(v, a + 1, z3i(tri_n(r)), z3i(tri_n(a)))
        return [p]
    return hints


@harness("to-healpix", funcs=[P + "glass_to_healpix_spectra", P + "spectra_indices"])
def to_hp(v):
    n, t = triangle(v)
    nfields_contract(v, n, t, kinds=("nfields_from_nspectra",))
    v.c.key_hints = standard_key(v, n, t)
    v.cover()
    out = to_seq(v.call(v.fn(P + "glass_to_healpix_spectra"), spectra(t)))
    v.prove("count", z3i(out.n) == t.re)
    if not v.c.decide(n.re >= 1):
        return
    a, b, p, k, q = diagonal(v, n, t)
    got = z3i(out.getter(q))
    locate_diagonal(v, n, t, k, b, q, got)
    for w in v.apps("ix!key", got):
        d = w.arg(1)
        v.hint(d == b)
        v.hint(z3.And(w >= 0, w < t.re))
        r = trow(w)
        v.hint(r == a)
        halve(v, r + 1, z3i(tri_n(r)))
    v.prove("entry", got == p)


@harness("to-glass", funcs=[P + "healpix_to_glass_spectra", P + "spectra_indices"])
def to_glass(v):
    n, t = triangle(v)
    nfields_contract(v, n, t, kinds=("nfields_from_nspectra",))
    v.cover()
    out = to_seq(v.call(v.fn(P + "healpix_to_glass_spectra"), spectra(t)))
    v.prove("count", z3i(out.n) == t.re)
    if not v.c.decide(n.re >= 1):
        return
    a, b, p, k, q = diagonal(v, n, t)
    got = z3i(out.getter(p))
    r = trow(p)
    locate(v, p, a, a - b, r, sym="trow")
    halve(v, a + 1, z3i(tri_n(r)), z3i(tri_n(a)))
    for w in v.apps("ix!fk", got):
        halve(v, w, got)
        u = z3.Function("ix!fi", I, I)(*w.children())
        v.hint(w == k)
        v.hint(u == b)
    v.prove("entry", got == q)


prove_nfields()


@harness("rejects-count", funcs=[P + "glass_to_healpix_spectra", P + "healpix_to_glass_spectra", P + "nfields_from_nspectra"])
def rejects(v):
    c = v.int("count", lo=0)
    v.cover()
    k, m = v.attempt(v.fn(P + "nfields_from_nspectra"), c)
    if k == "ok":
        v.prove("accepted-is-triangular", z3.And(z3i(m) >= 0, z3i(m) * (z3i(m) + 1) == 2 * c.re))
        return
    for f in ("glass_to_healpix_spectra", "healpix_to_glass_spectra"):
        k2, e = v.attempt(v.fn(P + f), spectra(c))
        v.prove(f + ".rejected", k2 == "exc" and isinstance(e, ValueError))
    n = v.int("n", lo=0)
    v.assume(n.re * (n.re + 1) == 2 * c.re)
    root(v, n, c)
    v.prove("rejected-is-not-triangular", False)


@harness("alm-order", funcs=[P + "_glass_to_healpix_alm"])
def alm(v):
    n, t = triangle(v, lo=1)
    nfields_contract(v, n, t, kinds=("_inv_triangle_number",))
    a = v.arr("alm", (t,), "c")
    v.cover()
    out = v.call(v.fn(P + "_glass_to_healpix_alm"), a)
    v.dims("count", out, (t,))
    # degree l = a, order m = a - b: position l(l+1)/2 + m, moved to the place of l among the degrees of order m
    a_, b, p, k, q = diagonal(v, n, t)
    got = out.at(q)
    locate_diagonal(v, n, t, k, b, q, got.re)
    for w in v.apps("alm.re", got.re):
        halve(v, a_ + 1, w.arg(0))
        for d in core._scan1(w)[0]:
            if d.decl().kind() == z3.Z3_OP_IDIV:
                v.hint(2 * d == a_ * (a_ + 1))
        v.hint(w.arg(0) == p)
    want = a.at(p)
    v.eq("coefficient", got, want)


@harness("scaling", funcs=["glass.harmonics.multalm"])
def scaling(v):
    n, t = triangle(v, lo=1)
    a, b = v.arr("alm", (t,), "c"), v.arr("bl", (n,))
    v.cover()
    out = v.call(v.fn("glass.harmonics.multalm"), a, b)
    v.dims("count", out, (t,))
    l, d, p = pair(v, n, t)
    got = out.at(p)
    locate(v, p, l, l - d, got.re)
    want = a.at(p)
    x = b.at(l)
    v.eq("coefficient", got, Sc("c", want.re * x.re, want.im * x.re))
