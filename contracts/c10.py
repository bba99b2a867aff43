"""C10: shell window functions tile the light cone."""
import z3

from contracts.util import induct
from pv import xp as X
from pv.arr import SArr, memo, rsum
from pv.core import Unsupported, z3i
from pv.harness import harness
from pv.seq import to_seq
from pv.vals import Sc, cast

S = "glass.shells."
R, I = z3.RealSort(), z3.IntSort()
W = z3.Function("W", R, R)          # an arbitrary weight function


def weight(z):
    """the caller's weight function, applied to an array of redshifts"""
    if not isinstance(z, SArr):
        raise Unsupported("weight of a scalar")
    rd = z.reader()
    return SArr(z.shape, "r", memo(lambda *i: Sc("r", W(rd(*i).re))), z.xp)


def re(s):
    return cast(s if isinstance(s, Sc) else s.at(), "r").re


def points(lo, hi, dz):
    """number of grid points of an interval: at least two, else the interval in units of dz, rounded"""
    return z3i(X.b_int(X.b_max(X.NUMPY.round(Sc("r", (hi - lo) / dz)), 2)))


def setup(v, least):
    N = v.int("N", lo=least)
    zb = v.arr("zb", (N,), lo=0)
    v.increasing(zb)
    dz = v.real("dz", gt=0)
    return N, zb, dz


def grid(v, za, first, last, p=""):
    n = z3i(za.shape[0])
    if za.ndim != 1:
        v.c.fail("grid", "not one-dimensional")
    v.prove("grid.starts-at-node" + p, re(za.at(z3.IntVal(0))) == first)
    v.prove("grid.ends-at-node" + p, re(za.at(n - 1)) == last)
    k = v.ix("k" + p, Sc("i", z3.simplify(n - 1)))
    v.prove("grid.increasing" + p, re(za.at(k)) < re(za.at(k + 1)))
    return k


def tophat(weighted):
    @harness(f"tophat[{'weight' if weighted else 'plain'}]", funcs=[S + "tophat_windows"])
    def h(v):
        N, zb, dz = setup(v, 2)
        v.cover()
        out = to_seq(v.call(v.fn(S + "tophat_windows"), zb, dz=dz, **({"weight": weight} if weighted else {})))
        v.length("count", out, Sc("i", N.re - 1))
        p = v.ix("p", Sc("i", N.re - 1))
        w = out.getter(p)
        a, b = zb.at(p).re, zb.at(p + 1).re
        n = z3i(w.za.shape[0])
        v.prove("grid.two-points", n >= 2)
        k = grid(v, w.za, a, b)
        v.dims("values.shape", w.wa, w.za.shape)
        q = v.ix("q", w.za.shape[0])
        wf = (lambda x: W(x)) if weighted else (lambda x: z3.RealVal(1))
        v.prove("values", re(w.wa.at(q)) == wf(re(w.za.at(q))))
        # weighted mean redshift (inside the bin: lemma below)
        T0, T1 = X.NUMPY.trapezoid(w.wa, w.za), X.NUMPY.trapezoid(w.wa * w.za, w.za)
        v.assume(re(T0) != 0)
        v.prove("effective.mean", re(w.zeff if isinstance(w.zeff, Sc) else w.zeff.at()) * re(T0) == re(T1))
    return h


tophat(False)
tophat(True)


@harness("mean-inside", funcs=[S + "tophat_windows"])
def mean(v):
    """lemma: on an increasing grid, a mean weighted with positive weights lies between the first and the last point"""
    n = v.int("n", lo=2)
    za, wa = v.arr("za", (n,)), v.arr("wa", (n,), gt=0)
    v.increasing(za)
    z, u = (lambda i: za.at(i).re), (lambda i: wa.at(i).re)
    v.cover()
    h_ = lambda i: (z(i + 1) - z(i)) / 2
    # the trapezoids of the weight and of the weighted redshift
    t0, t1 = z3.Function("t0", I, R), z3.Function("t1", I, R)
    v.forall(lambda i: t0(i) == h_(i) * (u(i) + u(i + 1)), None, None)
    v.forall(lambda i: t1(i) == h_(i) * (u(i) * z(i) + u(i + 1) * z(i + 1)), None, None)
    S0 = lambda k: rsum(z3.IntVal(0), Sc("i", k), lambda i: Sc("r", t0(i))).re
    S1 = lambda k: rsum(z3.IntVal(0), Sc("i", k), lambda i: Sc("r", t1(i))).re
    a, b = z(z3.IntVal(0)), z(n.re - 1)

    def claim(k):
        return z3.And(S0(k) >= 0, z3.Implies(k >= 1, S0(k) > 0), S1(k) - a * S0(k) >= 0, b * S0(k) - S1(k) >= 0)

    def step(k):
        x, y, p, q, lo, hi = z(k), z(k + 1), u(k), u(k + 1), a, b
        order = [lo <= x, x < y, y <= hi, p > 0, q > 0]
        for o in order:
            v.lemma("order", o)
        d0, d1 = h_(k) * (p + q), h_(k) * (p * x + q * y)
        e0, e1 = t0(k), t1(k)
        v.lemma("t0", e0 == d0)
        v.lemma("t1", e1 == d1)
        parts = []
        for nm, e, f in (("weight-positive", d0 > 0, e0 > 0), ("above", d1 - lo * d0 >= 0, e1 - lo * e0 >= 0),
                         ("below", hi * d0 - d1 >= 0, hi * e0 - e1 >= 0)):
            v.lemma(nm, e, using=order, gen=[x, y, p, q, lo, hi])
            v.lemma(nm + ".term", f, using=[e, e0 == d0, e1 == d1], gen=[x, y, p, q, lo, hi, e0, e1])
            parts.append(f)
        A0, A1, B0, B1 = S0(k), S1(k), S0(k + 1), S1(k + 1)
        v.lemma("sum0", B0 == A0 + e0)
        v.lemma("sum1", B1 == A1 + e1)
        v.lemma("sum0.nonneg", A0 >= 0)
        base = [B0 == A0 + e0, B1 == A1 + e1, *parts, A0 >= 0, A1 - a * A0 >= 0, b * A0 - A1 >= 0]
        g = [A0, A1, B0, B1, e0, e1, lo, hi]
        v.lemma("next0", B0 > 0, using=base, gen=g)
        v.lemma("next1", B1 - a * B0 >= 0, using=base, gen=g)
        v.lemma("next2", b * B0 - B1 >= 0, using=base, gen=g)

    induct(v, "mean", claim, n.re - 1, step)
    e = n.re - 1
    v.prove("weight-positive", S0(e) > 0)
    v.prove("not-below", S1(e) - a * S0(e) >= 0)
    v.prove("not-above", b * S0(e) - S1(e) >= 0)


def node_windows(name, shape, weighted):
    f = S + name

    @harness(f"{name}[{'weight' if weighted else 'plain'}]", funcs=[f])
    def h(v):
        N_, zb, dz = setup(v, 3)
        v.cover()
        out = to_seq(v.call(v.fn(f), zb, dz=dz, **({"weight": weight} if weighted else {})))
        v.length("count", out, Sc("i", N_.re - 2))
        p = v.ix("p", Sc("i", N_.re - 2))
        w = out.getter(p)
        a, m, b = zb.at(p).re, zb.at(p + 1).re, zb.at(p + 2).re
        v.lemma("nodes", z3.And(a < m, m < b))
        na, nb = points(a, m, dz.re) - 1, points(m, b, dz.re)
        n = z3i(w.za.shape[0])
        v.dims("size", w.za, (Sc("i", na + nb),))
        v.dims("values.shape", w.wa, w.za.shape)
        rl = z3.ToReal
        NA, NB = v.let("na", rl(na)), v.let("nb", rl(nb - 1))
        v.lemma("counts", z3.And(NA >= 1, NB >= 1))
        # explicit grid: two uniform pieces that meet in the middle node
        left = lambda k: a + (m - a) * (rl(k) / NA)
        right = lambda k: m + (b - m) * (rl(k) / NB)

        def part(name, k, N, lo, hi):
            """a point of a uniform piece lies between its ends: 0 <= k <= N"""
            K = v.let(name + ".k", rl(k))
            f = v.let(name, K / N)
            v.hint(f * N == K)
            us = [f * N == K, N >= 1, K >= 0, K <= N]
            v.lemma(name + ".fraction", z3.And(f >= 0, f <= 1), using=us)
            return f

        v.prove("grid.starts-at-node", re(w.za.at(z3.IntVal(0))) == a)
        v.prove("grid.ends-at-node", re(w.za.at(n - 1)) == b)
        v.prove("grid.middle-node", re(w.za.at(na)) == m)
        zeff = cast(w.zeff if isinstance(w.zeff, Sc) else w.zeff.at(), "r").re
        v.prove("effective", zeff == m)
        x = (lambda t: W(t)) if weighted else (lambda t: z3.RealVal(1))
        v.prove("zero-at-first", re(w.wa.at(z3.IntVal(0))) == 0)
        v.prove("zero-at-last", re(w.wa.at(n - 1)) == 0)
        v.prove("one-at-middle", re(w.wa.at(na)) == x(m))
        case = 2 * v.c.choose() + v.c.choose()
        if case < 2:
            if case == 0:
                q = v.ix("q", Sc("i", na))
                i, piece, N, lo, hi, f0 = q, left, NA, a, m, lambda f: f
            else:
                k = v.ix("q", Sc("i", nb))
                q = na + k
                i, piece, N, lo, hi, f0 = k, right, NB, m, b, lambda f: 1 - f
            fr = part("place", i, N, lo, hi)
            zq, wq = re(w.za.at(q)), re(w.wa.at(q))
            v.prove("grid.point", zq == lo + (hi - lo) * fr)
            v.prove("values", wq == shape(f0(fr)) * x(zq))
            v.lemma("value.range", z3.And(shape(f0(fr)) >= 0, shape(f0(fr)) <= 1), using=[fr >= 0, fr <= 1], gen=[fr])
            # increasing: the next point is one step further
            v.assume(i + 1 <= (na if case == 0 else nb - 1))
            z2 = re(w.za.at(q + 1))
            d = v.let("step", (hi - lo) / N)
            v.lemma("step.positive", d > 0)
            v.prove("grid.increasing", z2 - zq == d)
            return
        # the next window shares the grid points between the nodes, and the two add up to one
        v.assume(p + 1 < N_.re - 2)
        w2 = out.getter(p + 1)
        if case == 2:
            k = v.ix("k2", Sc("i", nb - 1))
        else:
            k = z3.simplify(nb - 1)
        v.lemma("shared-grid", re(w.za.at(z3.simplify(na + k))) == re(w2.za.at(k)))
        zk = re(w2.za.at(k))
        v.prove("adds-to-one", re(w.wa.at(z3.simplify(na + k))) + re(w2.wa.at(k)) == x(zk))
    return h


for _w in (False, True):
    node_windows("linear_windows", lambda t: t, _w)
    node_windows("cubic_windows", lambda t: t * t * (3 - 2 * t), _w)


@harness("rejects", funcs=[S + n for n in ("tophat_windows", "linear_windows", "cubic_windows")])
def rejects(v):
    v.cover()
    for f, least in (("tophat_windows", 2), ("linear_windows", 3), ("cubic_windows", 3)):
        N = v.int("N_" + f, lo=0, hi=least - 1)
        M = v.int("M_" + f, lo=1)
        for tag, a in (("few", v.arr("few" + f, (N,))), ("matrix", v.arr("mat" + f, (M, M))), ("scalar", v.arr("sc" + f, ()))):
            k, e = v.attempt(v.fn(S + f), a)
            v.prove(f"{f}.{tag}", k == "exc" and isinstance(e, ValueError))
