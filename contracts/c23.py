"""C23: redshift distributions are normalised, bins tile."""
import z3

from contracts.util import induct, unknown
from pv import vals as V
from pv import xp as X
from pv.arr import SArr, memo, rsum
from pv.core import Unsupported, z3i
from pv.harness import harness
from pv.interp import interp_term
from pv.seq import SSeq, to_seq
from pv.vals import F, Sc, cast

O = "glass.observations."
I, R = z3.IntSort(), z3.RealSort()
HALF = z3.Q(1, 2)
ZERO = z3.IntVal(0)


def re(s):
    return cast(s if isinstance(s, Sc) else s.at(), "r").re


def trap(y, x, n):
    return rsum(ZERO, Sc("i", n - 1), lambda k: Sc("r", (x(k + 1) - x(k)) * (y(k) + y(k + 1)) * HALF)).re


def params(v, names, ranks, pos=()):
    """parameters of the given ranks that broadcast to one shape; readers at an arbitrary index of that shape"""
    rank = max(ranks)
    dims = [v.int(f"d{q}", lo=1) for q in range(rank)]
    ix = [v.ix(f"p{q}", d) for q, d in enumerate(dims)]
    vals, at = [], []
    for nm, r in zip(names, ranks):
        kw = {"gt": 0} if nm in pos else {}
        if r == 0:
            a = v.real(nm, **kw)
            vals.append(a)
            at.append(a.re)
        else:
            a = v.arr(nm, dims[rank - r:], **kw)
            vals.append(a)
            at.append(re(a.at(*ix[rank - r:])))
    return dims, ix, vals, at


def normalised(v, out, dims, ix, z, n, shape, norm):
    """out = norm * shape / trapezoid(shape) with a non-negative shape (what follows from that: harness `normalisation`)"""
    v.dims("shape", out, (*dims, n))
    zz = lambda k: re(z.at(k))
    T = trap(shape, zz, n.re)
    i = v.ix("i", n)
    c = z3.RealVal(1) if norm is None else norm.re
    v.assume(T != 0)        # the distribution does not vanish on the whole grid
    v.prove("proportional", re(out.at(*ix, i)) * T == shape(i) * c)
    v.prove("shape-nonnegative", shape(i) >= 0)


@harness("normalisation", funcs=[O + "gaussian_nz", O + "smail_nz"])
def normalisation(v):
    """lemma: y T = c s with T the trapezoidal integral of s >= 0 on an increasing grid means y >= 0 and the integral of y is c"""
    n = v.int("n", lo=2)
    z, s, y = v.arr("z", (n,)), v.arr("s", (n,), lo=0), v.arr("y", (n,))
    v.increasing(z)
    c = v.real("c", lo=0).re
    cs, cy = z3.Function("cell_s", I, R), z3.Function("cell_y", I, R)
    zz, ss, yy = (lambda k: re(z.at(k))), (lambda k: re(s.at(k))), (lambda k: re(y.at(k)))
    v.forall(lambda k: cs(k) == (zz(k + 1) - zz(k)) * (ss(k) + ss(k + 1)) * HALF, None, None)
    v.forall(lambda k: cy(k) == (zz(k + 1) - zz(k)) * (yy(k) + yy(k + 1)) * HALF, None, None)
    A = lambda m: rsum(ZERO, Sc("i", m), lambda k: Sc("r", cs(k))).re
    B = lambda m: rsum(ZERO, Sc("i", m), lambda k: Sc("r", cy(k))).re
    T = z3.Real("T")
    e = n.re - 1
    v.assume(T == A(e))
    v.assume(T != 0)
    v.forall(lambda k: yy(k) * T == ss(k) * c, None, None)
    v.cover()

    def nonneg(k):
        x0, x1, a, b = zz(k), zz(k + 1), ss(k), ss(k + 1)
        d = (x1 - x0) * (a + b) * HALF
        v.lemma("increasing", x0 < x1)
        v.lemma("values", z3.And(a >= 0, b >= 0))
        v.lemma("cell-nonnegative", d >= 0, using=[x0 < x1, z3.And(a >= 0, b >= 0)], gen=[x0, x1, a, b])
        v.lemma("cell", cs(k) >= 0)

    induct(v, "nonnegative-integral", lambda m: A(m) >= 0, e, nonneg)

    def scale(k):
        x0, x1, a, b, p, q, f, g = zz(k), zz(k + 1), ss(k), ss(k + 1), yy(k), yy(k + 1), cs(k), cy(k)
        h = [f == (x1 - x0) * (a + b) * HALF, g == (x1 - x0) * (p + q) * HALF, p * T == a * c, q * T == b * c]
        for t in h:
            v.lemma("instance", t)
        v.lemma("cell-proportional", g * T == f * c, using=h, gen=[x0, x1, a, b, p, q, f, g])
        v.lemma("next-y", B(k + 1) == B(k) + g)
        v.lemma("next-s", A(k + 1) == A(k) + f)

    induct(v, "proportional-integral", lambda m: B(m) * T == A(m) * c, e, scale)
    v.lemma("positive-integral", T > 0)
    v.lemma("at-end", B(e) * T == T * c)
    v.prove("integrates-to-norm", B(e) == c)
    i = v.ix("i", n)
    p, q = yy(i), ss(i)
    v.lemma("instance", z3.And(p * T == q * c, q >= 0, c >= 0))
    v.prove("nonnegative", p >= 0, using=[z3.And(p * T == q * c, q >= 0, c >= 0), T > 0], gen=[p, q])


def grid(v):
    n = v.int("n", lo=2)
    z = v.arr("z", (n,), lo=0)
    v.increasing(z)
    return n, z


def gauss(ranks, norm):
    @harness(f"gaussian[{ranks}{',norm' if norm else ''}]", funcs=[O + "gaussian_nz"])
    def h(v):
        n, z = grid(v)
        dims, ix, (mean, sigma), (m, s) = params(v, ("mean", "sigma"), ranks, pos=("sigma",))
        N = v.real("norm") if norm else None
        v.cover()
        out = v.call(v.fn(O + "gaussian_nz"), z, mean, sigma, **({"norm": N} if norm else {}))
        shape = lambda k: V.s_exp(Sc("r", -(((re(z.at(k)) - m) / s) * ((re(z.at(k)) - m) / s)) / 2)).re
        normalised(v, out, dims, ix, z, n, shape, N)
    return h


def smail(ranks, norm):
    @harness(f"smail[{ranks}{',norm' if norm else ''}]", funcs=[O + "smail_nz"])
    def h(v):
        n, z = grid(v)
        dims, ix, ps, (zm, al, be) = params(v, ("z_mode", "alpha", "beta"), ranks, pos=("z_mode", "alpha", "beta"))
        N = v.real("norm") if norm else None
        v.cover()
        out = v.call(v.fn(O + "smail_nz"), z, *ps, **({"norm": N} if norm else {}))
        P = F["pow"]
        shape = lambda k: P(re(z.at(k)), al) * V.s_exp(Sc("r", -al / be * P(re(z.at(k)) / zm, be))).re
        normalised(v, out, dims, ix, z, n, shape, N)
    return h


for _n in (False, True):
    gauss((0, 0), _n)
    smail((0, 0, 0), _n)
gauss((1, 1), False)
gauss((1, 0), True)
gauss((2, 2), False)
smail((1, 1, 1), True)
smail((1, 0, 0), False)
smail((2, 2, 2), False)


# ------------------------------------------------------------------ bins
def bins_of(v, out):
    q = to_seq(out)
    return q, z3i(q.n)


def edges(t):
    if not (isinstance(t, tuple) and len(t) == 2):
        raise Unsupported("a bin is not a pair")
    return re(t[0]), re(t[1])


@harness("fixed[nbins]", funcs=[O + "fixed_zbins"])
def fixed_n(v):
    a, b, n = v.real("zmin", lo=0), v.real("zmax"), v.int("nbins", lo=1)
    v.assume(b.re > a.re)
    v.cover()
    q, m = bins_of(v, v.call(v.fn(O + "fixed_zbins"), a, b, nbins=n))
    v.prove("count", m == n.re)
    k = v.ix("k", n)
    lo, hi = edges(q.getter(k))
    w = (b.re - a.re) / z3.ToReal(n.re)
    v.prove("equal-width", hi - lo == w)
    v.prove("position", lo == a.re + z3.ToReal(k) * w)
    v.prove("starts-at-zmin", edges(q.getter(ZERO))[0] == a.re)
    v.prove("ends-at-zmax", edges(q.getter(n.re - 1))[1] == b.re)
    v.assume(k + 1 < n.re)
    v.prove("contiguous", edges(q.getter(k + 1))[0] == hi)


@harness("fixed[dz]", funcs=[O + "fixed_zbins"])
def fixed_dz(v):
    a, b, d = v.real("zmin", lo=0), v.real("zmax"), v.real("dz", gt=0)
    v.assume(b.re > a.re)
    v.cover()
    q, m = bins_of(v, v.call(v.fn(O + "fixed_zbins"), a, b, dz=d))
    # a neighbouring floating-point number is infinitesimally close: no point of the grid lies in between
    for t in {x.get_id(): x for f in v.c.pc for x in consts(f, "nextafter")}.values():
        v.c.forall(lambda j: z3.Not(z3.And(t <= a.re + z3.ToReal(j) * d.re, a.re + z3.ToReal(j) * d.re < b.re + d.re)), None, None)
    k = v.ix("k", Sc("i", m))
    lo, hi = edges(q.getter(k))
    v.prove("equal-width", hi - lo == d.re)
    v.prove("position", lo == a.re + z3.ToReal(k) * d.re)
    v.prove("starts-at-zmin", edges(q.getter(ZERO))[0] == a.re)
    # the last edge is within dz above zmax
    e = a.re + z3.ToReal(m) * d.re
    for t in {x.get_id(): x for f in v.c.pc for x in consts(f, "nextafter")}.values():
        v.assume(z3.Not(z3.And(t <= e + d.re, e + d.re < b.re + d.re)))
    last = edges(q.getter(m - 1))[1]
    v.lemma("last-edge", last == e)
    v.prove("reaches-zmax", last >= b.re)
    v.prove("not-beyond", last < b.re + d.re)
    v.prove("some-bin", m >= 1)
    v.assume(k + 1 < m)
    v.prove("contiguous", edges(q.getter(k + 1))[0] == hi)


def consts(f, base):
    out, stack, seen = [], [f], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith(base):
            out.append(t)
        stack.extend(t.children())
    return out


@harness("fixed[arguments]", funcs=[O + "fixed_zbins"])
def fixed_bad(v):
    a, b, n, d = v.real("zmin"), v.real("zmax"), v.int("nbins", lo=1), v.real("dz", gt=0)
    v.cover()
    both = v.c.decide(z3.Bool("both_given"))
    v.raises_iff("both-or-neither", ValueError, z3.BoolVal(True), v.fn(O + "fixed_zbins"), a, b, **({"nbins": n, "dz": d} if both else {}))


@harness("equal-density", funcs=[O + "equal_dens_zbins"])
def equal(v):
    n, nb = v.int("n", lo=2), v.int("nbins", lo=1)
    z, nz = v.arr("z", (n,)), v.arr("nz", (n,), gt=0)
    v.increasing(z)
    cum = v.arr("cum", (n,))
    v.increasing(cum)
    v.assume(re(cum.at(ZERO)) == 0)
    v.lemma("total-positive", re(cum.at(n.re - 1)) > 0)

    def contract(f, x, **k):
        """cumulative trapezoidal rule (C28): zero first, increasing for a positive density"""
        if k or f.buf is not nz.buf or x.buf is not z.buf:
            raise Unsupported("use of cumulative_trapezoid")
        return SArr((n,), "r", memo(lambda i: Sc("r", re(cum.at(i)))), X.NUMPY)
    v.replace("glass.arraytools.cumulative_trapezoid", contract)
    v.cover()
    q, m = bins_of(v, v.call(v.fn(O + "equal_dens_zbins"), z, nz, nb))
    v.prove("count", m == nb.re)
    k = v.ix("k", nb)
    lo, hi = edges(q.getter(k))
    tot = re(cum.at(n.re - 1))
    zz, F_ = (lambda i: re(z.at(i))), (lambda i: re(cum.at(i)) / tot)
    v.prove("starts-at-first", edges(q.getter(ZERO))[0] == zz(ZERO))
    v.prove("ends-at-last", edges(q.getter(nb.re - 1))[1] == zz(n.re - 1))
    # the lower edge of bin k: linear interpolation of the cumulative fraction at the edge is k / nbins
    frac = z3.ToReal(k) / z3.ToReal(nb.re)
    v.lemma("fraction-below-one", z3.And(frac >= 0, frac < 1))
    v.lemma("first-fraction", F_(ZERO) == 0)
    v.lemma("last-fraction", F_(n.re - 1) == 1)
    seg = interp_term(frac, n.re, F_, zz, None, None)
    v.prove("edge", lo == seg)
    br = [t for t in v.apps("bracket#0", seg)] + [t for t in v.apps("bracket#1", seg)]
    if not br:
        raise Unsupported("no segment of the edge")
    j = br[0]
    v.lemma("segment", z3.And(j >= 0, j + 1 < n.re, F_(j) <= frac, frac < F_(j + 1)))
    z0, z1, f0, f1 = zz(j), zz(j + 1), F_(j), F_(j + 1)
    v.lemma("segment-increasing", z0 < z1)
    v.lemma("on-segment", lo == z0 + (z1 - z0) / (f1 - f0) * (frac - f0))
    u, L_ = (v.let(nm, t) for nm, t in (("width", f1 - f0), ("edge_k", lo)))
    v.prove("cumulative-fraction", (lo - z0) * (f1 - f0) == (frac - f0) * (z1 - z0))
    v.assume(k + 1 < nb.re)
    v.prove("contiguous", edges(q.getter(k + 1))[0] == hi)


@harness("tomographic", funcs=[O + "tomo_nz_gausserr"])
def tomo(v):
    n, nb = v.int("n", lo=1), v.int("nbins", lo=1)
    z, nz = v.arr("z", (n,), lo=0), v.arr("nz", (n,))
    s0 = v.real("sigma_0", gt=0)
    e = z3.Function("bin_edge", I, I, R)
    bins = SSeq(nb, lambda k: (Sc("r", e(k, z3.IntVal(0))), Sc("r", e(k, z3.IntVal(1)))))
    v.cover()
    out = v.call(v.fn(O + "tomo_nz_gausserr"), z, nz, s0, bins)
    v.dims("shape", out, (nb, n))
    k, i = v.ix("k", nb), v.ix("i", n)
    x = re(z.at(i))
    E = lambda t: F["erf"](t)
    lo, hi = e(k, z3.IntVal(0)), e(k, z3.IntVal(1))
    got = re(out.at(k, i))

    def claim(root2):
        """the root of two as the floating-point number, or exact"""
        sz = root2 * s0.re * (1 + x)
        pos = 1 + E(x / sz)
        v.lemma("width-positive", sz > 0)
        v.lemma("positive-probability", pos > 0)
        return got * pos == (E((x - lo) / sz) - E((x - hi) / sz)) * re(nz.at(i))
    exact = "sqrt" in got.sexpr()
    v.prove("bin", claim(V.s_sqrt(Sc("r", z3.RealVal(2))).re if exact else V.lift(2**0.5).re))


@harness("telescope", funcs=[O + "tomo_nz_gausserr"])
def telescope(v):
    """lemma: contributions (P(z_k) - P(z_{k+1})) c of contiguous bins add up to (P(z_0) - P(z_K)) c"""
    K = v.int("K", lo=0)
    P, c = z3.Function("P_edge", I, R), v.real("c")
    v.cover()
    S = lambda m: rsum(ZERO, Sc("i", m), lambda k: Sc("r", (P(k) - P(k + 1)) * c.re)).re
    ext, v.c.ext_enabled = v.c.ext_enabled, False
    induct(v, "telescope", lambda m: S(m) == (P(ZERO) - P(m)) * c.re, K.re)
    v.prove("sum-of-contiguous-bins", S(K.re) == (P(ZERO) - P(K.re)) * c.re)
    v.c.ext_enabled = ext


ASSUMPTIONS = ["the neighbouring floating-point number used as the end of the bins of given width is infinitesimally close",
               "distributions do not vanish on the whole grid; equal-density bins are proved for a positive density"]
