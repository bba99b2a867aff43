"""Symbolic inputs shared by the contracts."""
import z3

from pv import core
from pv import vals as V
from pv import xp as X
from pv.arr import SArr, memo
from pv.core import PathEnd, Unsupported, ctx, z3i
from pv.interp import interp_term
from pv.seq import SSeq
from pv.vals import Sc

I, R = z3.IntSort(), z3.RealSort()


def tri(n):
    return z3.simplify(n * (n + 1) / 2)


def pos(i, j):
    """standard position of the pair (i, j), i >= j"""
    return i * (i + 1) / 2 + i - j


class Spectra:
    """A list of `count` arrays of varying length."""

    def __init__(self, v, count, name="cl", xp=None, minlen=0, maxlen=None):
        self.count = count
        self.flen = z3.Function(name + "_len", I, I)
        self.fval = z3.Function(name, I, I, R)
        v.c.forall(lambda k: self.flen(k) >= minlen, None, None)
        if maxlen is not None:
            v.c.forall(lambda k: self.flen(k) <= maxlen, None, None)
        self.name, self.xp = name, xp or X.NUMPY
        self.seq = SSeq(count, self.get)

    def get(self, k):
        k = z3.simplify(k)
        return SArr((Sc("i", self.flen(k)),), "r", memo(lambda l: Sc("r", self.fval(k, l))), self.xp, owner=self.name)

    def at(self, k, l):
        """value of spectrum k at mode l, zero beyond its length"""
        return z3.If(z3.And(l >= 0, l < self.flen(k)), self.fval(k, l), z3.RealVal(0))


def triangle(v, name="nf", lo=0):
    """Number of fields n and the term n(n+1)/2 with its defining property."""
    n = v.int(name, lo=lo)
    t = z3.Int(name + "_tri")
    v.assume(2 * t == n.re * (n.re + 1))
    v.assume(t >= n.re)
    return n, Sc("i", t)


def pair(v, n, t, tag=""):
    """An arbitrary pair 0 <= j <= i < n and its position."""
    i, j = v.ix("i" + tag, n), v.ix("j" + tag, n)
    v.assume(j <= i)
    p = z3.Int("ix!pos" + tag)
    v.assume(2 * p == i * (i + 1) + 2 * (i - j))
    N = n.re
    v.hint(N * N + N >= i * i + 3 * i + 2, using=[i <= N - 1, i >= 0])
    v.lemma("position-in-range" + tag, z3.And(p >= 0, p < t.re))
    return i, j, p


def root(v, n, c):
    """floor(sqrt(2c)) is n when 2c = n(n+1): available to the proofs below"""
    rn, rc = z3.ToReal(n.re), z3.ToReal(c.re)
    s = V.s_sqrt(Sc("r", V.toreal(z3.simplify(2 * c.re)))).re
    for s in [s, *v.apps("sqrt", *v.c.pc)]:
        f = [s >= 0, s * s == 2 * rc, 2 * rc == rn * rn + rn, rn >= 0]
        if all([v.hint(x) for x in f]):
            v.hint(z3.And(rn <= s, s < rn + 1), using=f, gen=[s, rn, rc])
            v.hint(z3.ToInt(s) == n.re, using=[z3.And(rn <= s, s < rn + 1)])


def nfields_contract(v, n, t, kinds=("nfields_from_nspectra", "_inv_triangle_number")):
    """Callers are checked against the contract of the field count (proved by the harness of `prove_nfields`)."""
    for f in kinds:
        def contract(c, *a, **k):
            if a or k:
                raise Unsupported(f"arguments of {f}")
            v.prove(f"{f}.pre", z3i(c) == t.re)
            return n
        v.replace("glass.fields." + f, contract)


def prove_nfields(name="number-of-fields"):
    from pv.harness import harness
    P = "glass.fields."

    @harness(name, funcs=[P + "nfields_from_nspectra", P + "_inv_triangle_number"])
    def h(v):
        n, t = triangle(v)
        v.cover()
        root(v, n, t)
        for f in ("nfields_from_nspectra", "_inv_triangle_number"):
            m = v.call(v.fn(P + f), t)
            v.prove(f"{f}.post", z3i(m) == n.re)
    return h


def locate(v, p, i, j, *terms, sym="flat_k"):
    """The row of position p in a triangle (rows of 1, 2, 3, ... entries) is i, its place in the row is j."""
    for k in v.apps(sym, *terms):
        if not k.children()[-1].eq(p):
            continue
        v.hint(z3.And(k >= 0, k * (k + 1) <= 2 * p, 2 * p < (k + 1) * (k + 2)))
        v.hint(z3.And(i >= 0, i * (i + 1) <= 2 * p, 2 * p < (i + 1) * (i + 2)))
        for a, b in ((k, i), (i, k)):
            v.hint(z3.Implies(a + 1 <= b, a * a + 3 * a + 2 <= b * b + b), using=[a >= 0, b >= 0])
        v.hint(k == i)
    for t in terms:
        for d in core._scan1(z3.simplify(t))[0]:
            if d.decl().kind() == z3.Z3_OP_IDIV and v.apps(sym, d):
                for w in (p - j, p - j - i):
                    if v.hint(d == w):
                        break


def one_yield(v, gen):
    """The item of one arbitrary iteration of a generator, or None at the end; no second item in that iteration."""
    try:
        item = v.call(next, gen, raises=(StopIteration,))
    except Exception as e:  # noqa: BLE001
        if isinstance(getattr(e, "__cause__", None), StopIteration):
            return None
        raise
    try:
        v.call(next, gen, raises=(StopIteration,))
    except PathEnd:
        return (item,)
    except Exception as e:  # noqa: BLE001
        if isinstance(getattr(e, "__cause__", None), StopIteration):
            v.c.fail("single-yield", "the generator ended inside an iteration")
            raise PathEnd from None
        raise
    v.c.fail("single-yield", "more than one item in an iteration")
    raise PathEnd


def iter_index(v, prefix=""):
    """Index of the current arbitrary iteration of the innermost cut loop."""
    for e in reversed(ctx().trace):
        if isinstance(e, tuple) and e[0] == "iter" and e[1].startswith(prefix):
            return e[2]
    raise PathEnd


def iter_count(v, prefix=""):
    """Number of iterations of the innermost cut loop."""
    for e in reversed(ctx().trace):
        if isinstance(e, tuple) and e[0] == "iter" and e[1].startswith(prefix) and len(e) > 3:
            return e[3]
    raise PathEnd


def unknown(name, shape, k="r", xp=None, lo=None):
    """A local array with arbitrary content (loop variables at an arbitrary iteration)."""
    c = ctx()
    nm = c.fresh_name("any_" + name)
    n = len(shape)
    mk = lambda p, s: z3.Function(nm + p, *([I] * n), s) if n else z3.Const(nm + p, s)
    ap = lambda f, i: f(*i) if n else f
    if k == "c":
        f, g = mk(".re", R), mk(".im", R)
        return SArr(tuple(shape), "c", memo(lambda *i: Sc("c", ap(f, i), ap(g, i))), xp or X.NUMPY)
    f = mk("", {"r": R, "i": I, "b": z3.BoolSort()}[k])
    if lo is not None:
        c.forall(lambda *i: f(*i) >= lo, None, None, max(1, n))
    return SArr(tuple(shape), k, memo(lambda *i: Sc(k, ap(f, i))), xp or X.NUMPY)


def loop_array(env, ndim=None, pick=None):
    """Name of the array that a loop builds (whatever the code calls it)."""
    names = [m for m in env.loop_.mods if isinstance(env.get(m), SArr) and (ndim is None or env.get(m).ndim == ndim)]
    if pick:
        names = [m for m in names if pick(env.get(m))]
    if len(names) != 1:
        raise Unsupported("loop contract: the array built by the loop is not identified")
    return names[0]


def ravel(idx, dims):
    """flat position of an index that lies within the dimensions"""
    if not idx:
        return z3.IntVal(0)
    return X.ravel_index(tuple(z3i(i) for i in idx), tuple(dims))


def fubini(v, f, n, m, name="interchange"):
    """sum_{i<n} sum_{j<m} f(i,j) = sum_{j<m} sum_{i<n} f(i,j), by induction on n (f: index terms -> Sc).

    Returns the proved equation (or None).
    """
    from pv.arr import rsum
    z = z3.IntVal(0)
    left = lambda N: rsum(z, N, lambda i: rsum(z, m, lambda j: f(i, j))).re
    right = lambda N: rsum(z, m, lambda j: rsum(z, N, lambda i: f(i, j))).re
    k = v.c.fresh("ix!ind", "i")
    mark = len(v.c.pc)
    ext, v.c.ext_enabled = v.c.ext_enabled, False
    v.assume(k >= 0)
    ok = v.prove(name + ".base", left(z) == right(z))
    v.assume(left(k) == right(k))
    row = rsum(z, m, lambda j: f(k, j)).re
    cell = lambda j, N: rsum(z, N, lambda i: f(i, j))
    ok &= v.prove(name + ".row", left(k + 1) == left(k) + row)
    ok &= v.congr(name + ".column", z, m, lambda j: cell(j, k + 1), lambda j: cell(j, k) + f(k, j))
    ok &= v.prove(name + ".step", left(k + 1) == right(k + 1))
    v.c.ext_enabled = ext
    del v.c.pc[mark:]
    if not ok:
        return None
    eq = left(z3i(n)) == right(z3i(n))
    v.assume(z3.Implies(z3i(n) >= 0, eq))
    return eq


def induct(v, name, claim, n, step=None, lo=0):
    """claim(k) for every lo <= k <= n, by induction (base and step are obligations); claim(n) is then available."""
    k = v.c.fresh("ix!ind", "i")
    mark = len(v.c.pc)
    ok = v.prove(name + ".base", claim(z3.IntVal(lo)))
    v.assume(z3.And(k >= lo, k < z3i(n)))
    v.assume(claim(k))
    if step is not None:
        step(k)
    ok &= v.prove(name + ".step", claim(k + 1))
    del v.c.pc[mark:]
    if ok:
        v.assume(z3.Implies(z3i(n) >= lo, claim(z3i(n))))
    return ok

def lin(x, f, q, n, ends=z3.RealVal(0)):
    """linear interpolation of the points (x(k), f(k)), k < n, at q; `ends` (None: the end values) outside"""
    return interp_term(q, n, x, f, ends, ends)


class Shells:
    """A list of `count` window functions with their own grids."""

    def __init__(self, v, count):
        self.fn = v.fn("glass.shells.RadialWindow")
        self.count = count
        self.len = z3.Function("w_len", I, I)
        self.za, self.wa, self.zeff = (z3.Function(n, I, I, R) for n in ("w_za", "w_wa", "w_zeff"))
        v.c.forall(lambda s: self.len(s) >= 2, None, None)
        v.c.lpair.setdefault("w_za", []).append(
            lambda a, b: [z3.Implies(z3.And(a.arg(0) == b.arg(0), a.arg(1) >= 0, a.arg(1) < b.arg(1), b.arg(1) < self.len(a.arg(0))), a < b)])
        self.seq = SSeq(count, memo(self.get))

    def get(self, s):
        s = z3.simplify(s)
        n = Sc("i", self.len(s))
        mk = lambda f, nm: SArr((n,), "r", memo(lambda i: Sc("r", f(s, i))), X.NUMPY, owner=nm)
        za = mk(self.za, "w_za")
        za.shell = s
        return self.fn(za, mk(self.wa, "w_wa"), Sc("r", self.zeff(s, z3.IntVal(0))))

    def lin(self, s, q):
        return lin(lambda k: self.za(s, k), lambda k: self.wa(s, k), q, self.len(s))
