"""C28: integration, averaging and broadcasting helpers are exact."""
import z3

from pv import vals as V
from pv import xp as X
from pv.arr import SArr, memo, rsum
from pv.core import Unsupported, z3i
from pv.harness import harness
from pv.interp import interp_term
from pv.stubs import events
from pv.vals import Sc, cast

A = "glass.arraytools."
P = "glass.points."


def real(s):
    return cast(s, "r").re


# ------------------------------------------------------------------ cumulative integral
def cumtrap(shape, kinds="rr"):
    @harness(f"cumulative_trapezoid[{len(shape)}d,{kinds}]", funcs=[A + "cumulative_trapezoid"])
    def h(v):
        dims = [v.int(d, lo=1) for d in shape]
        n = dims[-1]
        f, x = v.arr("f", dims, kinds[0]), v.arr("x", (n,), kinds[1])
        lead = [v.ix("p" + str(j), d) for j, d in enumerate(dims[:-1])]
        v.cover()
        out = v.call(v.fn(A + "cumulative_trapezoid"), f, x)
        v.dims("shape", out, dims)
        v.prove("starts-at-zero", real(out.at(*lead, z3.IntVal(0))) == 0)
        k = z3.Int("ix!k")
        v.assume(z3.And(k >= 0, k + 1 < n.re))
        step = real(out.at(*lead, k + 1)) - real(out.at(*lead, k))
        v.prove("step", step == (real(f.at(*lead, k)) + real(f.at(*lead, k + 1))) / 2 * (real(x.at(k + 1)) - real(x.at(k))))
    return h


cumtrap(("n",))
cumtrap(("m", "n"))
cumtrap(("m1", "m2", "n"))
cumtrap(("n",), "ii")


# ------------------------------------------------------------------ integral of a product
def lin(x, f, q):
    """linear interpolation of (x, f) at q"""
    return interp_term(q, z3i(x.shape[0]), lambda k: real(x.at(k)), lambda k: real(f.at(k)), None, None)


def product(count):
    @harness(f"trapezoid_product[{count}]", funcs=[A + "trapezoid_product"])
    def h(v):
        fs = []
        for t in range(count):
            n = v.int(f"n{t}", lo=1)
            x, f = v.arr(f"x{t}", (n,)), v.arr(f"f{t}", (n,))
            v.increasing(x)
            fs.append((x, f, n))
        lo = [real(x.at(z3.IntVal(0))) for x, f, n in fs]
        hi = [real(x.at(n.re - 1)) for x, f, n in fs]
        if count > 2:           # a common range is needed to go on
            for a in lo:
                for b in hi:
                    v.assume(a <= b)
        common = lambda q: z3.And(*[q >= a for a in lo], *[q <= b for b in hi])
        v.cover()
        out = v.call(v.fn(A + "trapezoid_product"), *[(x, f) for x, f, n in fs])
        ev = events("trapezoid")
        if len(ev) != 1 or ev[0].x is None:
            raise Unsupported("the integral is not one trapezoidal rule over a grid")
        xs, ys = ev[0].x, ev[0].y
        if xs.ndim != 1 or ys.ndim != 1:
            v.c.fail("grid.rank", "grid is not one-dimensional")
            return
        m = z3i(xs.shape[0])
        v.dims("integrand.length", ys, (Sc("i", m),))
        want = rsum(0, Sc("i", m - 1), lambda k: (xs.at(k + 1) - xs.at(k)) * (ys.at(k) + ys.at(k + 1)) * Sc("r", z3.Q(1, 2)))
        v.eq("trapezoidal-rule", out, want)
        k, k2 = z3.Int("ix!k"), z3.Int("ix!k2")
        v.assume(z3.And(k >= 0, k < k2, k2 < m))
        v.prove("grid.increasing", real(xs.at(k)) < real(xs.at(k2)))
        j = v.ix("j", Sc("i", m))
        xj = v.let("xj", real(xs.at(j)))
        v.prove("grid.inside-common-range", common(xj))
        yj = z3.RealVal(1)
        for x, f, n in fs:
            yj = yj * lin(x, f, xj)
        v.prove("integrand", real(ys.at(j)) == yj)
        for t, (x, f, n) in enumerate(fs):
            i = v.ix(f"i{t}", n)
            pos = position(xs, real(x.at(i)))
            v.prove(f"grid.contains.{t}", z3.Implies(common(real(x.at(i))), pos(v, x, i)))
    return h


def position(xs, q):
    """some grid point equals q: witness taken from the union and selection functions that made the grid"""
    def find(v, x, i):
        cand = witnesses(xs, x, i)
        n = z3i(xs.shape[0])
        return z3.Or(*[z3.And(c >= 0, c < n, real(xs.at(c)) == q) for c in cand])
    return find


def witnesses(a, x, i):
    """index terms of `a` that may hold x[i]"""
    if a is x or getattr(a, "buf", None) is getattr(x, "buf", 0):
        return [i]
    u = getattr(a, "union", None)
    if u:
        return [u["pa"](t) for t in witnesses(u["a"], x, i)] + [u["pb"](t) for t in witnesses(u["b"], x, i)]
    s = getattr(a, "masked", None)
    if s:
        return [s["rank"](t) for t in witnesses(s["of"], x, i)]
    c = getattr(a, "copied", None)
    if c is not None:
        return witnesses(c, x, i)
    return []


for _n in (1, 2):
    product(_n)


# ------------------------------------------------------------------ broadcasting
def leading(name, specs):
    """specs: list of (rank of leading axes as tuple of dimension names or 1, trailing dimension names) or 'float'."""
    @harness(f"broadcast_leading_axes[{name}]", funcs=[A + "broadcast_leading_axes"])
    def h(v):
        dims = {}

        def dim(d):
            if d == 1:
                return 1
            if d not in dims:
                dims[d] = v.int(d, lo=1)
            return dims[d]

        args, lead = [], []
        for t, s in enumerate(specs):
            if s == "float":
                args.append((v.real(f"s{t}"), 0))
                lead.append(())
            else:
                sh = tuple(dim(d) for d in s[0]) + tuple(dim(d) for d in s[1])
                args.append((v.arr(f"a{t}", sh), len(s[1])))
                lead.append(s[0])
        rank = max(len(x) for x in lead)
        want = []
        for ax in range(rank):
            ds = [x[len(x) - rank + ax] for x in lead if len(x) - rank + ax >= 0]
            big = [d for d in ds if d != 1]
            want.append(dim(big[0]) if big else 1)
        v.cover()
        out = v.call(v.fn(A + "broadcast_leading_axes"), *args)
        v.prove("count", len(out) == 1 + len(args))
        got = tuple(out[0])
        v.prove("dims.rank", len(got) == rank)
        for ax, (g, w) in enumerate(zip(got, want)):
            v.prove(f"dims.{ax}", z3i(g) == z3i(w))
        li = [v.ix(f"l{ax}", w) if not isinstance(w, int) else z3.IntVal(0) for ax, w in enumerate(want)]
        for t, s in enumerate(specs):
            tr = () if s == "float" else tuple(dim(d) for d in s[1])
            r = out[1 + t]
            if isinstance(r, SArr) or want or tr:
                v.dims(f"array{t}.shape", r, tuple(want) + tr)
            ti = [v.ix(f"t{t}{ax}", w) for ax, w in enumerate(tr)]
            if s == "float":
                src = args[t][0]
            else:
                off = rank - len(s[0])
                src = args[t][0].at(*[z3.IntVal(0) if d == 1 else li[off + ax] for ax, d in enumerate(s[0])], *ti)
            v.eq(f"array{t}.value", r.at(*li, *ti) if isinstance(r, SArr) else r, src)
    return h


leading("scalars", ["float", ((), ("p",)), "float"])
leading("one", [(("n",), ()), ((), ("p",))])
leading("both", [(("n",), ()), (("n",), ("p",)), "float", (("n",), ("p",))])
leading("unit", [((1,), ()), (("n",), ("p",)), ((1,), ("q",))])
leading("outer", [(("m", 1), ()), (("n",), ("p",)), (("m", "n"), ())])
leading("two-trailing", [(("n",), ("p", "q")), (("m", "n"), ("p",))])


def first(name, specs):
    """broadcasting with the first axis kept first: the other axes broadcast as leading axes."""
    @harness(f"broadcast_first[{name}]", funcs=[A + "broadcast_first"])
    def h(v):
        dims = {d: v.int(d, lo=1) for s in specs for d in s if d != 1}
        arrs = [v.arr(f"a{t}", [dims.get(d, 1) for d in s]) for t, s in enumerate(specs)]
        rank = max(len(s) for s in specs)
        rolled = [s[1:] + s[:1] for s in specs]
        want = []
        for ax in range(rank):
            ds = [x[len(x) - rank + ax] for x in rolled if len(x) - rank + ax >= 0]
            big = [d for d in ds if d != 1]
            want.append(dims[big[0]] if big else 1)
        v.cover()
        out = v.call(v.fn(A + "broadcast_first"), *arrs)
        v.prove("count", len(out) == len(arrs))
        ix = [v.ix(f"l{ax}", w) if not isinstance(w, int) else z3.IntVal(0) for ax, w in enumerate(want)]
        shape = tuple(want[-1:] + want[:-1])
        for t, (s, a) in enumerate(zip(rolled, arrs)):
            v.dims(f"array{t}.shape", out[t], shape)
            off = rank - len(s)
            src = [z3.IntVal(0) if d == 1 else ix[off + ax] for ax, d in enumerate(s)]
            v.eq(f"array{t}.value", out[t].at(*(ix[-1:] + ix[:-1])), a.at(*(src[-1:] + src[:-1])))
    return h


first("vectors", [("n",), ("n",)])
first("matrix-vector", [("n", "k"), ("n",)])
first("two-matrices", [("n", "k"), (1, "k")])
first("tensor", [("n", "k", "m"), ("n",), ("n", "m")])
first("unit", [(1,), ("n", "k")])


# ------------------------------------------------------------------ effective bias, position weights
@harness("effective_bias", funcs=[P + "effective_bias"])
def effbias(v):
    n, m = v.int("n", lo=1), v.int("m", lo=2)
    z, bz = v.arr("z", (n,)), v.arr("bz", (n,))
    za, wa = v.arr("za", (m,)), v.arr("wa", (m,))
    zeff = v.real("zeff")
    w = v.fn("glass.shells.RadialWindow")(za, wa, zeff)
    T = v.real("T")
    calls = []

    def contract(*a, **k):
        calls.append((a, k))
        return T

    v.replace(A + "trapezoid_product", contract)
    norm = rsum(0, Sc("i", m.re - 1), lambda k: (za.at(k + 1) - za.at(k)) * (wa.at(k) + wa.at(k + 1)) * Sc("r", z3.Q(1, 2)))
    v.assume(norm.re != 0)
    v.cover()
    out = v.call(v.fn(P + "effective_bias"), z, bz, w)
    if len(calls) != 1:
        raise Unsupported("not one product integral")
    a, k = calls[0]
    pairs = [tuple(p) for p in a]
    got = {(id(x.buf), id(y.buf)) for x, y in pairs}
    v.prove("integrand", len(pairs) == 2 and got == {(id(z.buf), id(bz.buf)), (id(za.buf), id(wa.buf))} and not k)
    v.prove("weighted-mean", real(out if isinstance(out, Sc) else out.at()) * norm.re == T.re)


def weights(name, dshape, bshape):
    @harness(f"position_weights[{name}]", funcs=[P + "position_weights", A + "broadcast_first"])
    def h(v):
        dims = {d: v.int(d, lo=1) for d in (*dshape, *(bshape if isinstance(bshape, tuple) else ()))}
        d = v.arr("d", [dims[x] for x in dshape])
        b = None
        if bshape == "float":
            b = v.real("b")
        elif bshape is not None:
            b = v.arr("b", [dims[x] for x in bshape])
        names = dshape if not isinstance(bshape, tuple) or len(dshape) >= len(bshape) else bshape
        ix = {x: v.ix(x, dims[x]) for x in names}
        v.cover()
        rest = [ix[x] for x in dshape[1:]]
        S = rsum(0, dims[dshape[0]], lambda k: d.at(k, *rest))
        v.assume(S.re != 0)
        out = v.call(v.fn(P + "position_weights"), d, *(() if b is None else (b,)))
        v.dims("shape", out, [dims[x] for x in names])
        o = real(out.at(*[ix[x] for x in names]))
        bb = z3.RealVal(1) if b is None else (b.re if isinstance(b, Sc) else b.at(*[ix[x] for x in bshape]).re)
        v.prove("density-fraction-times-bias", o * S.re == d.at(*[ix[x] for x in dshape]).re * bb)
    return h


weights("plain", ("n",), None)
weights("plain-2d", ("n", "m"), None)
weights("float", ("n",), "float")
weights("vector", ("n",), ("n",))
weights("matrix-vector", ("n", "m"), ("n",))
weights("matrix-matrix", ("n", "m"), ("n", "m"))
weights("vector-matrix", ("n",), ("n", "m"))

BOUNDED = ["glass.arraytools.trapezoid_product with three or more functions (proved for one and two)"]
