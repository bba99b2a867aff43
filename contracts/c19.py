"""C19: photometric redshifts are truncated normal draws of their own galaxy."""
import z3

from contracts.util import unknown
from pv import vals as V
from pv.arr import SArr
from pv.core import Unsupported, ctx, z3b, z3i
from pv.harness import harness
from pv.seq import LoopSpec
from pv.stubs import events
from pv import xp as X
from pv.vals import Sc, cast

P = "glass.galaxies.gaussian_phz"
R = z3.RealSort()
# Draw(x, m, s): x was drawn from the normal distribution with mean m and standard deviation s
DRAW = z3.Function("Draw", R, R, R, z3.BoolSort())
ST = {}


def real(x):
    return cast(x, "r").re


def at(a, p):
    """value of an array (or scalar) with broadcasting at the position p of the result"""
    if not isinstance(a, SArr):
        return V.sc(a)
    idx = p[len(p) - a.ndim:]
    return a.at(*[z3.IntVal(0) if isinstance(d, int) and d == 1 else q for q, d in zip(idx, a.shape)])


def below(x, b):
    """x < b for a bound that may be infinite"""
    return z3b(x < b) if isinstance(x < b, (bool, z3.BoolRef)) else (x < b).re


def draws():
    """Every draw with one independent value per galaxy is a normal draw at each position."""
    c = ctx()
    p = ST["p"]
    for e in events("draw"):
        if e.method != "normal" or len(e.shape) != len(p):
            raise Unsupported("redshifts are drawn in another way")
        if id(e) in ST["seen"]:
            continue
        ST["seen"].add(id(e))
        ST["keep"].append(e)
        same = z3.And(*[z3i(a) == z3i(b) for a, b in zip(e.shape, ST["dims"])])
        c.assume(z3.Implies(same, DRAW(real(at(e.result, p)), real(at(e.loc, p)), real(at(e.scale, p)))))


def inside(x):
    """within the bounds of this galaxy"""
    lo, hi = ST["lower"], ST["upper"]
    out = [x >= (z3.RealVal(0) if lo is None else lo)]
    if hi is not None:
        out.append(x <= hi)
    return z3.And(*out)


def loops():
    def inv(env, k):
        draws()
        p = ST["p"]
        zp = env.zphot
        if not isinstance(zp, SArr) and not p:
            x = real(V.sc(zp))
        else:
            if not isinstance(zp, SArr) or zp.ndim != len(p):
                raise Unsupported("redshifts are not an array")
            x = real(zp.at(*p))
        out = []
        if p:
            out.append(("shape", z3.And(*[z3i(a) == z3i(b) for a, b in zip(zp.shape, ST["dims"])])))
        out.append(("draw", DRAW(x, ST["mean"], ST["sd"])))
        if ST.get("first") is None:
            ST["first"] = x
        out.append(("kept", z3.Implies(inside(ST["first"]), x == ST["first"])))
        if ST.get("old") is not None:
            out.append(("not-redrawn", z3.Implies(inside(ST["old"]), x == ST["old"])))
        t = env.get("trunc")
        if isinstance(t, SArr) and p:
            out.append(("mask.shape", z3.And(z3.BoolVal(t.ndim == len(p)), *[z3i(a) == z3i(b) for a, b in zip(t.shape, ST["dims"])])))
            if t.ndim == len(p):
                out.append(("mask", t.at(*p).re == z3.Not(inside(x))))
        return out

    def havoc(env, k):
        z = unknown("zphot", ST["dims"])
        ST["old"] = real(z.at(*ST["p"]))
        d = dict(zphot=z)
        if isinstance(env.get("trunc"), SArr):
            d["trunc"] = unknown("trunc", ST["dims"], "b")
        return d

    return {P + f":while{i}": LoopSpec(inv, havoc) for i in (1, 2)}


def phz(name, zs, ss, lows, ups):
    """zs, ss: which of the axes (a, b) the input has ('' scalar, '1' length-one axis)."""
    @harness(f"gaussian_phz[{name}]", funcs=[P], loops=loops)
    def h(v):
        da, db = v.int("a", lo=1), v.int("b", lo=1)
        D = {"a": da, "b": db, "1": 1}
        names = []
        for k in range(max(len(zs), len(ss))):
            o = [x[k - max(len(zs), len(ss))] for x in (zs, ss) if len(x) >= max(len(zs), len(ss)) - k]
            names.append(next((q for q in o if q != "1"), "1"))
        dims = tuple(D[q] for q in names)
        p = tuple(v.ix(f"p{i}", d) for i, d in enumerate(dims))
        Z = v.arr("z", tuple(D[q] for q in zs), lo=0) if zs else v.real("z", lo=0)
        S = v.arr("s", tuple(D[q] for q in ss), lo=0) if ss else v.real("s", lo=0)

        def bound(nm, kind):
            if kind is None:
                return None, None
            if kind == "scalar":
                x = v.real(nm)
                return x, x.re
            x = v.arr(nm, dims)
            return x, real(x.at(*p))
        lo, lov = bound("lower", lows)
        up, upv = bound("upper", ups)
        z, s = real(at(Z, p)), real(at(S, p))
        ST.clear()
        ST.update(p=p, dims=dims, lower=lov, upper=upv, mean=z, sd=(1 + z) * s, seen=set(), keep=[], v=v)
        v.cover()
        kw = {}
        if lo is not None:
            kw["lower"] = lo
        if up is not None:
            kw["upper"] = up
        if not isinstance(Z, SArr) and not isinstance(S, SArr):
            kw["xp"] = X.NUMPY
        k, out = v.attempt(v.fn(P), Z, S, rng=v.rng(), **kw)
        lower = lambda q: V.sc(0) if lo is None else (lo.at(*q) if isinstance(lo, SArr) else lo)
        if k == "exc":
            if not isinstance(out, ValueError):
                v.c.fail("gaussian_phz.no-other-exception", f"{type(out).__name__}: {out}")
                return
            # rejected: some pair of bounds is out of order
            if up is None:
                v.c.fail("gaussian_phz.rejects-only-invalid", f"{out}")
                return
            from pv.arr import exists
            arrays = isinstance(lo, SArr) or isinstance(up, SArr)
            if arrays:
                bad = exists(dims, lambda *q: real(lower(q)) >= real(up.at(*q) if isinstance(up, SArr) else up))
            else:
                bad = real(lower(())) >= real(up)
            v.prove("rejects-only-invalid", bad)
            return
        if dims:
            v.dims("shape", out, dims)
        elif isinstance(out, SArr):
            v.dims("shape", out, ())
        draws()
        x = real(out.at(*p)) if isinstance(out, SArr) else real(V.sc(out))
        if upv is not None:
            v.prove("accepts-only-ordered", (z3.RealVal(0) if lov is None else lov) < upv)
        v.prove("within-bounds", inside(x))
        v.prove("is-own-draw", DRAW(x, z, (1 + z) * s))
        if ST.get("first") is not None:
            v.prove("first-kept", z3.Implies(inside(ST["first"]), x == ST["first"]))
    return h


for nm, zs, ss in (("scalar", "", ""), ("1d", "a", ""), ("sigma-1d", "", "a"), ("both", "a", "a"), ("outer", "a1", "b"), ("2d", "ab", "b")):
    phz(f"{nm},default", zs, ss, None, None)
    phz(f"{nm},lower", zs, ss, "scalar", None)
    phz(f"{nm},upper", zs, ss, None, "scalar")
    phz(f"{nm},scalars", zs, ss, "scalar", "scalar")
for nm, zs, ss in (("1d", "a", ""), ("outer", "a1", "b"), ("2d", "ab", "b")):
    phz(f"{nm},arrays", zs, ss, "array", "array")
    phz(f"{nm},array-lower", zs, ss, "array", None)
    phz(f"{nm},array-upper", zs, ss, None, "array")
    phz(f"{nm},array-scalar", zs, ss, "array", "scalar")
    phz(f"{nm},scalar-array", zs, ss, "scalar", "array")


def shapes(name, zshape, lshape, ushape):
    """Bounds that are arrays of another shape than the galaxies are rejected."""
    @harness(f"rejects-shape[{name}]", funcs=[P], loops=loops)
    def h(v):
        D = {x: v.int(x, lo=1) for x in "abc"}
        v.assume(D["a"].re != D["b"].re)
        Z = v.arr("z", tuple(D[q] for q in zshape), lo=0) if zshape else v.real("z", lo=0)
        mk = lambda nm, s: None if s is None else (v.arr(nm, tuple(D[q] for q in s)) if s else v.real(nm))
        ST.clear()
        dims = tuple(D[q] for q in zshape)
        ST.update(p=tuple(v.ix(f"p{i}", d) for i, d in enumerate(dims)), dims=dims, lower=None, upper=None, mean=z3.RealVal(0),
                  sd=z3.RealVal(1), seen=set(), keep=[], v=v)
        v.cover()
        k, out = v.attempt(v.fn(P), Z, v.real("s", lo=0), lower=mk("lower", lshape), upper=mk("upper", ushape), rng=v.rng())
        if k == "exc" and isinstance(out, ValueError):
            v.prove("rejected", z3.BoolVal(True))
        elif k == "exc":
            v.c.fail("rejects-shape.other-exception", f"{type(out).__name__}: {out}")
        else:
            v.c.fail("rejects-shape.accepted", "bounds of another shape were accepted")
    return h


shapes("both", "a", "b", "b")
shapes("lower", "a", "b", "a")
shapes("upper", "a", "a", "b")
shapes("lower-only", "a", "b", None)
shapes("upper-only", "a", None, "b")
shapes("lower,scalar", "a", "ca", "")
shapes("scalar,upper", "a", "", "ca")
shapes("lower-2d,upper-1d", "a", "ca", "a")
shapes("rank", "ca", "a", "a")
shapes("scalar-z", "", "a", "a")
