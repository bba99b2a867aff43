"""C07: the Gaussian spectrum solver returns honest results."""
import z3

from contracts.util import Spectra, iter_index, pos, unknown
from pv import stubs as ST
from pv import xp as X
from pv.arr import SArr, memo
from pv.core import PathEnd, Unsupported, ctx, z3b, z3i
from pv.harness import harness
from pv.seq import LoopSpec
from pv.vals import Sc, cast

S = "glass.grf._solver.solve"
I, R = z3.IntSort(), z3.RealSort()
W = {}


def re(s):
    return cast(s if isinstance(s, Sc) else s.at(), "r").re


def snapshot(a):
    return SArr(tuple(a.shape), a.k, a.reader(), a.xp)


def function_of(kind, x, *key):
    """an array function: the result is a new array of the same shape that is known to be `kind` of this very content"""
    r = unknown(kind, tuple(x.shape))
    W["made"][name_of(r)] = (kind, *key, snapshot(x))
    return r


def name_of(a):
    """symbol of the elements of an array that a transform returned"""
    e = re(a.at(*[z3.Int(f"ix!probe{d}") for d in range(a.ndim)]))
    return e.decl().name() if z3.is_app(e) else None


def made(a, kind):
    m = W["made"].get(name_of(a))
    if m is None or m[0] != kind:
        raise Unsupported(f"the array is not identified as the result of {kind}")
    return m


class Field:
    """a transformation; `handles`: what it can do itself"""

    def __init__(self, name, handles):
        self.name, self.handles = name, handles

    def _do(self, kind, other, x):
        return function_of(kind, x, self, other) if self.handles else NotImplemented

    def corr(self, other, x):
        return self._do("corr", other, x)

    def icorr(self, other, x):
        return self._do("icorr", other, x)

    def dcorr(self, other, x):
        return self._do("dcorr", other, x)


def transforms():
    m = ST._mod("transformcl", cltocorr=lambda x: function_of("cltocorr", x), corrtocl=lambda x: function_of("corrtocl", x), cltovar=ST.cltovar)
    return {"transformcl": m}


def relerr(dx, x):
    """contract of _relerr: the largest relative size of dx"""
    E = z3.Const(ctx().fresh_name("err"), R)
    ctx().assume(E >= 0)
    W["errors"].append((E, snapshot(dx), snapshot(x)))
    p = W["p"]
    d, y = re(dx.at(p)), re(x.at(p))
    ctx().assume(z3.Implies(z3.And(d != 0, y != 0), z3.And(d <= E * z3.If(y >= 0, y, -y), -d <= E * z3.If(y >= 0, y, -y))))
    return Sc("r", E)


def same(a, f, p):
    return re(a.at(p)) == f(p)


def padded(gl, n):
    return lambda p: z3.If(p < n, re(gl.at(p)), z3.RealVal(0))


def forward(v, name, rl, gl):
    """rl is the spectrum of the transformed correlations of gl, padded"""
    n, p, N = W["n"].re, W["pp"], W["n"].re + W["pad"].re
    _, x = made(rl, "corrtocl")
    _, t1, t2, gt = made(x, "corr")
    _, g = made(gt, "cltocorr")
    t = W["t"]
    out = [(name + ".transformation", z3.BoolVal({t1, t2} == set(t))),
           (name + ".length", z3i(g.shape[0]) == N),
           (name + ".input", same(g, padded(gl, n), p))]
    return out, gt


def error_of(v, E, rl):
    """the error is that of rl (without the monopole if that is given)"""
    for e, dx, x in W["errors"]:
        if e.eq(E):
            p, cl = W["p"], W["cl"]
            want = re(rl.at(p)) - re(cl.at(p))
            if W["monopole"]:
                want = z3.If(p == 0, z3.RealVal(0), want)
            return [("error.residual", re(dx.at(p)) == want), ("error.target", re(x.at(p)) == re(cl.at(p)))]
    raise Unsupported("the error is not the result of the error function")


VARS = ("gl", "gt", "rl", "fl", "clerr", "info")


def outer():
    v, n = W["v"], W["n"]

    def inv(env, k):
        for m in VARS:
            if env.get(m) is None:
                raise Unsupported("the loop does not keep its state in " + ", ".join(VARS))
        if env.get("info") not in (0, 2):
            raise Unsupported("flags at the start of an iteration")
        gl, gt, rl, fl = env.gl, env.gt, env.rl, env.fl
        out, g = forward(v, "realised", rl, gl)
        p, pp = W["p"], W["pp"]
        out += [("solution.length", z3i(gl.shape[0]) == n.re), ("residual.length", z3i(fl.shape[0]) == n.re),
                ("correlation.length", z3i(gt.shape[0]) == z3i(g.shape[0])),
                ("correlation", re(gt.at(pp)) == re(W["gt_of"](gt, g).at(pp)))]
        want = re(rl.at(p)) - re(W["cl"].at(p))
        if W["monopole"]:
            out.append(("monopole", re(gl.at(z3.IntVal(0))) == W["m"].re))
            want = z3.If(p == 0, z3.RealVal(0), want)
        out.append(("residual", re(fl.at(p)) == want))
        out += error_of(v, re(env.clerr), rl)
        if W.get("err0") is None:
            W["err0"] = re(env.clerr)
            start(v, gl)
        out.append(("never-worse", re(env.clerr) <= W["err0"]))
        if W.get("head") is not None and env.info == 2:
            E, dx, x = W["errors"][-1]
            old, pr = W["head"], W["p"]
            out += [("solution-flag.step", re(dx.at(pr)) == re(gl.at(pr)) - re(old.at(pr))), ("solution-flag.size", re(x.at(pr)) == re(old.at(pr))),
                    ("solution-flag.tolerance", E <= W["gltol"].re)]
        return out

    def havoc(env, k):
        gl = unknown("gl", (n,))
        zero = z3.IntVal(0)
        if W["monopole"]:
            v.assume(re(gl.at(zero)) == W["m"].re)
        g = SArr((Sc("i", n.re + W["pad"].re),), "r", memo(lambda p: Sc("r", padded(gl, n.re)(p))), X.NUMPY)
        gt = function_of("cltocorr", g)
        rl = function_of("corrtocl", W["t"][0].corr(W["t"][1], gt) if W["t"][0].handles else W["t"][1].corr(W["t"][0], gt))
        cl = W["cl"]

        def res(p):
            d = re(rl.at(p)) - re(cl.at(p))
            return Sc("r", z3.If(p == 0, z3.RealVal(0), d) if W["monopole"] else d)
        fl = SArr((n,), "r", memo(res), X.NUMPY)
        err = relerr(fl, cl)
        v.assume(err.re <= W["err0"])
        W["head"] = snapshot(gl)
        info = 2 if v.c.choose("flag") else 0
        return dict(gl=gl, gt=gt, rl=rl, fl=fl, clerr=err, info=info)
    return LoopSpec(inv, havoc)


def inner():
    v, n = W["v"], W["n"]

    def inv(env, k):
        xl = env.get("xl")
        if not isinstance(xl, SArr):
            raise Unsupported("the step is not kept in xl")
        out = [("step.length", z3i(xl.shape[0]) == n.re)]
        if W["monopole"]:
            out.append(("step.monopole", re(xl.at(z3.IntVal(0))) == 0))
        return out

    def havoc(env, k):
        xl = unknown("xl", (n,))
        return {"xl": xl}
    return LoopSpec(inv, havoc)


def start(v, gl):
    """the starting point"""
    p, n = W["p"], W["n"].re
    ini = W["initial"]
    g = re(gl.at(p))
    if ini is not None:
        want = z3.If(p < z3i(ini.shape[0]), re(ini.at(p)), z3.RealVal(0))
    else:
        # the spectrum of the inverse transformation of the target's correlations
        it = [x for x in W["made"].items() if x[1][0] == "icorr"]
        src = [nm for nm, x in W["made"].items() if x[0] == "corrtocl" and name_of(x[1]) in dict(it)]
        if len(src) != 1:
            raise Unsupported("starting point")
        x = W["made"][src[0]][1]
        _, t1, t2, c = made(x, "icorr")
        v.prove("start.transformation", {t1, t2} == set(W["t"]))
        _, c0 = made(c, "cltocorr")
        v.prove("start.target", re(c0.at(p)) == re(W["cl"].at(p)))
        want = z3.Function(src[0], I, R)(p)
    if W["monopole"]:
        want = z3.If(p == 0, W["m"].re, want)
    v.prove("start.value", g == want)


def setup(v, monopole, initial, two, handles=(True, True)):
    n = v.int("n", lo=1)
    pad = v.int("pad", lo=0)
    W.clear()
    W.update(v=v, n=n, pad=pad, made={}, errors=[], monopole=monopole)
    W["p"] = v.ix("mode", n)
    W["pp"] = v.ix("padded", Sc("i", n.re + pad.re))
    W["cl"] = v.arr("cl", (n,))
    W["gt_of"] = lambda gt, g: W["corr_of"](gt)

    def corr_of(gt):
        made(gt, "cltocorr")
        return gt
    W["corr_of"] = corr_of
    a, b = Field("a", handles[0]), Field("b", handles[1])
    W["t"] = (a, b) if two else (a, a)
    W["gltol"], W["cltol"] = v.real("gltol", lo=0), v.real("cltol", lo=0)
    kw = dict(pad=pad, gltol=W["gltol"], cltol=W["cltol"], maxiter=v.int("maxiter", lo=0))
    if monopole:
        W["m"] = v.real("monopole")
        kw["monopole"] = W["m"]
    W["initial"] = None
    if initial:
        W["initial"] = v.arr("initial", (v.int("size", lo=0),))
        kw["initial"] = W["initial"]
    return kw


def solver(monopole, initial, two, handles=(True, True)):
    tag = ",".join(x for x, c in (("monopole", monopole), ("initial", initial), ("pair", two), ("second", not handles[0])) if c)

    @harness(f"solve[{tag}]", funcs=[S, "glass.grf._core.corr", "glass.grf._core.icorr", "glass.grf._core.dcorr"], stubs=transforms,
             loops=lambda: {S + ":for1": outer, S + ":while1": inner})
    def h(v):
        kw = setup(v, monopole, initial, two, handles)
        fn = v.fn(S)
        if not hasattr(v.mod("glass.grf._solver"), "_relerr"):
            raise Unsupported("no error function")
        v.replace("glass.grf._solver._relerr", relerr)
        v.cover()
        out = v.call(fn, W["cl"], *W["t"][:2 if two else 1], **kw)
        v.prove("three-results", isinstance(out, tuple) and len(out) == 3)
        gl, rl, info = out
        v.dims("solution", gl, (W["n"],))
        v.dims("realised", rl, (Sc("i", W["n"].re + W["pad"].re),))
        for nm, cnd in forward(v, "result", rl, gl)[0]:
            v.prove(nm, cnd)
        if monopole:
            v.prove("monopole", re(gl.at(z3.IntVal(0))) == W["m"].re)
        if isinstance(info, Sc):
            raise Unsupported("flags")
        v.prove("flags", info in (0, 1, 2, 3))
        p = W["p"]
        err = None
        for E, dx, x in W["errors"]:
            if v.c.entails(z3.And(*[c for _, c in error_of(v, E, rl)])):
                err = E
        if err is None:
            raise Unsupported("error of the result")
        v.prove("never-worse", err <= W["err0"])
        if info & 1:
            v.prove("spectrum-flag", err <= W["cltol"].re)
            d, c = re(rl.at(p)) - re(W["cl"].at(p)), re(W["cl"].at(p))
            a = lambda t: z3.If(t >= 0, t, -t)
            cond = z3.And(c != 0, p > 0) if monopole else c != 0
            v.prove("spectrum-within-tolerance", z3.Implies(cond, a(d) <= W["cltol"].re * a(c)))
    return h


solver(False, False, True)
solver(True, False, True)
solver(False, True, False)
solver(True, True, True)
solver(False, False, False)
solver(False, False, True, (False, True))


@harness("relative-error", funcs=["glass.grf._solver._relerr"])
def error(v):
    n = v.int("n", lo=1)
    dx, x = v.arr("dx", (n,)), v.arr("x", (n,))
    v.cover()
    E = re(v.call(v.fn("glass.grf._solver._relerr"), dx, x))
    p = v.ix("p", n)
    d, y = re(dx.at(p)), re(x.at(p))
    a = lambda t: z3.If(t >= 0, t, -t)
    v.prove("nonnegative", E >= 0)
    v.prove("bound", z3.Implies(z3.And(d != 0, y != 0), a(d / y) <= E))
    v.prove("bound-times", z3.Implies(z3.And(d != 0, y > 0), z3.And(d <= E * y, -d <= E * y)), using=[z3.Implies(z3.And(d != 0, y != 0), a(d / y) <= E)])
    v.prove("bound-times-neg", z3.Implies(z3.And(d != 0, y < 0), z3.And(d <= E * -y, -d <= E * -y)), using=[z3.Implies(z3.And(d != 0, y != 0), a(d / y) <= E)])


@harness("rejects-negative-padding", funcs=[S], stubs=transforms)
def negative(v):
    kw = setup(v, False, False, True)
    kw["pad"] = v.int("negative", hi=-1)
    v.cover()
    k, e = v.attempt(v.fn(S), W["cl"], *W["t"], **kw)
    v.prove("rejected", k == "exc" and isinstance(e, ValueError))


# ------------------------------------------------------------------ one spectrum, and lists of spectra
@harness("compute", funcs=["glass.grf._core.compute", "glass.grf._core.icorr"], stubs=transforms)
def compute(v):
    """the spectrum of the inverse transformation of the correlations"""
    for two in (True, False):
        for handles in ((True, True), (False, True)) if two else ((True, True),):
            setup(v, False, False, two, handles)
            v.cover()
            a, b = W["t"]
            out = v.call(v.fn("glass.grf._core.compute"), W["cl"], *((a, b) if two else (a,)))
            v.dims("length", out, (W["n"],))
            _, x = made(out, "corrtocl")
            _, t1, t2, c = made(x, "icorr")
            v.prove("transformation", {t1, t2} == {a, b})
            _, c0 = made(c, "cltocorr")
            v.dims("target.length", c0, (W["n"],))
            v.prove("target", re(c0.at(W["p"])) == re(W["cl"].at(W["p"])))


class Nth:
    """the transformation at a position of the list of fields"""

    def __init__(self, i):
        self.i = i


G = z3.Function("gaussian", I, I, I, I, R)      # fields, spectrum, mode


def lists(which):
    @harness(f"spectra[{which}]", funcs=[f"glass.fields.{which}_gaussian_spectra"])
    def h(v):
        from contracts.util import locate, pair, triangle
        from pv.seq import SSeq
        from pv.tri import tri_n, trow
        n, t = triangle(v)
        sp = Spectra(v, t)
        fields = SSeq(n, lambda i: Nth(z3.simplify(i)))

        def enum(entries):
            if entries is not sp.seq:
                raise Unsupported("use of enumerate_spectra")

            def get(k):
                i = trow(k)
                return (Sc("i", i), Sc("i", z3.simplify(i - (k - tri_n(i)))), sp.get(k))
            return SSeq(t, get)
        v.replace("glass.fields.enumerate_spectra", enum)

        def solution(cl, t1, t2):
            x = re(cl.at(z3.Int("ix!probe0")))
            if not (z3.is_app(x) and x.decl().name() == "cl"):
                raise Unsupported("spectrum passed to the solver")
            k = x.arg(0)
            v.prove("whole-spectrum", z3i(cl.shape[0]) == sp.flen(k))
            return SArr(tuple(cl.shape), "r", memo(lambda l: Sc("r", G(t1.i, t2.i, k, l))), X.NUMPY)

        def solve(cl, t1, t2=None, *, pad=0, initial=None, monopole=None, **kw):
            if kw or initial is not None:
                raise Unsupported("options of the solver")
            zero = re(cl.at(z3.IntVal(0))) == 0
            v.prove("padding", z3i(pad) == 2 * z3i(cl.shape[0]))
            if monopole is None:
                v.prove("monopole-free", z3.Not(zero))
            else:
                v.prove("monopole-kept", z3.And(zero, re(monopole if isinstance(monopole, Sc) else Sc("r", z3.RealVal(monopole))) == 0))
            return solution(cl, t1, t1 if t2 is None else t2), cl, Sc("i", v.c.fresh("info", "i"))

        v.replace("glass.grf.solve", solve)
        v.replace("glass.grf.compute", lambda cl, t1, t2=None: solution(cl, t1, t1 if t2 is None else t2))
        v.cover()
        f = v.fn(f"glass.fields.{which}_gaussian_spectra")
        m = v.int("count", lo=0)
        v.assume(m.re != t.re)
        k, e = v.attempt(f, fields, Spectra(v, m, "other").seq)
        v.prove("mismatch-rejected", k == "exc" and isinstance(e, ValueError))
        out = v.call(f, fields, sp.seq)
        from pv.seq import to_seq
        out = to_seq(out)
        v.prove("count", z3i(out.n) == t.re)
        if not v.c.decide(t.re > 0):
            return
        i, j, p = pair(v, n, t)
        r = trow(p)
        locate(v, p, i, i - j, r, sym="trow")
        got = out.getter(p)
        v.dims("length", got, (Sc("i", sp.flen(p)),))
        if not v.c.decide(sp.flen(p) > 0):
            return
        l = v.ix("l", Sc("i", sp.flen(p)))
        x = re(got.at(l))
        for a in v.apps("gaussian", x):
            v.hint(a.arg(0) == i)
            v.hint(2 * tri_n(r) == r * (r + 1))
            v.hint(a.arg(1) == j)
        v.prove("solution", z3.Or(x == G(i, j, p, l), x == G(j, i, p, l)))
    return h


lists("solve")
lists("compute")
