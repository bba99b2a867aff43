"""C27: array backends are interchangeable: each helper evaluates the library function of the same name at the caller's arguments and
options, and hands its result back in the caller's backend."""
import z3

from pv import stubs as S, xp as X
from pv.arr import SArr
from pv.core import Unsupported, ctx, z3b, z3i
from pv.harness import harness
from pv.seq import SSeq
from pv.stubs import event, events
from pv.vals import Sc, cast, lift

U = "glass._array_api_utils."
A = U + "xp_additions."
H = "glass.healpix."
G = "glass.rng."
BACK = {"numpy": X.NUMPY, "strict": X.STRICT, "jax": X.JAXNP}
R, I = z3.RealSort(), z3.IntSort()


def fresh(shape, k, xp, name="lib"):
    c = ctx()
    mk = lambda p: c.fresh_fun(name + p, len(shape), "i" if k == "i" else "r") if shape else None
    f, g = mk(""), mk("i") if k == "c" else None
    if k == "c":
        return SArr(shape, "c", lambda *i: Sc("c", f(*i), g(*i)), xp)
    return SArr(shape, k, lambda *i: Sc(k, f(*i)), xp)


class Library:
    """stand-in for one library function: records its arguments and gives an arbitrary result"""

    def __init__(self, name, ns, params, result, star=None):
        self.name, self.ns, self.params, self.result, self.star = name, ns, params, result, star

    def __call__(self, *a, **k):
        names = [p[0] for p in self.params]
        if len(a) > len(names) and self.star is None:
            raise Unsupported(f"{self.name}: too many arguments")
        got = {p[0]: p[1] for p in self.params if len(p) > 1}
        got.update(zip(names, a))
        if self.star is not None:
            got[self.star] = list(a[len(names):])
        for q, w in k.items():
            if q not in names:
                if self.star is None:
                    raise Unsupported(f"{self.name}: option {q}")
                got.setdefault("**", {})[q] = w
            else:
                got[q] = w
        missing = [q for q in names if q not in got]
        if missing:
            raise Unsupported(f"{self.name}: {missing} missing")
        frozen = {q: freeze(w, self.ns, self.name) for q, w in got.items()}
        res = self.result(self.ns)
        event("lib", name=self.name, ns=self.ns, args=frozen, result=freeze(res, None, self.name))
        return res


def freeze(x, ns, name):
    """content at the time of the call"""
    if isinstance(x, SArr):
        if ns is not None and x.xp is not ns and not (ns is X.NUMPY and x.xp is X.STRICT):      # NumPy converts array-api-strict arrays
            raise Unsupported(f"{name}: argument of another backend")
        return SArr(x.shape, x.k, x.copy_().reader(), x.xp)
    if isinstance(x, (list, tuple)):
        return type(x)(freeze(q, ns, name) for q in x)
    return x


def install(name, params, result, spaces, star=None, obj=None):
    for b in BACK.values():
        target = obj or b
        fn = Library(name, b if obj is None else X.NUMPY, params, result, star)
        if name.startswith("linalg."):
            object.__setattr__(b.linalg, name[7:], fn if b in spaces else absent(name))
        elif obj is not None:
            setattr(obj, name, fn)
        else:
            object.__setattr__(b, name, fn if b in spaces else absent(name))
    if name == "trapezoid":
        S.JSCIPY.integrate.trapezoid = Library(name, X.JAXNP, params, result, star)


def absent(name):
    def f(*a, **k):
        raise AttributeError(name)
    return f


LIBS = (X.NUMPY, X.JAXNP)       # array-api-strict has none of these functions


def equal(v, label, got, want):
    """same structure and same values"""
    if isinstance(want, SArr) or isinstance(got, SArr):
        if not (isinstance(want, SArr) and isinstance(got, SArr)):
            v.c.fail(label, f"{type(got).__name__} instead of {type(want).__name__}")
            return
        v.dims(label + ".shape", got, want.shape)
        i = tuple(z3.FreshConst(I, "ix!e") for _ in want.shape)
        inb = z3.And(z3.BoolVal(True), *[z3.And(q >= 0, q < z3i(s)) for q, s in zip(i, want.shape)])
        a, b = got.at(*i), want.at(*i)
        k = "c" if "c" in (a.k, b.k) else "r"
        a, b = cast(a, k), cast(b, k)
        v.prove(label, z3.Implies(inb, z3.And(a.re == b.re, a.im == b.im) if k == "c" else a.re == b.re))
    elif isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            v.c.fail(label, f"{got!r:.80} instead of {len(want)} items")
            return
        for q, (a, b) in enumerate(zip(got, want)):
            equal(v, f"{label}.{q}", a, b)
    elif isinstance(want, dict):
        if not isinstance(got, dict) or sorted(map(str, got)) != sorted(map(str, want)):
            v.c.fail(label, f"keys {got!r:.80}")
            return
        for q in want:
            equal(v, f"{label}.{q}", got[q], want[q])
    elif isinstance(want, Sc) or isinstance(got, Sc):
        if not isinstance(want, (Sc, int, float)) or not isinstance(got, (Sc, int, float)):
            v.c.fail(label, f"{got!r:.80} instead of {want!r:.80}")
            return
        v.prove(label, same(got, want))
    else:
        v.prove(label, z3.BoolVal(got is want or (type(got) is type(want) and got == want)))


def backend_of(v, label, got, xp):
    if isinstance(got, SArr):
        if got.xp is not xp:
            v.c.fail(label, f"returned in the backend {got.xp.name}, the caller's is {xp.name}")
        else:
            v.prove(label, z3.BoolVal(True))
    elif isinstance(got, dict):
        for q in got.values():
            backend_of(v, label, q, xp)
    elif isinstance(got, (list, tuple)):
        for q in got:
            backend_of(v, label, q, xp)


def one_call(name, v=None):
    es = [e for e in events("lib")]
    if len(es) != 1 or es[0].name != name:
        raise Unsupported(f"{name}: evaluated in another way")
    return es[0]


def check(v, name, out, /, space, **want):
    e = one_call(name)
    for q, w in want.items():
        equal(v, f"argument.{q}", e.args.get(q), w)
    equal(v, "result", out, e.result)
    backend_of(v, "backend", out, space)
    return e


def same(a, b):
    if not isinstance(a, Sc) and not isinstance(b, Sc):
        return z3.BoolVal(type(a) is type(b) and a == b)
    if not all(isinstance(q, (Sc, int, float)) for q in (a, b)):
        return z3.BoolVal(False)
    return cast(lift(a), "r").re == cast(lift(b), "r").re


def helper(name, b, opts=""):
    def deco(f):
        @harness(f"{name}[{b}{',' + opts if opts else ''}]", funcs=[A + name])
        def h(v):
            xp = BACK[b]
            v.cover()
            f(v, xp, v.mod("glass._array_api_utils").xp_additions)
        return h
    return deco


def all_helpers(b):
    for kx in ("x", "none"):
        for ax in (-1, 0):
            @helper("trapezoid", b, f"{kx},{ax}")
            def trapezoid(v, xp, u, kx=kx, ax=ax):
                n, m = v.int("n", lo=1), v.int("m", lo=1)
                y = v.arr("y", (n, m), xp=xp)
                x = v.arr("x", (n, m), xp=xp) if kx == "x" else None
                dx = v.real("dx")
                install("trapezoid", [("y",), ("x", None), ("dx", 1.0), ("axis", -1)], lambda ns: fresh((v.int("r", lo=0),), "r", ns), LIBS)
                out = v.call(u.trapezoid, y, x, dx=dx, axis=ax)
                e = check(v, "trapezoid", out, xp, y=y, dx=dx)
                g = e.args["axis"]
                v.prove("argument.axis", z3.BoolVal(isinstance(g, int) and g % 2 == ax % 2))
                equal(v, "argument.x", e.args["x"], x)
    for opt in ("none", "given"):
        @helper("interp", b, opt)
        def interp(v, xp, u, opt=opt):
            n, m = v.int("n", lo=1), v.int("m", lo=1)
            x, px, py = v.arr("x", (m,), xp=xp), v.arr("xs", (n,), xp=xp), v.arr("ys", (n,), xp=xp)
            kw = dict(left=v.real("left"), right=v.real("right"), period=v.real("period")) if opt == "given" else {}
            install("interp", [("x",), ("xp",), ("fp",), ("left", None), ("right", None), ("period", None)],
                    lambda ns: fresh((m,), "r", ns), LIBS)
            out = v.call(u.interp, x, px, py, **kw)
            check(v, "interp", out, xp, x=x, xp=px, fp=py, **(kw or dict(left=None, right=None, period=None)))

    @helper("gradient", b)
    def gradient(v, xp, u):
        n = v.int("n", lo=2)
        f = v.arr("f", (n,), xp=xp)
        install("gradient", [("f",)], lambda ns: fresh((n,), "r", ns), LIBS)
        check(v, "gradient", v.call(u.gradient, f), xp, f=f)

    for opt in ("none", "given"):
        @helper("linalg_lstsq", b, opt)
        def lstsq(v, xp, u, opt=opt):
            n, m, k = v.int("n", lo=1), v.int("m", lo=1), v.int("k", lo=1)
            a, y = v.arr("a", (n, m), xp=xp), v.arr("b", (n, k), xp=xp)
            kw = dict(rcond=v.real("rcond")) if opt == "given" else {}
            rank = v.int("rank")

            def res(ns):
                return (fresh((m, k), "r", ns), fresh((k,), "r", ns), fresh((), "i", ns) if False else rank, fresh((m,), "r", ns))
            install("linalg.lstsq", [("a",), ("b",), ("rcond", None)], res, LIBS)
            out = v.call(u.linalg_lstsq, a, y, **kw)
            e = one_call("linalg.lstsq")
            equal(v, "argument.a", e.args["a"], a)
            equal(v, "argument.b", e.args["b"], y)
            equal(v, "argument.rcond", e.args["rcond"], kw.get("rcond"))
            if len(out) != 4:
                v.c.fail("result", f"{len(out)} results instead of 4")
                return
            for q in (0, 1, 3):
                equal(v, f"result.{q}", out[q], e.result[q])
                backend_of(v, "backend", out[q], xp)
            r = out[2].at() if isinstance(out[2], SArr) else out[2]
            v.prove("result.2", same(r, rank))

    @helper("einsum", b)
    def einsum(v, xp, u):
        n, m, k = v.int("n", lo=1), v.int("m", lo=1), v.int("k", lo=1)
        a, w = v.arr("a", (n, m), xp=xp), v.arr("b", (m, k), xp=xp)
        install("einsum", [("subscripts",)], lambda ns: fresh((n, k), "r", ns), LIBS, star="operands")
        check(v, "einsum", v.call(u.einsum, "ij,jk->ik", a, w), xp, subscripts="ij,jk->ik", operands=[a, w])

    for ax in (0, 1):
        @helper("apply_along_axis", b, str(ax))
        def along(v, xp, u, ax=ax):
            n, m = v.int("n", lo=1), v.int("m", lo=1)
            p, q, a = v.arr("p", (n,), xp=xp), v.arr("q", (m,), xp=xp), v.arr("a", (n, m), xp=xp)
            install("apply_along_axis", [("func1d",), ("axis",), ("arr",)], lambda ns: fresh((n, m), "r", ns), LIBS, star="args")
            seen = []
            extra, opt, res = v.real("extra"), v.real("option"), v.real("value")

            def func(*args, **kw):
                seen.append((args, kw))
                return res
            out = v.call(u.apply_along_axis, func, (p, q), ax, a, extra, option=opt)
            e = check(v, "apply_along_axis", out, xp, arr=a, axis=ax)
            ex, kw = e.args["args"], e.args.get("**", {})
            t = v.arr("t", (n,), xp=e.ns)
            got = v.call(e.args["func1d"], t, *ex, **kw)
            v.prove("function.value", same(got, res))
            if len(seen) != 1:
                raise Unsupported("the function is not evaluated once")
            equal(v, "function.arguments", list(seen[0][0]), [p, q, t, extra])
            equal(v, "function.options", seen[0][1], {"option": opt})
            for w in seen[0][0][:3]:
                backend_of(v, "function.backend", w, e.ns)

    @helper("vectorize", b)
    def vectorize(v, xp, u):
        mark = object()
        f, ot = (lambda x: x), [xp.float64]
        spaces = [X.NUMPY]
        install("vectorize", [("pyfunc",), ("otypes", None)], lambda ns: mark, spaces)
        out = v.call(u.vectorize, f, ot, xp=xp)
        e = one_call("vectorize")
        v.prove("function", z3.BoolVal(e.args["pyfunc"] is f and e.ns is X.NUMPY and out is mark))
        v.prove("types", z3.BoolVal(e.args["otypes"] is ot or e.args["otypes"] == ot))

    for nm in ("radians", "degrees"):
        @helper(nm, b)
        def angle(v, xp, u, nm=nm):
            n = v.int("n", lo=1)
            a = v.arr("a", (n,), xp=xp)
            install(nm, [("x",)], lambda ns: fresh((n,), "r", ns), LIBS)
            check(v, nm, v.call(getattr(u, nm), a), xp, x=a)

    @helper("ndindex", b)
    def ndindex(v, xp, u):
        mark, shape = object(), (v.int("n"), v.int("m"))
        install("ndindex", [("shape",)], lambda ns: mark, [X.NUMPY])
        out = v.call(u.ndindex, shape, xp=xp)
        e = one_call("ndindex")
        equal(v, "shape", e.args["shape"], shape)
        v.prove("enumeration", z3.BoolVal(out is mark and e.ns is X.NUMPY))

    for opt in ("default", "given"):
        @helper("tril_indices", b, opt)
        def tril(v, xp, u, opt=opt):
            n, r = v.int("n", lo=1), v.int("r", lo=0)
            kw = dict(k=v.int("k"), m=v.int("m", lo=1)) if opt == "given" else {}
            install("tril_indices", [("n",), ("k", 0), ("m", None)], lambda ns: (fresh((r,), "i", ns), fresh((r,), "i", ns)), LIBS)
            out = v.call(u.tril_indices, n, xp=xp, **kw)
            if not isinstance(out, tuple):
                out = tuple(out)
            check(v, "tril_indices", out, xp, n=n, **(kw or dict(k=0, m=None)))


for _b in BACK:
    all_helpers(_b)


# ------------------------------------------------------------------ functions that fall back to NumPy
def nestings(v, mk):
    """several nestings of arrays and other objects"""
    a = [mk(f"a{q}") for q in range(7)]
    s = v.real("s")
    return {
        "plain": ((a[0], s), {}),
        "list": (([a[0], a[1]], "text"), {"option": None}),
        "tuple": (((a[0], (a[1], a[2])), 3), {"flag": True}),
        "dict": (({"p": a[0], "q": {"r": [a[1]]}},), {"more": (a[2], [a[3], s])}),
        "keyword": ((1, "name"), {"arr": a[4], "d": {"x": (a[5], {"y": a[6]})}}),
    }


def fallback(b, kind, xpkw):
    @harness(f"numpy_fallback[{b},{kind},{xpkw}]", funcs=[U + "numpy_fallback"])
    def h(v):
        xp = BACK[b]
        n = v.int("n", lo=1)
        args, kw = nestings(v, lambda q: v.arr(q, (n,), xp=xp))[kind]
        out = nestings(v, lambda q: fresh((n,), "r", X.NUMPY, "o" + q))[kind]
        out = (out[0], out[1])
        got = []

        def f(*a, **k):
            got.append((a, k))
            return out
        v.cover()
        g = v.call(v.mod("glass._array_api_utils").numpy_fallback, f)
        extra = {"xp": xp} if xpkw == "xp" else {"xp": None} if xpkw == "none" else {}
        res = v.call(g, *args, **kw, **extra)
        if len(got) != 1:
            v.c.fail("called", f"the function is evaluated {len(got)} times")
            return
        equal(v, "arguments", list(got[0][0]), list(args))
        equal(v, "options", {q: w for q, w in got[0][1].items() if q != "xp"}, kw)
        backend_of(v, "numpy", got[0], X.NUMPY)
        equal(v, "result", res, out)
        backend_of(v, "backend", res, xp)
    return h


for _b in BACK:
    for _k in ("plain", "list", "tuple", "dict", "keyword"):
        fallback(_b, _k, "no")
    fallback(_b, "list", "xp")
    fallback(_b, "dict", "none")


@harness("numpy_fallback[no arrays]", funcs=[U + "numpy_fallback"])
def no_arrays(v):
    mark, s = object(), v.real("s")
    got = []

    def f(*a, **k):
        got.append((a, k))
        return mark
    v.cover()
    out = v.call(v.mod("glass._array_api_utils").numpy_fallback(f), s, 3, "text", option=None)
    v.prove("called", z3.BoolVal(out is mark and len(got) == 1))
    equal(v, "arguments", list(got[0][0]), [s, 3, "text"])
    equal(v, "options", got[0][1], {"option": None})


# ------------------------------------------------------------------ the HEALPix functions
def pixels(b):
    xp = BACK[b]
    HP, HX = S.HEALPY, S.HEALPIX

    def mk(name, lib, obj, params, build, result, want=None):
        """build(v, xp) -> (args, kwargs, expected arguments of the library)"""
        @harness(f"{name}[{b}]", funcs=[H + name])
        def h(v):
            v.cover()
            args, kw, exp = build(v, xp)
            install(lib, params, lambda ns: result(v), None, obj=obj)
            out = v.call(v.fn(H + name), *args, **kw)
            e = one_call(lib)
            for q, w in exp.items():
                equal(v, f"argument.{q}", e.args.get(q), w)
            equal(v, "result", out, e.result)
            backend_of(v, "backend", out, xp)
        return h

    def arr(v, nm, k="r"):
        return v.arr(nm, (v.int("n_" + nm, lo=1),), k, xp=xp)

    res = lambda v: fresh((v.int("nr", lo=1),), "r", X.NUMPY)
    two = lambda v: (res(v), fresh((v.int("nr2", lo=1),), "r", X.NUMPY))

    def alm2map(v, xp):
        kw = dict(inplace=True, lmax=v.int("lmax", lo=0), pixwin=True, pol=False)
        a, ns = arr(v, "alm", "c"), v.int("nside", lo=1)
        return (a, ns), kw, dict(alms=a, nside=ns, **kw)
    par = [("alms",), ("nside",), ("lmax", None), ("mmax", None), ("pixwin", False), ("fwhm", 0.0), ("sigma", None), ("pol", True), ("inplace", False)]
    mk("alm2map", "alm2map", HP, par, alm2map, res)

    def spin(v, xp):
        a, w, ns, s, l = arr(v, "e", "c"), arr(v, "b", "c"), v.int("nside", lo=1), v.int("spin"), v.int("lmax", lo=0)
        return ([a, w], ns, s, l), {}, dict(alms=[a, w], nside=ns, spin=s, lmax=l)
    mk("alm2map_spin", "alm2map_spin", HP, [("alms",), ("nside",), ("spin",), ("lmax",), ("mmax", None)], spin, lambda v: list(two(v)))

    def almxfl(v, xp):
        a, f = arr(v, "alm", "c"), arr(v, "fl")
        return (a, f), {}, dict(alm=a, fl=f, inplace=False)
    mk("almxfl", "almxfl", HP, [("alm",), ("fl",), ("mmax", None), ("inplace", False)], almxfl, lambda v: fresh((v.int("nr", lo=1),), "c", X.NUMPY))

    def ang(v, xp):
        t, p, ns = arr(v, "theta"), arr(v, "phi"), v.int("nside", lo=1)
        return (ns, t, p), dict(lonlat=True), dict(nside=ns, theta=t, phi=p, lonlat=True)
    mk("ang2pix", "ang2pix", HX, [("nside",), ("theta",), ("phi",), ("nest", False), ("lonlat", False)], ang, lambda v: fresh((v.int("nr", lo=1),), "i", X.NUMPY))

    def vec(v, xp):
        t, p = arr(v, "theta"), arr(v, "phi")
        return (t, p), dict(lonlat=True), dict(theta=t, phi=p, lonlat=True)
    mk("ang2vec", "ang2vec", HX, [("theta",), ("phi",), ("lonlat", False)], vec, lambda v: (*two(v), res(v)))

    def m2a(v, xp):
        m = arr(v, "map")
        kw = dict(lmax=v.int("lmax", lo=0), pol=False, use_pixel_weights=True)
        return (m,), kw, dict(maps=m, **kw)
    mk("map2alm", "map2alm", HP, [("maps",), ("lmax", None), ("mmax", None), ("iter", 3), ("pol", True), ("use_weights", False), ("datapath", None),
                                  ("gal_cut", 0), ("use_pixel_weights", False)], m2a, lambda v: fresh((v.int("nr", lo=1),), "c", X.NUMPY))

    def rand(v, xp):
        p, ns = v.arr("ipix", (v.int("n", lo=1),), "i", xp=xp), v.int("nside", lo=1)
        return (ns, p), dict(lonlat=True), dict(nside=ns, ipix=p, lonlat=True)
    mk("randang", "randang", HX, [("nside",), ("ipix",), ("nest", False), ("lonlat", False), ("rng", None)], rand, two)

    for pol in (False, True):
        @harness(f"pixwin[{b},{'pol' if pol else 'scalar'}]", funcs=[H + "pixwin"])
        def pixwin(v, pol=pol):
            v.cover()
            ns, l = v.int("nside", lo=1), v.int("lmax", lo=0)
            install("pixwin", [("nside",), ("pol", False), ("lmax", None), ("datapath", None)], lambda q: two(v) if pol else res(v), None, obj=HP)
            out = v.call(v.fn(H + "pixwin"), ns, lmax=l, pol=pol, xp=xp)
            e = one_call("pixwin")
            equal(v, "arguments", [e.args["nside"], e.args["lmax"], e.args["pol"]], [ns, l, pol])
            equal(v, "result", out, e.result)
            backend_of(v, "backend", out, xp)

    @harness(f"rotate_map_pixel[{b}]", funcs=[H + "Rotator"])
    def rotate(v):
        v.cover()
        m = arr(v, "map")
        r = v.call(v.mod("glass.healpix").Rotator, coord=["G", "E"])
        out = v.call(r.rotate_map_pixel, m)
        es = events("rotate")
        if len(es) != 1:
            raise Unsupported("rotated in another way")
        equal(v, "coord", list(es[0].coord), ["G", "E"])
        equal(v, "map", es[0].map, m)
        equal(v, "result", out, es[0].result)
        backend_of(v, "backend", out, xp)


for _b in BACK:
    pixels(_b)


@harness("pixel-numbers", funcs=[H + "npix2nside", H + "nside2npix", H + "get_nside"])
def numbers(v):
    v.cover()
    ns = v.int("nside", lo=1)
    HX = S.HEALPIX
    r1, r2 = v.int("r1"), v.int("r2")
    install("nside2npix", [("nside",)], lambda q: r1, None, obj=HX)
    install("npix2nside", [("npix",)], lambda q: r2, None, obj=HX)
    a = v.call(v.fn(H + "nside2npix"), ns)
    b = v.call(v.fn(H + "npix2nside"), ns)
    es = events("lib")
    if [e.name for e in es] != ["nside2npix", "npix2nside"]:
        raise Unsupported("evaluated in another way")
    v.prove("values", z3.And(same(a, r1), same(b, r2), same(es[0].args["nside"], ns), same(es[1].args["npix"], ns)))


# ------------------------------------------------------------------ random numbers
class Draws:
    """stand-in for a generator of another library: records the method and its arguments"""

    def __init__(self, v, xp):
        self.v, self.xp, self.calls = v, xp, []

    def __getattr__(self, m):
        if m.startswith("__"):
            raise AttributeError(m)
        par = SIG.get(m)
        if par is None:
            raise Unsupported(f"draw by {m}")

        def f(*a, **k):
            got = {p[0]: p[1] for p in par if len(p) > 1}
            got.update(zip([p[0] for p in par], a))
            got.update(k)
            r = fresh((self.v.int("nr", lo=0),), "i" if m in ("poisson", "multinomial") else "r", self.xp)
            self.calls.append((m, got, r))
            return r
        return f


SIG = {"random": [("size", None), ("dtype", None)], "standard_normal": [("size", None), ("dtype", None)],
       "normal": [("loc", 0.0), ("scale", 1.0), ("size", None)], "uniform": [("low", 0.0), ("high", 1.0), ("size", None)],
       "poisson": [("lam", 1.0), ("size", None)], "multinomial": [("n",), ("pvals",), ("size", None)]}


def wrapper(b, m, dflt):
    @harness(f"Generator.{m}[{b},{'default' if dflt else 'given'}]", funcs=[G + "Generator." + m, G + "Generator.__init__"])
    def h(v):
        xp = BACK[b]
        v.cover()
        d = Draws(v, X.JAXNP if b == "jax" else X.NUMPY)
        g = v.call(v.fn(G + "Generator"), rng=d, xp=xp)
        n = v.int("n", lo=1)
        full = {"loc": v.real("loc"), "scale": v.arr("scale", (n,), xp=xp), "low": v.real("low"), "high": v.arr("high", (n,), xp=xp),
                "lam": v.arr("lam", (n,), xp=xp), "n": v.int("trials", lo=0), "pvals": v.arr("p", (n,), xp=xp), "size": (n,), "dtype": xp.float64}
        must = {"poisson": ["lam"], "multinomial": ["n", "pvals"]}.get(m, [])
        kw = {p[0]: full[p[0]] for p in SIG[m] if not dflt or p[0] in must}
        out = v.call(getattr(g, m), **kw)
        if len(d.calls) != 1 or d.calls[0][0] != m:
            raise Unsupported("drawn in another way")
        got = d.calls[0][1]
        for p in SIG[m]:
            if p[0] == "dtype":
                continue
            want = kw.get(p[0], p[1] if len(p) > 1 else None)
            if isinstance(want, float) and isinstance(got[p[0]], (int, float)):
                v.prove(f"argument.{p[0]}", z3.BoolVal(want == got[p[0]]))
            else:
                equal(v, f"argument.{p[0]}", got[p[0]], want)
        equal(v, "result", out, d.calls[0][2])
        backend_of(v, "backend", out, xp)
        if m in ("random", "standard_normal"):
            v.prove("dtype", z3.BoolVal(out.k == "r"))
    return h


for _b in BACK:
    for _m in SIG:
        wrapper(_b, _m, False)
        wrapper(_b, _m, True)


def seeded(b, how):
    @harness(f"{how}[{b}]", funcs=[G + "default_rng", G + "Generator.__init__"])
    def h(v):
        xp = BACK[b]
        v.cover()
        f = v.fn(G + ("default_rng" if how == "default_rng" else "Generator"))
        s = v.int("seed", lo=0)
        g0 = v.call(f, xp=xp)
        g1 = v.call(f, seed=s, xp=xp)
        es = events("key") if b == "jax" else events("default_rng")
        if len(es) != 2 or (events("default_rng") if b == "jax" else events("key")):
            raise Unsupported("generators are made in another way")
        d = es[0].seed
        v.prove("default.fixed", z3.BoolVal(isinstance(d, int) or (isinstance(d, Sc) and z3.is_int_value(z3.simplify(d.re)))))
        v.prove("default.seed", same(d, v.mod("glass.rng").SEED))
        v.prove("seed", same(es[1].seed, s))
        x = v.call(g1.random, (v.int("n", lo=1),))
        backend_of(v, "backend", x, xp)
        if how != "default_rng":
            v.prove("backend.kept", z3.BoolVal(g1.xp is xp))
    return h


for _b in BACK:
    seeded(_b, "default_rng")
    seeded(_b, "Generator")

ASSUMPTIONS = [
    "the library functions themselves (numpy and jax.numpy trapezoid, interp, gradient, lstsq, einsum, apply_along_axis, radians, degrees, vectorize, "
    "ndindex, tril_indices; healpy and healpix; the generators' draws) compute the function of their documentation; jax.numpy's and numpy's agree",
    "conversions between array libraries (asarray) keep shape and values",
]
LEVEL_NOTE = ("every helper on each of the three backends, arrays of any size and content; nested arguments: five representative nestings "
              "(lists, tuples, dictionaries, keywords), deeper ones follow the same recursion and are only run")
