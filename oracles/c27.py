"""C27: array backends on the real code."""
import numpy as np
from common import Rng, backend, backends, expect, expect_close

import glass
import glass._array_api_utils as uu
import glass.healpix as hp
import glass.rng

uxpx = uu.xp_additions


def name_of(a):
    return a.__array_namespace__().__name__ if hasattr(a, "__array_namespace__") else type(a).__name__


def same(b, got, want, what, /, **info):
    """got is an array of backend b with the values of want"""
    if isinstance(want, (tuple, list)):
        expect(type(got) is type(want) and len(got) == len(want), what + ": structure", got=repr(got)[:300], **info)
        for g, w in zip(got, want):
            same(b, g, w, what, **info)
        return
    if isinstance(want, dict):
        expect(isinstance(got, dict) and set(got) == set(want), what + ": structure", got=repr(got)[:300], **info)
        for k in want:
            same(b, got[k], want[k], what, **info)
        return
    if isinstance(want, np.ndarray):
        n = getattr(got, "__array_namespace__", None)
        expect(n is not None and n().__name__ == b.__name__, what + ": not in the caller's backend", got=type(got).__name__, **info)
        expect_close(np.asarray(got), want, what, rtol=1e-6 if "jax" in b.__name__ else 1e-10, **info)
        return
    if isinstance(want, (float, np.floating)):
        expect_close(np.asarray(got), np.asarray(want), what, rtol=1e-6, **info)
        return
    expect(got is want or got == want, what, got=got, want=want, **info)


def pick(r):
    return backend(["numpy", "strict", "jax"][r.choice(3, p=[0.3, 0.5, 0.2])])


def t_trapezoid(r):
    b = pick(r)
    sh = (int(r.integers(2, 6)), int(r.integers(2, 6)))
    y, ax, dx = r.normal(size=sh), int(r.integers(-1, 2)), float(r.uniform(0.1, 2))
    x = [None, np.cumsum(r.uniform(0.1, 1, sh[ax])), np.cumsum(r.uniform(0.1, 1, sh), axis=ax)][r.integers(3)]
    got = uxpx.trapezoid(b.asarray(y), None if x is None else b.asarray(x), dx=dx, axis=ax)
    same(b, got, np.asarray(np.trapezoid(y, x, dx=dx, axis=ax)), "trapezoid", y=y, x=x, dx=dx, axis=ax, backend=b.__name__)


def t_interp(r):
    b = pick(r)
    n = int(r.integers(2, 8))
    xs = np.cumsum(r.uniform(0.1, 1, n))
    ys = r.normal(size=n)
    x = r.uniform(-1, 8, int(r.integers(1, 9)))
    kw = [{}, {"left": -5.0}, {"right": 9.0}, {"left": 2.0, "right": 3.0}, {"period": 2.5}][r.integers(5)]
    got = uxpx.interp(b.asarray(x), b.asarray(xs), b.asarray(ys), **kw)
    if "period" in kw and "jax" in b.__name__:      # jax's own periodic interpolation differs from NumPy's in corner cases
        want = np.asarray(b.interp(b.asarray(x), b.asarray(xs), b.asarray(ys), **kw))
    else:
        want = np.asarray(np.interp(x, xs, ys, **kw))
    same(b, got, want, "interp", x=x, xs=xs, ys=ys, options=kw, backend=b.__name__)


def t_gradient(r):
    b = pick(r)
    f = r.normal(size=int(r.integers(2, 9)))
    same(b, uxpx.gradient(b.asarray(f)), np.gradient(f), "gradient", f=f, backend=b.__name__)


def t_lstsq(r):
    b = pick(r)
    n, m = int(r.integers(2, 6)), int(r.integers(1, 4))
    a, y = r.normal(size=(n, m)), r.normal(size=(n,))
    if r.random() < 0.3:
        a[:, -1] = a[:, 0] * (1 + 1e-4 * r.normal(size=n))
    kw = [{}, {"rcond": 1e-2}][r.integers(2)]
    got = uxpx.linalg_lstsq(b.asarray(a), b.asarray(y), **kw)
    want = np.linalg.lstsq(a, y, **kw)
    expect(len(got) == 4, "lstsq results", n=len(got))
    same(b, got[0], want[0], "lstsq", a=a, b=y, options=kw, backend=b.__name__)
    expect(int(got[2]) == int(want[2]), "lstsq rank", a=a, b=y)
    same(b, got[3], want[3], "lstsq singular values", a=a, b=y, backend=b.__name__)


def t_einsum(r):
    b = pick(r)
    a, c = r.normal(size=(3, 4)), r.normal(size=(4, 2))
    s, ops = [("ij,jk->ik", (a, c)), ("ij->ji", (a,)), ("ij,jk,ij->k", (a, c, a)), ("ij->", (a,))][r.integers(4)]
    same(b, uxpx.einsum(s, *(b.asarray(o) for o in ops)), np.asarray(np.einsum(s, *ops)), "einsum", subscripts=s, backend=b.__name__)


def t_along_axis(r):
    b = pick(r)
    sh = (int(r.integers(2, 5)), int(r.integers(2, 5)), int(r.integers(1, 4)))
    arr, ax = r.normal(size=sh), int(r.integers(-1, 3))
    xs = np.arange(sh[ax]) * 1.0
    x = r.uniform(-1, 5, 6)
    e = float(r.uniform(-1, 1))

    def f(q, w, t, extra, option=0.0):
        return uxpx.interp(q, w, t) * 2 + extra + option
    got = uxpx.apply_along_axis(f, (b.asarray(x), b.asarray(xs)), ax, b.asarray(arr), e, option=0.5)
    want = np.apply_along_axis(lambda t: np.interp(x, xs, t) * 2 + e + 0.5, ax, arr)
    same(b, got, want, "apply_along_axis", axis=ax, arr=arr, backend=b.__name__)


def t_angles(r):
    b = pick(r)
    a = r.uniform(-500, 500, [(3,), (2, 2), ()][r.integers(3)])
    a = np.asarray(a)
    same(b, uxpx.radians(b.asarray(a)), np.asarray(np.radians(a)), "radians", a=a, backend=b.__name__)
    same(b, uxpx.degrees(b.asarray(a)), np.asarray(np.degrees(a)), "degrees", a=a, backend=b.__name__)


def t_indices(r):
    b = pick(r)
    sh = tuple(int(x) for x in r.integers(0, 4, int(r.integers(0, 4))))
    expect(list(uxpx.ndindex(sh, xp=b)) == list(np.ndindex(sh)), "ndindex", shape=sh, backend=b.__name__)
    n, k, m = int(r.integers(1, 6)), int(r.integers(-3, 4)), [None, int(r.integers(1, 6))][r.integers(2)]
    same(b, tuple(uxpx.tril_indices(n, k=k, m=m, xp=b)), np.tril_indices(n, k=k, m=m), "tril_indices", n=n, k=k, m=m, backend=b.__name__)
    f = uxpx.vectorize(lambda x: x * 2 + 1, otypes=[np.float64], xp=b)
    x = r.normal(size=4)
    expect_close(np.asarray(f(x)), 2 * x + 1, "vectorize", x=x)


def t_fallback(r):
    b = pick(r)
    mk = lambda: r.normal(size=int(r.integers(1, 4)))
    seen = []

    def nest(depth):
        k = r.integers(0, 6 if depth < 3 else 2)
        if k <= 1:
            return mk()
        if k == 2:
            return [nest(depth + 1) for _ in range(int(r.integers(1, 3)))]
        if k == 3:
            return tuple(nest(depth + 1) for _ in range(int(r.integers(1, 3))))
        if k == 4:
            return {q: nest(depth + 1) for q in "ab"[:int(r.integers(1, 3))]}
        return [None, "text", 3, 2.5, True][r.integers(5)]

    def conv(o, f):
        if isinstance(o, np.ndarray):
            return f(o)
        if isinstance(o, (list, tuple)):
            return type(o)(conv(x, f) for x in o)
        if isinstance(o, dict):
            return {q: conv(x, f) for q, x in o.items()}
        return o
    args, kw, out = [mk(), nest(0), nest(0)], {"p": nest(0), "q": nest(0)}, nest(0)

    @uu.numpy_fallback
    def f(*a, **k):
        seen.append((list(a), k))
        return out
    extra = [{}, {"xp": b}, {"xp": None}][r.integers(3)]
    got = f(*(conv(a, b.asarray) for a in args), **{k: conv(w, b.asarray) for k, w in kw.items()}, **extra)
    expect(len(seen) == 1, "called once", n=len(seen))
    seen[0][1].pop("xp", None)
    same(np, seen[0][0], args, "arguments handed to the NumPy function", backend=b.__name__)
    same(np, seen[0][1], kw, "options handed to the NumPy function", backend=b.__name__)
    same(b, got, out, "result of the NumPy function", backend=b.__name__)


def t_rng(r):
    b = pick(r)
    n = int(r.integers(1, 6))
    base = Rng(r) if b.__name__ != "jax.numpy" else glass.rng.default_rng(seed=int(r.integers(1000)), xp=b)
    g = glass.rng.Generator(rng=base, xp=b)
    loc, sc = r.normal(size=n), r.uniform(0.5, 2, n)
    calls = [("random", ((n,),), {}), ("standard_normal", (n,), {}), ("normal", (b.asarray(loc), b.asarray(sc)), {}), ("normal", (1.5, 2.0, (2, n)), {}),
             ("uniform", (-1.0, 3.0, (n,)), {}), ("uniform", (), {"low": b.asarray(loc), "high": b.asarray(loc + 1)}), ("poisson", (b.asarray(sc * 10),), {}),
             ("poisson", (4.0, (n, 2)), {}), ("multinomial", (5, b.asarray(sc / sc.sum())), {})]
    m, a, k = calls[r.integers(len(calls))]
    if "jax" in b.__name__ and m == "multinomial":
        return
    x = getattr(g, m)(*a, **k)
    expect(name_of(x) == b.__name__, "draw is not in the caller's backend", method=m, backend=b.__name__, got=name_of(x))
    if isinstance(base, Rng):
        expect(len(base.calls) == 1, "one draw of the given generator", calls=[c[0] for c in base.calls])
        q = base.calls[0]
        expect(q[0] == m or {q[0], m} <= {"random", "uniform"} or {q[0], m} <= {"normal", "standard_normal"}, "method", got=q[0], want=m)
        if q[0] == m:
            expect_close(np.asarray(x), q[3], "draw is changed", method=m)
            pos = {"normal": ["loc", "scale"], "uniform": ["low", "high"], "poisson": ["lam"], "multinomial": ["n", "pvals"]}.get(m, [])
            vals = dict(zip(pos, a)) | {w: k[w] for w in k if w in pos}
            for i, w in enumerate(pos):
                if w in vals:
                    expect_close(np.asarray(q[1][i], dtype=float), np.asarray(vals[w], dtype=float), "parameter of the draw", method=m, parameter=w)


def t_seeds(r):
    b = pick(r)
    s = int(r.integers(10000))
    for f in (lambda **k: glass.rng.default_rng(xp=b, **k), lambda **k: glass.rng.Generator(xp=b, **k)):
        a, c, d = (np.asarray(f(**k).random((5,))) for k in ({}, {}, {"seed": s}))
        expect_close(a, c, "default generator is not fixed-seed", backend=b.__name__, rtol=0, atol=0)
        e = np.asarray(f(seed=s).random((5,)))
        expect_close(d, e, "same seed gives other numbers", seed=s, rtol=0, atol=0)
        if s != 42:
            expect(not np.allclose(a, d), "seed is ignored", seed=s, backend=b.__name__)
        if "jax" not in b.__name__:
            expect_close(d, np.random.default_rng(s).random((5,)), "not NumPy's generator of that seed", seed=s, rtol=0, atol=0)


def t_healpix(r):
    import healpix
    import healpy
    b = pick(r)
    ns = int(r.choice([1, 2, 4]))
    n, lm = 12 * ns * ns, int(r.integers(2, 2 * ns + 2))
    m, na = r.normal(size=n), (lm + 1) * (lm + 2) // 2
    alm = r.normal(size=na) + 1j * r.normal(size=na)
    alm2 = r.normal(size=na) + 1j * r.normal(size=na)
    alm[:lm + 1], alm2[:lm + 1] = alm[:lm + 1].real, alm2[:lm + 1].real
    fl = r.normal(size=int(r.integers(1, lm + 3)))
    lon, lat = r.uniform(0, 360, 5), r.uniform(-90, 90, 5)
    lo = bool(r.integers(2))
    t, p = (lon, lat) if lo else (np.radians(90 - lat), np.radians(lon))
    info = dict(nside=ns, lmax=lm, backend=b.__name__)
    A = b.asarray
    if r.random() < 0.6:
        same(b, hp.alm2map(A(alm), ns, lmax=lm, pol=False), healpy.alm2map(alm, ns, lmax=lm, pol=False), "alm2map", **info)
        same(b, hp.alm2map_spin([A(alm), A(alm2)], ns, 2, lm), list(healpy.alm2map_spin([alm, alm2], ns, 2, lm)), "alm2map_spin", **info)
        same(b, hp.map2alm(A(m), lmax=lm, pol=False), healpy.map2alm(m, lmax=lm, pol=False), "map2alm", **info)
    same(b, hp.almxfl(A(alm), A(fl)), healpy.almxfl(alm, fl), "almxfl", fl=fl, **info)
    same(b, hp.ang2pix(ns, A(t), A(p), lonlat=lo), healpix.ang2pix(ns, t, p, lonlat=lo), "ang2pix", lonlat=lo, **info)
    same(b, hp.ang2vec(A(t), A(p), lonlat=lo), tuple(healpix.ang2vec(t, p, lonlat=lo)), "ang2vec", lonlat=lo, **info)
    expect(hp.get_nside(A(m)) == ns and hp.npix2nside(n) == ns and hp.nside2npix(ns) == n, "pixel numbers", **info)
    rot = hp.Rotator(coord=["G", "E"])
    same(b, rot.rotate_map_pixel(A(m)), healpy.Rotator(coord=["G", "E"]).rotate_map_pixel(m), "rotate_map_pixel", **info)
    ip = r.integers(0, n, 20)
    x, y = hp.randang(ns, A(ip), lonlat=lo)
    expect(name_of(x) == b.__name__ and name_of(y) == b.__name__, "randang is not in the caller's backend", **info)
    expect((healpix.ang2pix(ns, np.asarray(x, dtype=float), np.asarray(y, dtype=float), lonlat=lo) == ip).all() or "jax" in b.__name__, "randang outside its pixel", ipix=ip, **info)
    th = np.sort(r.uniform(0.1, 3, 2))
    want = np.zeros(n)
    want[healpy.query_strip(ns, *th)] = 1
    got = hp.query_strip(ns, tuple(th), xp=b)
    expect(name_of(got) == b.__name__, "query_strip is not in the caller's backend", **info)
    expect((np.asarray(got) == want).all(), "query_strip", thetas=th, got=got, **info)
