"""Contracts (assumed) of the external packages that glass calls: random generators, HEALPix, transformcl, jax, files."""
from __future__ import annotations

import math as _math
import types

import z3

from . import arr, core, vals as V
from .arr import SArr, bshape, elementwise, exists, memo, asarr, bmap
from .core import Unsupported, ctx, z3b, z3i
from .seq import SSeq, is_symbolic_iter, to_seq
from .vals import Sc, cast, lift, sc, simp_dim
from .xp import AAC, BACKENDS, ITERTOOLS, JAXNP, MATH, NUMPY, STRICT, XPX, _mod, ns_of, shape_of

IV = z3.IntVal
I, R = z3.IntSort(), z3.RealSort()


def event(kind, **kw):
    e = types.SimpleNamespace(kind=kind, **kw)
    ctx().trace.append(e)
    return e


def events(kind=None):
    return [e for e in ctx().trace if not isinstance(e, tuple) and (kind is None or e.kind == kind)]


# ------------------------------------------------------------------ opaque functions of arrays
_OPQ = {}


def opaque(name, a, shape, k="r", xp=None, extra=()):
    """Array function without further contract: equal contents (and extra integer/real arguments) give equal results."""
    rd = a.reader()
    nd = a.ndim
    ks = [z3.FreshConst(I, "ix!o") for _ in range(nd)]
    e = rd(*ks)
    terms = [e.re] + ([e.im] if e.k == "c" else [])
    key = f"{name}"
    args = []
    for t in terms:
        kk, params, tmpl, kv, ps = arr._binder("opq", lambda *q, t=t: z3.substitute(t, *zip(ks, q)), nd)
        key += "|" + kk
        args += params
    args += [z3i(d) for d in a.shape]
    for x in extra:
        args.append(sc(x).re)
    srt = [x.sort() for x in args]
    key += str(srt)
    n = len(shape)
    if key not in _OPQ:
        t = len(_OPQ)
        _OPQ[key] = [z3.Function(f"{name}@{t}{p}", *srt, *([I] * n), {"r": R, "c": R, "i": I}[k])
                     for p in (("re", "im") if k == "c" else ("",))]
    fs = _OPQ[key]
    if k == "c":
        get = memo(lambda *i: Sc("c", fs[0](*args, *i), fs[1](*args, *i)))
    else:
        get = memo(lambda *i: Sc(k, fs[0](*args, *i)))
    return SArr(shape, k, get, xp or a.xp)


# ------------------------------------------------------------------ random number generators
core.unary_facts("Unif", lambda a: [a >= 0, a < 1])
core.unary_facts("Pois", lambda a: [z3.Implies(a.children()[-1] >= 0, a >= 0),
                                    z3.Implies(a.children()[-1] == 0, a == 0)])


def _size(size, *params):
    """Resulting shape of a draw with the given size argument and parameters."""
    b = ()
    for p in params:
        if isinstance(p, SArr):
            b, _, _ = bshape(b, p.shape)
    if size is None:
        return b
    s = shape_of(size)
    if b:
        out, fa, fb = bshape(b, tuple(s))
        if any(fb) or len(out) != len(s):
            raise ValueError("Output size is not compatible with broadcast dimensions of inputs.")
    return tuple(s)


def _read(p, shape):
    if isinstance(p, SArr):
        rd = p.reader()
        m = bmap(p.shape, tuple(simp_dim(d) for d in shape))
        return lambda *i: rd(*m(*i))
    s = lift(p)
    if s is None:
        raise TypeError("not a number")
    return lambda *i: s


class SymRng:
    """Generator of independent draws: every draw is a fresh function of the position."""

    def __init__(self, xp=NUMPY, tag="rng"):
        self.xp, self.tag = xp, tag

    def pv_subst(self, pairs):
        return self

    def _fun(self, base, nd, sort="r", extra=0):
        c = ctx()
        nm = c.fresh_name(base + "#")
        g = list(c.gstack)
        s = {"i": I, "r": R}[sort]
        f = z3.Function(nm, *([I] * (len(g) + nd)), *([R] * extra), s) if len(g) + nd + extra else z3.Const(nm, s)
        return (lambda *a: f(*g, *a)) if len(g) + nd + extra else (lambda *a: f)

    def _unif(self, nd):
        u = self._fun("Unif", nd)
        if nd == 0 and not ctx().gstack:
            ctx().assume(z3.And(u() >= 0, u() < 1))
        return u

    def _mk(self, shape, k, get, method, **kw):
        a = SArr(shape, k, memo(get), self.xp)
        res = arr.wrapres(a) if not shape else a
        e = event("draw", method=method, rng=self, result=res, shape=a.shape, **kw)
        e.raw = kw.get("raw")
        return res

    def random(self, size=None, dtype=None):
        shape = _size(size)
        u = self._unif(len(shape))
        return self._mk(shape, "r", lambda *i: Sc("r", u(*i)), "random", raw=u)

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = self._arr(low), self._arr(high)
        shape = _size(size, low, high)
        u = self._unif(len(shape))
        lo, hi = _read(low, shape), _read(high, shape)
        return self._mk(shape, "r", lambda *i: cast(lo(*i), "r") + (cast(hi(*i), "r") - cast(lo(*i), "r")) * Sc("r", u(*i)),
                        "uniform", raw=u, low=low, high=high)

    def _arr(self, x):
        if isinstance(x, SArr) and x.xp is not self.xp:
            return self.xp.asarray(x)
        return x

    def standard_normal(self, size=None, dtype=None):
        shape = _size(size)
        z = self._fun("Norm", len(shape))
        return self._mk(shape, "r", lambda *i: Sc("r", z(*i)), "standard_normal", raw=z)

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = self._arr(loc), self._arr(scale)
        shape = _size(size, loc, scale)
        z = self._fun("Norm", len(shape))
        l, s = _read(loc, shape), _read(scale, shape)
        return self._mk(shape, "r", lambda *i: cast(l(*i), "r") + cast(s(*i), "r") * Sc("r", z(*i)), "normal", raw=z, loc=loc,
                        scale=scale)

    def poisson(self, lam=1.0, size=None):
        lam = self._arr(lam)
        shape = _size(size, lam)
        l = _read(lam, shape)
        neg = exists(shape, lambda *i: cast(l(*i), "r").re < 0) if shape else (cast(l(), "r").re < 0)
        if ctx().decide(neg):
            raise ValueError("lam < 0 or lam contains NaNs")
        p = self._fun("Pois", len(shape), "i", 1)
        return self._mk(shape, "i", lambda *i: Sc("i", p(*i, cast(l(*i), "r").re)), "poisson", raw=p, lam=lam)

    def multinomial(self, n, pvals, size=None):
        n = sc(n)
        if not ctx().entails(n.re == 1):
            raise Unsupported("multinomial draw of more than one item")
        pvals = self._arr(pvals)
        shape = pvals.shape
        nd = len(shape) - 1
        f = self._fun("Mult", nd, "i")
        rd = pvals.reader()
        K = z3i(shape[-1])
        c = ctx()
        fact = lambda *i: z3.And(f(*i) >= 0, f(*i) < K, rd(*i, f(*i)).re > 0)
        if not nd:
            c.assume(fact())
        elif c.gstack:
            c.forall(fact, None, None, nvars=nd)
        else:
            nm = f(*[z3.IntVal(0)] * nd).decl().name()
            c.lunary.setdefault(nm, []).append(lambda a: [fact(*a.children())])
        return self._mk(shape, "i", lambda *i: Sc("i", z3.If(i[-1] == f(*i[:-1]), IV(1), IV(0))), "multinomial", raw=f, n=n,
                        pvals=pvals)


NPRANDOM = _mod("numpy.random", default_rng=lambda seed=None: _default_rng(seed), Generator=SymRng)


def _default_rng(seed):
    event("default_rng", seed=seed)
    r = SymRng(NUMPY, "default")
    r.seed = seed
    return r


# ------------------------------------------------------------------ HEALPix
pix_f = z3.Function("pixof", I, R, R, I)
core.unary_facts("pixof", lambda a: [z3.Implies(a.arg(0) >= 1, z3.And(a >= 0, a < 12 * a.arg(0) * a.arg(0)))])
pix_rad = z3.Function("pixofrad", I, R, R, I)
core.unary_facts("pixofrad", lambda a: [z3.Implies(a.arg(0) >= 1, z3.And(a >= 0, a < 12 * a.arg(0) * a.arg(0)))])
ell_f = z3.Function("ellof", I, I, I)      # degree of the coefficient at packed position p of an alm array of the given size


def nside2npix(n):
    n = sc(n)
    return simp_dim(n * n * 12)


def npix2nside(npix):
    c = ctx()
    n = z3i(npix)
    for h in c.store.get("nside_hints", []):
        if c.entails(z3.And(z3i(h) >= 1, n == 12 * z3i(h) * z3i(h))):
            return h if isinstance(h, int) else Sc("i", z3i(h))
    if c.choose("valid nside"):
        h = c.fresh("nside", "i")
        c.assume(z3.And(h >= 1, 12 * h * h == n))
        if not c.feasible(z3.BoolVal(True)):
            raise core.Infeasible
        return Sc("i", h)
    for h in c.store.get("nside_hints", []):
        c.assume(z3.Not(z3.And(z3i(h) >= 1, n == 12 * z3i(h) * z3i(h))))
    raise ValueError("Wrong pixel number (it is not 12*nside**2)")


def ang2pix(nside, theta, phi, nest=False, lonlat=False):
    f = pix_f if lonlat else pix_rad
    ns = z3i(nside)

    def op(a, b):
        return Sc("i", f(ns, cast(a, "r").re, cast(b, "r").re))

    return elementwise(op, theta, phi)


def randang(nside, ipix, nest=False, lonlat=False, rng=None):
    c = ctx()
    ns = z3i(nside)
    ip = ipix if isinstance(ipix, SArr) else asarr(ipix, NUMPY)
    if ip.ndim != 1:
        raise Unsupported("randang for an array that is not one-dimensional")
    rd = ip.reader()
    f, g = c.fresh_fun("randlon", 1), c.fresh_fun("randlat", 1)
    pf = pix_f if lonlat else pix_rad
    c.forall(lambda t: pf(ns, f(t), g(t)) == rd(t).re, 0, ip.shape[0])
    lon = SArr(ip.shape, "r", lambda t: Sc("r", f(t)), NUMPY)
    lat = SArr(ip.shape, "r", lambda t: Sc("r", g(t)), NUMPY)
    event("randang", nside=nside, ipix=ip, lonlat=lonlat, rng=rng, result=(lon, lat))
    return lon, lat


def ang2vec(theta, phi, lonlat=False):
    raise Unsupported("ang2vec")


HEALPIX = _mod("healpix", nside2npix=nside2npix, npix2nside=npix2nside, ang2pix=ang2pix, randang=randang, ang2vec=ang2vec)


def _alm_size(lmax):
    l = z3i(lmax)
    return simp_dim(Sc("i", z3.simplify((l + 1) * (l + 2) / 2)))


def hp_alm2map(alms, nside, lmax=None, mmax=None, pixwin=False, fwhm=0.0, sigma=None, pol=True, inplace=False, verbose=True):
    if not isinstance(alms, SArr):
        raise Unsupported("alm2map of a sequence")
    snap = alms.copy_()
    npix = nside2npix(nside)
    out = opaque("alm2map", snap, (npix,), "r", NUMPY, extra=(nside,))
    if inplace and alms.buf.owner is not None:
        alms.write(lambda v, o: o, "in-place alm2map")
    event("alm2map", alm=snap, nside=nside, lmax=lmax, pixwin=pixwin, pol=pol, inplace=inplace, result=out)
    return out


def hp_alm2map_spin(alms, nside, spin, lmax, mmax=None):
    a, b = list(alms)
    npix = nside2npix(nside)
    sa, sb = a.copy_(), b.copy_()
    ra, rb = sa.reader(), sb.reader()
    both = SArr((2, *sa.shape), "c", lambda i, p: V.ite(i == 0, cast(ra(p), "c"), cast(rb(p), "c")), NUMPY)
    m1 = opaque("alm2spin1", both, (npix,), "r", NUMPY, extra=(nside, spin, lmax))
    m2 = opaque("alm2spin2", both, (npix,), "r", NUMPY, extra=(nside, spin, lmax))
    event("alm2map_spin", alms=(sa, sb), nside=nside, spin=spin, lmax=lmax, result=[m1, m2])
    return [m1, m2]


def hp_map2alm(maps, lmax=None, mmax=None, iter=3, pol=True, use_weights=False, datapath=None, gal_cut=0, use_pixel_weights=False,
               verbose=True):
    if not isinstance(maps, SArr) or maps.ndim != 1:
        raise Unsupported("map2alm of several maps")
    size = _alm_size(lmax)
    out = opaque("map2alm", maps, (size,), "c", NUMPY, extra=(lmax,))
    event("map2alm", map=maps.copy_(), lmax=lmax, pol=pol, use_pixel_weights=use_pixel_weights, result=out, coeffs=out.copy_())
    return out


core.unary_facts("ellof", lambda a: [z3.Implies(z3.And(a.arg(1) >= 0, a.arg(1) < a.arg(0)),
                                                z3.And(a >= 0, 2 * a.arg(0) >= (a + 1) * (a + 2)))])


def hp_almxfl(alm, fl, mmax=None, inplace=False):
    n = z3i(alm.shape[0])
    rf = fl.reader()
    nl = z3i(fl.shape[0])

    def fac(p):
        l = ell_f(n, p)
        return V.ite(z3.And(l >= 0, l < nl), cast(rf(l), "c"), cast(sc(0), "c"))

    if inplace:
        alm.write(lambda v, o: cast(o, "c") * fac(v[0]), "in-place almxfl")
        event("almxfl", inplace=True)
        return alm
    rd = alm.copy_().reader()
    event("almxfl", inplace=False)
    return SArr(alm.shape, "c", memo(lambda p: cast(rd(p), "c") * fac(p)), NUMPY)


def hp_get_nside(m):
    return npix2nside(m.shape[-1])


pw_f = [z3.Function("pixwin0", I, I, R), z3.Function("pixwin2", I, I, R)]


def hp_pixwin(nside, pol=False, lmax=None, datapath=None):
    lm = z3i(lmax) if lmax is not None else 3 * z3i(nside) - 1
    ns = z3i(nside)
    n = simp_dim(Sc("i", z3.simplify(lm + 1)))
    mk = lambda f: SArr((n,), "r", lambda l: Sc("r", f(ns, l)), NUMPY)
    event("pixwin", nside=nside, pol=pol, lmax=lmax)
    return (mk(pw_f[0]), mk(pw_f[1])) if pol else mk(pw_f[0])


class HPRotator:
    def __init__(self, coord=None, **kw):
        self.coord = coord

    def rotate_map_pixel(self, m):
        out = opaque("rotate" + str(self.coord), m, m.shape, "r", NUMPY)
        event("rotate", coord=self.coord, map=m, result=out)
        return out


HEALPY = _mod("healpy", alm2map=hp_alm2map, alm2map_spin=hp_alm2map_spin, map2alm=hp_map2alm, almxfl=hp_almxfl,
              get_nside=hp_get_nside, pixwin=hp_pixwin, Rotator=HPRotator)


# ------------------------------------------------------------------ transformcl
def cltocorr(cl):
    r = opaque("cltocorr", cl, cl.shape)
    event("cltocorr", arg=cl, result=r)
    return r


def corrtocl(corr):
    r = opaque("corrtocl", corr, corr.shape)
    event("corrtocl", arg=corr, result=r)
    return r


def cltovar(cl):
    """sum over l of (2l+1)/(4 pi) cl[l]"""
    rd = cl.reader()
    return Sc("r", z3.simplify(arr.rsum(0, cl.shape[0], lambda l: Sc("r", z3.ToReal(2 * l + 1)) * rd(l)).re) / (4 * V.PI), None, cl.xp)


TRANSFORMCL = _mod("transformcl", cltocorr=cltocorr, corrtocl=corrtocl, cltovar=cltovar)


# ------------------------------------------------------------------ files
class NpzFile:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def savez(filename, *args, **arrays):
    ctx().store[("file", filename)] = {k: NUMPY.asarray(v).copy_() for k, v in arrays.items()}
    event("savez", filename=filename, arrays=arrays)


def load(filename, **kw):
    f = ctx().store.get(("file", filename))
    if f is None:
        raise FileNotFoundError(filename)
    return NpzFile(f)


class NumpyModule:
    """The numpy namespace plus the parts outside the array API."""

    random = NPRANDOM
    savez = staticmethod(savez)
    load = staticmethod(load)
    __path__ = []

    def __getattr__(self, n):
        return getattr(NUMPY, n)


object.__setattr__(NUMPY, "random", NPRANDOM)
object.__setattr__(NUMPY, "savez", savez)
object.__setattr__(NUMPY, "load", load)


# ------------------------------------------------------------------ warnings
def warn(*a, **k):
    event("warn", args=a, kwargs=k)


import warnings as _w
WARNINGS = _mod("warnings", warn=warn, catch_warnings=_w.catch_warnings, simplefilter=lambda *a, **k: None)


# ------------------------------------------------------------------ collections
class Deque(list):
    def popleft(self):
        return self.pop(0)

    def appendleft(self, x):
        self.insert(0, x)


import collections as _c
import collections.abc as _cabc
COLLECTIONS = _mod("collections", deque=Deque, abc=_cabc, OrderedDict=dict, defaultdict=_c.defaultdict, namedtuple=_c.namedtuple)


# ------------------------------------------------------------------ pathlib / os
class _Env:
    def get(self, k, d=None):
        return d


OS = _mod("os", environ=_Env(), PathLike=object, path=__import__("os.path").path)


# ------------------------------------------------------------------ jax
# Keys are terms of the free algebra of splits: split(k, n)[i] = child(k, i); a child determines its parent and its position.
child_f, parent_f, place_f, depth_f = (z3.Function(n, *a, I) for n, a in (("child", (I, I)), ("parentof", (I,)), ("placeof", (I,)), ("depthof", (I,))))
core.unary_facts("child", lambda a: [parent_f(a) == a.arg(0), place_f(a) == a.arg(1), depth_f(a) == depth_f(a.arg(0)) + 1])
PRNG_KEY = "prng_key"


class Key:
    """A random key, or an array of keys."""
    dtype = PRNG_KEY

    def __init__(self, get, shape=()):
        self.get, self.shape = get, tuple(shape)

    ndim = property(lambda self: len(self.shape))
    term = property(lambda self: self.get())

    def pv_subst(self, pairs):
        g = self.get
        return Key(lambda *i: z3.substitute(g(*i), *pairs), self.shape)

    def _one(self):
        if len(self.shape) != 1:
            raise Unsupported("indexing an array of keys with several axes")
        return self.shape[0]

    def __getitem__(self, i):
        n = self._one()
        if isinstance(i, slice):
            st, ln, step = arr.norm_slice(i, n)
            s = z3i(st)
            return Key(lambda k: self.get(z3.simplify(s + step * k)), (ln,))
        p = arr.norm_int(i, n)
        return Key(lambda: self.get(p))

    def seq(self):
        n = self._one()
        return SSeq(n, lambda k: Key(lambda: self.get(k)))

    def __iter__(self):
        return iter(self.seq())

    def __len__(self):
        return len(self.seq())

    def reshape(self, *shape):
        n = self._one()
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(simp_dim(d) for d in shape)
        size = IV(1)
        for d in shape:
            size = size * z3i(d)
        if not ctx().entails(z3i(n) == size):
            if ctx().decide(z3i(n) != size):
                raise TypeError("cannot reshape")
        from .xp import ravel_index
        return Key(lambda *i: self.get(ravel_index(i, shape) if i else IV(0)), shape)


def _scalar_key(key):
    if not isinstance(key, Key):
        raise Unsupported("not a key")
    if key.shape:
        raise ValueError("expected a single PRNG key")
    return key.get()


def _jsplit(key, num=2):
    k = _scalar_key(key)
    if isinstance(num, (tuple, list)):
        shape = tuple(simp_dim(d) for d in num)
    else:
        shape = (simp_dim(num),)
    event("split", key=k, shape=shape)
    from .xp import ravel_index
    return Key(lambda *i: child_f(k, ravel_index(i, shape) if i else IV(0)), shape)


def _jkey(seed, *, impl=None):
    t = ctx().fresh("rootkey", "i")
    event("key", seed=seed, impl=impl, key=t)
    return Key(lambda: t)


def _jdraw(name, kind, ndist):
    def draw(key, *args, **kw):
        from .xp import JAXNP
        k = _scalar_key(key)
        names = ndist
        p = dict(zip(names, args))
        p.update(kw)
        p = {**_JDEF[name], **p}
        for q in p:
            if q not in _JDEF[name] and q not in names:
                raise TypeError(f"unexpected argument {q}")
        par = [q for q in ("minval", "maxval", "lam", "n") if q in p]
        b = ()
        for q in par:
            p[q] = JAXNP.asarray(p[q]) if not isinstance(p[q], (SArr, Sc)) else p[q]
            if isinstance(p[q], SArr):
                b, _, _ = bshape(b, p[q].shape)
        tail = ()
        if name == "multinomial":
            b, _, _ = bshape(b, p["p"].shape[:-1])
            tail = (p["p"].shape[-1],)
        if p["shape"] is None:
            shape = b + tail
        else:
            from .xp import shape_of
            shape = shape_of(p["shape"])
            out, fa, fb = bshape(b + tail, tuple(shape))
            if any(fb) or len(out) != len(shape):
                raise ValueError("shape is not compatible with the parameters")
        f = z3.Function(ctx().fresh_name(f"J{name}#"), I, *([I] * len(shape)), {"r": R, "i": I}[kind])
        if name == "uniform":
            lo, hi = _read(p["minval"], shape), _read(p["maxval"], shape)
            get = lambda *i: cast(lo(*i), "r") + (cast(hi(*i), "r") - cast(lo(*i), "r")) * Sc("r", f(k, *i))
        else:
            get = lambda *i: Sc(kind, f(k, *i))
        a = SArr(shape, kind, memo(get), JAXNP)
        r = arr.wrapres(a) if not shape else a
        e = event("jdraw", dist=name, key=k, shape=a.shape, params=p, result=r)
        e.raw = f
        return r

    return draw


_JDEF = {"uniform": dict(shape=(), dtype=float, minval=0.0, maxval=1.0), "normal": dict(shape=(), dtype=float),
         "poisson": dict(shape=None, dtype=int), "multinomial": dict(shape=None, dtype=float, unroll=1)}


class _JTypes:
    @staticmethod
    def issubdtype(a, b):
        return a is b

    prng_key = PRNG_KEY


class SymLock:
    """A lock; remembers whether it is held and how often it was taken."""

    def __init__(self):
        self.held, self.count = 0, 0

    def acquire(self, *a, **k):
        if self.held:
            raise Unsupported("a lock that is not reentrant is taken twice")
        self.held, self.count = 1, self.count + 1
        return True

    def release(self):
        self.held = 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


THREADING = _mod("threading", Lock=SymLock)
JRANDOM = _mod("jax.random", key=_jkey, split=_jsplit, uniform=_jdraw("uniform", "r", ("shape", "dtype", "minval", "maxval")),
               normal=_jdraw("normal", "r", ("shape", "dtype")), poisson=_jdraw("poisson", "i", ("lam", "shape", "dtype")),
               multinomial=_jdraw("multinomial", "i", ("n", "p")))
JTYPING = _mod("jax.typing", ArrayLike=(SArr, Sc, Key))


def _jtrapezoid(y, x=None, dx=1.0, axis=-1):
    from .xp import JAXNP
    return JAXNP.trapezoid(y, x, dx=dx, axis=axis)


JSCIPY = _mod("jax.scipy", integrate=_mod("jax.scipy.integrate", trapezoid=_jtrapezoid))
from .xp import JAXNP as _JNP  # noqa: E402
JAX = _mod("jax", random=JRANDOM, numpy=_JNP, dtypes=_JTypes, typing=JTYPING, scipy=JSCIPY)


def stubs(extra=None):
    d = {
        "numpy": NUMPY, "array_api_compat": AAC, "array_api_extra": XPX, "itertools": ITERTOOLS, "math": MATH,
        "collections": COLLECTIONS, "collections.abc": _cabc, "warnings": WARNINGS, "healpix": HEALPIX, "healpy": HEALPY,
        "transformcl": TRANSFORMCL, "os": OS, "os.path": OS.path,
        "jax": JAX, "threading": THREADING,
        "cosmology": _mod("cosmology", api=_CosmoAPI()), "cosmology.api": _CosmoAPI(),
    }
    d.update(extra or {})
    return d


class _CosmoAPI:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import typing

        T1, T2 = typing.TypeVar("T1"), typing.TypeVar("T2")

        class P(typing.Protocol):
            def __class_getitem__(cls, x):
                return cls

        P.__name__ = n
        return P
