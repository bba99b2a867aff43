"""Contracts of the array libraries (numpy / array-api-strict / jax.numpy), array_api_extra and the standard library.

Everything here is trusted: it states what the external functions do on real-valued arrays.  The oracles exercise the
real libraries on concrete inputs, so that a wrong entry here shows up as a disagreement with the real code.
"""
from __future__ import annotations

import itertools as _it
import math as _math
import types

import z3

from . import core, sums
from . import vals as V
from .arr import (EXINST, Mask, MaskN, SArr, argext, asarr, bmap, broadcast_shapes, bshape, elementwise, exists, matmul, memo,
                  rsum, same_shape, swap_last, wrapres, get_index, set_index)
from .core import Unsupported, ctx, z3b, z3i
from .seq import (Flat, Poison, SRange, SSeq, StarSeq, generic_map, is_symbolic_iter, map_seq, merge, seq_len, to_seq)
from .vals import DTYPES, ORDER, Sc, cast, dtk, ite, lift, sc, simp_dim

IV = z3.IntVal
INF = _math.inf


def shape_of(x):
    if isinstance(x, SArr):
        return x.shape
    if isinstance(x, (int, Sc)) and not isinstance(x, bool):
        return (simp_dim(x),)
    if isinstance(x, (tuple, list)):
        return tuple(simp_dim(d) for d in x)
    if x is None:
        return ()
    raise TypeError(f"bad shape {x!r}")


def nonneg(shape):
    for d in shape:
        if isinstance(d, int):
            if d < 0:
                raise ValueError("negative dimensions are not allowed")
        elif not ctx().decide(z3i(d) >= 0):
            raise ValueError("negative dimensions are not allowed")
    return shape


def axis_norm(axis, nd):
    axis = int(axis)
    if not -nd <= axis < nd:
        raise IndexError(f"axis {axis} is out of bounds")
    return axis % nd


def tolist_array(x, xp, k=None):
    """asarray of nested lists/tuples (concrete outer structure)."""
    if isinstance(x, SSeq):
        if isinstance(x.n, int):
            return tolist_array(list(x), xp, k)
        # sequence of symbolic length: rows of equal rank
        probe = x.getter(z3.FreshConst(z3.IntSort(), "ix!p"))
        if isinstance(probe, tuple):
            def row(i, j):
                e = z3.simplify(j)
                els = x.getter(i)
                r = sc(els[-1])
                for q in range(len(els) - 2, -1, -1):
                    r = ite(e == q, sc(els[q]), r)
                return r
            kk = "r" if any(sc(e).k == "r" for e in probe) else "i"
            return SArr((x.n, len(probe)), kk, lambda i, j: cast(row(i, j), kk), xp)
        s = lift(probe)
        if s is not None:
            return SArr((x.n,), s.k, lambda i: sc(x.getter(i)), xp)
        if isinstance(probe, SArr):
            return SArr((x.n, *probe.shape), probe.k, lambda i, *r: x.getter(i).at(*r), xp)
        raise Unsupported("asarray of symbolic sequence")
    items = [tolist_array(e, xp) if isinstance(e, (list, tuple, SSeq)) else (e if isinstance(e, SArr) else sc(e)) for e in x]
    if not items:
        return SArr((0,), "r", lambda i: Sc("r", V.ZERO_R), xp)
    arrs = [asarr(e, xp) for e in items]
    return stack(arrs, 0, xp)


def stack(arrays, axis, xp):
    if isinstance(arrays, SSeq) and not isinstance(arrays.n, int):
        probe = arrays.getter(z3.FreshConst(z3.IntSort(), "ix!p"))
        if not isinstance(probe, SArr):
            s = sc(probe)
            if axis not in (0, -1):
                raise Unsupported("stack axis")
            return SArr((arrays.n,), s.k, lambda i: sc(arrays.getter(i)), xp)
        if ctx().decide(z3i(arrays.n) == 0):
            raise ValueError("need at least one array to stack")
        shape = uniform_shape(arrays)
        ax = axis_norm(axis, probe.ndim + 1)
        full = shape[:ax] + (arrays.n,) + shape[ax:]
        return SArr(full, probe.k, memo(lambda *i: arrays.getter(i[ax]).reader()(*i[:ax], *i[ax + 1:])), xp)
    arrs = [asarr(a, xp) for a in arrays]
    if not arrs:
        raise ValueError("need at least one array to stack")
    for a in arrs[1:]:
        if not same_shape(a.shape, arrs[0].shape):
            raise ValueError("all input arrays must have the same shape")
    ax = axis_norm(axis, arrs[0].ndim + 1)
    k = max((a.k for a in arrs), key=lambda q: ORDER[q])
    rds = [a.reader() for a in arrs]
    shape = arrs[0].shape[:ax] + (len(arrs),) + arrs[0].shape[ax:]

    def get(*i):
        j = z3.simplify(i[ax])
        rest = (*i[:ax], *i[ax + 1:])
        if z3.is_int_value(j):
            return cast(rds[j.as_long()](*rest), k)
        r = cast(rds[-1](*rest), k)
        for q in range(len(rds) - 2, -1, -1):
            r = ite(j == q, cast(rds[q](*rest), k), r)
        return r

    return SArr(shape, k, memo(get), xp)


def uniform_shape(arrays):
    """Common shape of the elements of a symbolic sequence of arrays (fork: mismatch raises)."""
    c = ctx()
    s0 = arrays.getter(IV(0)).shape
    k = c.fresh("ix!us", "i")
    sk = arrays.getter(k).shape
    eqs = [z3i(a) == z3i(b) for a, b in zip(s0, sk)]
    if c.entails(z3.Implies(z3.And(k >= 0, k < z3i(arrays.n)), z3.And(*eqs) if eqs else z3.BoolVal(True)), timeout=4000):
        return s0
    if c.choose("mismatch"):
        c.assume(z3.And(k >= 0, k < z3i(arrays.n), z3.Not(z3.And(*eqs))))
        raise ValueError("all input arrays must have the same shape")
    c.forall(lambda q: z3.And(*[z3i(a) == z3i(b) for a, b in zip(s0, arrays.getter(q).shape)]), 0, arrays.n)
    return s0


def concat(arrays, axis, xp):
    if isinstance(arrays, SSeq) and not isinstance(arrays.n, int):
        return concat_seq_arrays(arrays, axis, xp)
    arrs = [asarr(a, xp) for a in arrays]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    if any(a.ndim == 0 for a in arrs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    nd = arrs[0].ndim
    ax = axis_norm(axis, nd)
    for a in arrs[1:]:
        if a.ndim != nd or not same_shape(a.shape[:ax] + a.shape[ax + 1:], arrs[0].shape[:ax] + arrs[0].shape[ax + 1:]):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    k = max((a.k for a in arrs), key=lambda q: ORDER[q])
    rds = [a.reader() for a in arrs]
    offs = [IV(0)]
    for a in arrs:
        offs.append(z3.simplify(offs[-1] + z3i(a.shape[ax])))
    total = simp_dim(Sc("i", offs[-1]))
    shape = arrs[0].shape[:ax] + (total,) + arrs[0].shape[ax + 1:]
    live = [q for q, a in enumerate(arrs) if not (isinstance(a.shape[ax], int) and a.shape[ax] == 0)]
    if not live:
        live = [0]

    def get(*i):
        j = i[ax]
        r = None
        for q in reversed(live):
            loc = z3.simplify(j - offs[q])
            if r is None:
                r = cast(rds[q](*i[:ax], loc, *i[ax + 1:]), k)
            else:
                cond = z3.simplify(j < offs[q + 1])
                if z3.is_false(cond):
                    continue
                r = ite(cond, cast(rds[q](*i[:ax], loc, *i[ax + 1:]), k), r)
        return r

    return SArr(shape, k, memo(get), xp)


def concat_seq_arrays(arrays, axis, xp):
    """concat of a symbolic sequence of 1-d arrays."""
    if ctx().decide(z3i(arrays.n) == 0):
        raise ValueError("need at least one array to concatenate")
    probe = arrays.getter(z3.FreshConst(z3.IntSort(), "ix!p"))
    if probe.ndim == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if probe.ndim != 1:
        raise Unsupported("concat of symbolic sequence of N-d arrays")
    fl = Flat(arrays.n, lambda k: SSeq(arrays.getter(k).shape[0], lambda i: arrays.getter(k).at(i)))
    r = SArr((fl.n,), probe.k, memo(lambda p: sc(fl.getter(p))), xp)
    r.flat = fl
    return r


def reduce_axis(a, axis, keepdims, f, kout=None, xp=None):
    """f(n, body) -> Sc, body: index -> Sc; reduction over one axis."""
    ax = axis_norm(axis, a.ndim)
    rd = a.reader()
    n = a.shape[ax]
    shape = a.shape[:ax] + ((1,) if keepdims else ()) + a.shape[ax + 1:]

    def get(*i):
        rest = list(i)
        if keepdims:
            rest.pop(ax)
        return f(n, lambda k: rd(*rest[:ax], k, *rest[ax:]))

    p = f(n, lambda k: Sc(a.k, *V_probe(a.k, k)))
    return wrapres(SArr(shape, p.k, memo(get), a.xp))


def V_probe(k, ix):
    s = {"b": z3.BoolSort(), "i": z3.IntSort(), "r": z3.RealSort(), "c": z3.RealSort()}[k]
    f = z3.Function(f"!probe{k}", z3.IntSort(), s)
    if k == "c":
        return f(ix), f(ix + 1)
    return (f(ix),)


def sum_all(a):
    rd = a.reader()

    def rec(d, idx):
        if d == a.ndim:
            r = rd(*idx)
            return cast(r, "i") if r.k == "b" else r
        return rsum(0, a.shape[d], lambda k: rec(d + 1, (*idx, k)))

    return rec(0, ())


def nsize(a):
    r = IV(1)
    for d in a.shape:
        r = r * z3i(d)
    return z3.simplify(r)


RAVEL = {}


def ravel_index(idx, dims):
    p = idx[0]
    for i, d in zip(idx[1:], dims[1:]):
        p = p * z3i(d) + i
    p = z3.simplify(p)
    RAVEL[p.get_id()] = (p, tuple(idx), tuple(z3i(d) for d in dims))
    return p


_UNR = {}


def unravel_index(p, dims):
    """Multi-index of flat position p (row-major)."""
    dims = [z3i(d) for d in dims]
    if len(dims) == 1:
        return (p,)
    if not dims:
        return ()
    hit = RAVEL.get(p.get_id())
    if hit is not None and hit[0].eq(p) and len(hit[2]) == len(dims) and all(x.eq(y) for x, y in zip(hit[2][1:], dims[1:])):
        return hit[1]
    nd = len(dims)
    if nd not in _UNR:
        fs = [z3.Function(f"unravel{nd}_{d}", *([z3.IntSort()] * (nd + 1)), z3.IntSort()) for d in range(nd)]

        def u(a, nd=nd, fs=fs):
            ch = a.children()
            dd, pp = ch[:nd], ch[nd]
            ii = [f(*ch) for f in fs]
            q = ii[0]
            tot = dd[0]
            for i, d in zip(ii[1:], dd[1:]):
                q = q * d + i
                tot = tot * d
            return [z3.Implies(z3.And(pp >= 0, pp < tot, *[d > 0 for d in dd]),
                               z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(ii, dd)], q == pp))]

        for f in fs:
            core.unary_facts(f.name(), u)
        _UNR[nd] = fs
    return tuple(f(*dims, p) for f in _UNR[nd])


def inverse_index(ia, n):
    """For a 1-d integer index array: hit(v) = v occurs; last(v) = last position where it occurs."""
    c = ctx()
    rd = ia.reader()
    m = z3i(ia.shape[0])
    nm = c.fresh_name("scatter")
    f = z3.Function(nm, z3.IntSort(), z3.IntSort())
    last = lambda v: f(v)

    def hit(v):
        return exists((ia.shape[0],), lambda k: rd(k).re == v)

    core.UNARY[nm] = [lambda a: [z3.Implies(hit(a.arg(0)), z3.And(a >= 0, a < m, rd(a).re == a.arg(0)))]]
    c.forall(lambda k: z3.Implies(z3.And(k >= 0, k < m), f(rd(k).re) >= k), None, None)
    return hit, last


class DTns(V.DT):
    pass


class XP:
    """One array namespace."""

    def __init__(self, nm):
        self.name = nm
        self.__name__ = nm
        self.mutable = nm != "jax.numpy"
        self.float64, self.int64, self.complex128, self.bool = (DTYPES["r"], DTYPES["i"], DTYPES["c"], DTYPES["b"])
        self.float32, self.int32 = DTYPES["r"], DTYPES["i"]
        self.pi = Sc("r", V.PI)
        self.inf = INF
        self.nan = _math.nan
        self.newaxis = None
        self.e = None
        self.linalg = Linalg(self)
        self.ndarray = NDArrayMeta(self)
        self.bool_ = DTYPES["b"]
        self.used = set()

    def __repr__(self):
        return f"<module '{self.name}'>"

    def __getattribute__(self, n):
        if not n.startswith("_") and n not in ("name", "mutable", "used") and core.CTX is not None:
            core.CTX.externals.add(f"numpy-like.{n}")
        return object.__getattribute__(self, n)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"array function '{n}' has no contract")

    # creation
    def _new(self, shape, k, get):
        return SArr(nonneg(shape_of(shape)), k, get, self)

    def zeros(self, shape, dtype=None, **kw):
        k = dtk(dtype) or "r"
        z = cast(Sc("i", IV(0)), k) if k != "b" else Sc("b", z3.BoolVal(False))
        return self._new(shape, k, lambda *i: z)

    def ones(self, shape, dtype=None, **kw):
        k = dtk(dtype) or "r"
        z = cast(Sc("i", IV(1)), k) if k != "b" else Sc("b", z3.BoolVal(True))
        return self._new(shape, k, lambda *i: z)

    def empty(self, shape, dtype=None, **kw):
        if any(dtype is q for q in (int, float, complex, bool)) and self.name == "array_api_strict":
            raise ValueError("dtype must be one of the supported dtypes")
        if isinstance(shape, SArr) and shape.ndim:
            raise TypeError("shape must be integers")
        k = dtk(dtype) or "r"
        sh = shape_of(shape.scalar() if isinstance(shape, SArr) else shape)
        return self._new(sh, k, fresh_elems("uninit", len(sh), k))

    def full(self, shape, fill_value=None, dtype=None, **kw):
        v = sc(fill_value)
        k = dtk(dtype) or v.k
        v = cast(v, k)
        return self._new(shape, k, lambda *i: v)

    def zeros_like(self, x, dtype=None, **kw):
        x = self.asarray(x) if not isinstance(x, SArr) else x
        return wrapres(self.zeros(x.shape, dtype=dtype or x.dtype))

    def ones_like(self, x, dtype=None, **kw):
        x = asarr(x, self)
        return wrapres(self.ones(x.shape, dtype=dtype or x.dtype))

    def empty_like(self, x, dtype=None, **kw):
        x = asarr(x, self)
        return self.empty(x.shape, dtype=dtype or x.dtype)

    def full_like(self, x, fill_value=None, dtype=None, **kw):
        x = asarr(x, self)
        return wrapres(self.full(x.shape, fill_value, dtype=dtype or x.dtype))

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        m = n if m is None else m
        kk = dtk(dtype) or "r"
        one, zero = cast(Sc("i", IV(1)), kk), cast(Sc("i", IV(0)), kk)
        return self._new((n, m), kk, lambda i, j: ite(j - i == z3i(k), one, zero))

    def arange(self, start, stop=None, step=1, dtype=None, **kw):
        if stop is None:
            start, stop = 0, start
        a, b, s = sc(start), sc(stop), sc(step)
        k = max((a.k, b.k, s.k), key=lambda q: ORDER[q])
        kd = dtk(dtype)
        c = ctx()
        if k in "bi":
            a, b, s = cast(a, "i"), cast(b, "i"), cast(s, "i")
            if z3.is_int_value(z3.simplify(s.re)) and z3.simplify(s.re).as_long() == 1:
                d = z3.simplify(b.re - a.re)
                n = simp_dim(Sc("i", d)) if c.decide(d >= 0) else 0
            else:
                n = c.fresh("arange_n", "i")
                c.assume(n >= 0)
                if c.decide(s.re > 0):
                    c.assume(z3.Implies(b.re > a.re, z3.And(a.re + (n - 1) * s.re < b.re, a.re + n * s.re >= b.re)))
                    c.assume(z3.Implies(b.re <= a.re, n == 0))
                else:
                    raise Unsupported("arange with negative integer step")
                n = Sc("i", n)
            g = lambda i: Sc("i", z3.simplify(a.re + i * s.re))
            kk = "i"
            if kd and kd != "i":
                kk = kd
                g0 = g
                g = lambda i: cast(g0(i), kd)
            return SArr((n,), kk, g, self)
        ar, br, sr = V.toreal(a.re), V.toreal(b.re), V.toreal(s.re)
        if c.decide(sr == 0):
            raise ZeroDivisionError("arange step zero")
        if not c.decide(sr > 0):
            raise Unsupported("arange with negative step")
        # length ceil((stop - start)/step), in exact arithmetic
        n = c.fresh("arange_n", "i")
        nr = z3.ToReal(n)
        c.assume(n >= 0)
        c.assume(z3.Implies(br > ar, z3.And(ar + (nr - 1) * sr < br, ar + nr * sr >= br, n >= 1)))
        c.assume(z3.Implies(br <= ar, n == 0))
        return SArr((Sc("i", n),), "r", lambda i: Sc("r", ar + z3.ToReal(i) * sr), self)

    def linspace(self, start, stop, num=50, dtype=None, endpoint=True, **kw):
        a, b = sc(start), sc(stop)
        n = simp_dim(num)
        if (n < 0 if isinstance(n, int) else not ctx().decide(z3i(n) >= 0)):
            raise ValueError("Number of samples must be non-negative")
        ar, br = V.toreal(a.re), V.toreal(b.re)
        zn = z3i(n)
        div = z3.simplify(zn - 1 if endpoint else zn)
        one = z3.simplify(div > 0)
        if not z3.is_true(one) and not z3.is_false(one) and ctx().entails(one, timeout=1000):
            one = z3.BoolVal(True)

        def get(i):
            # exact end points
            if z3.is_false(one):
                return Sc("r", ar)
            if z3.is_true(z3.simplify(i == 0)):
                return Sc("r", ar)
            if endpoint and z3.is_true(one) and z3.is_true(z3.simplify(i == div)):
                return Sc("r", br)
            v = ar + (br - ar) * z3.ToReal(i) / z3.ToReal(div)
            return Sc("r", v if z3.is_true(one) else z3.If(div > 0, v, ar))

        return SArr((n,), "r", get, self)

    def asarray(self, x, dtype=None, copy=None, device=None, **kw):
        kd = dtk(dtype)
        if any(dtype is q for q in (int, float, complex, bool)) and self.name == "array_api_strict":
            raise ValueError("dtype must be one of the supported dtypes")
        if isinstance(x, Poison):
            x._bad()
        if x is None:
            raise Unsupported("asarray(None)")
        if isinstance(x, SArr):
            if x.xp.name != self.name:
                r = SArr(x.shape, x.k, x.reader(), self)
                x = r
            elif not copy and (kd is None or kd == x.k):
                return x
            if kd and kd != x.k:
                return self.astype(x, dtype)
            return SArr(x.shape, x.k, x.reader(), self)
        s = None
        if not isinstance(x, (list, tuple, SSeq)):
            s = lift(x)
        if s is not None:
            s = Sc(s.k, s.re, s.im, self, s.inf)
            return Sc(cast(s, kd).k, cast(s, kd).re, cast(s, kd).im, self, s.inf) if kd and kd != s.k and ORDER[kd] > ORDER[s.k] else \
                (self._cast(s, kd) if kd and kd != s.k else s)
        if isinstance(x, (list, tuple, SSeq)):
            r = tolist_array(x, self)
            if kd and kd != r.k:
                r = self.astype(r, dtype)
            return r
        if hasattr(x, "__array_namespace__"):
            raise Unsupported("asarray of foreign object")
        raise Unsupported(f"asarray({type(x).__name__})")

    array = asarray

    def _cast(self, s, k):
        if ORDER[k] >= ORDER[s.k]:
            return cast(s, k)
        if k == "i" and s.k == "r":
            return V.s_trunc(s)
        if k == "b":
            return cast(s, "b")
        raise Unsupported("lossy cast")

    def astype(self, x, dtype, copy=True, **kw):
        k = dtk(dtype)
        if isinstance(x, Sc):
            r = self._cast(x, k)
            return Sc(r.k, r.re, r.im, self)
        rd = x.reader()
        return SArr(x.shape, k, memo(lambda *i: self._cast(rd(*i), k)), self)

    def copy(self, x):
        return x.copy_() if isinstance(x, SArr) else x

    # manipulation
    def reshape(self, x, shape, **kw):
        x = asarr(x, self)
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        shape = [d if isinstance(d, int) else simp_dim(d) for d in shape]
        return wrapres(reshape(x, shape, self))

    def broadcast_to(self, x, shape, **kw):
        x = asarr(x, self)
        shape = shape_of(shape)
        m = bmap(x.shape, shape)
        r = x.view(shape, m)
        return wrapres(r)

    def broadcast_arrays(self, *arrays):
        arrs = [asarr(a, self) for a in arrays]
        sh = broadcast_shapes(*[a.shape for a in arrs])
        return [self.broadcast_to(a, sh) if a.ndim or sh else a for a in arrs]

    def shape(self, x):
        return shape_of(x) if isinstance(x, SArr) else asarr(x, self).shape

    def broadcast_shapes(self, *shapes):
        return broadcast_shapes(*shapes)

    def expand_dims(self, x, axis=0, **kw):
        x = asarr(x, self)
        ax = axis_norm(axis, x.ndim + 1)
        return x.view(x.shape[:ax] + (1,) + x.shape[ax:], lambda *i: (*i[:ax], *i[ax + 1:]))

    def squeeze(self, x, axis=None):
        if axis is None:
            raise Unsupported("squeeze()")
        ax = axis_norm(axis, x.ndim)
        return wrapres(x.view(x.shape[:ax] + x.shape[ax + 1:], lambda *i: (*i[:ax], IV(0), *i[ax:])))

    def moveaxis(self, x, source, destination, **kw):
        s, d = axis_norm(source, x.ndim), axis_norm(destination, x.ndim)
        order = [i for i in range(x.ndim) if i != s]
        order.insert(d, s)
        return self.permute_dims(x, tuple(order))

    def permute_dims(self, x, axes=None, **kw):
        axes = tuple(axes)
        shape = tuple(x.shape[a] for a in axes)

        def imap(*i):
            out = [None] * len(axes)
            for p, a in enumerate(axes):
                out[a] = i[p]
            return tuple(out)

        return x.view(shape, imap)

    transpose = permute_dims

    def swapaxes(self, x, a, b):
        o = list(range(x.ndim))
        o[a], o[b] = o[b], o[a]
        return self.permute_dims(x, tuple(o))

    def matrix_transpose(self, x):
        return swap_last(x)

    def concat(self, arrays, axis=0, **kw):
        return concat(arrays if isinstance(arrays, SSeq) else list(arrays), axis, self)

    def concatenate(self, arrays, axis=0, **kw):
        return self.concat(arrays, axis=axis)

    def stack(self, arrays, axis=0, **kw):
        return stack(arrays if isinstance(arrays, SSeq) else list(arrays), axis, self)

    def repeat(self, x, repeats, axis=None, **kw):
        x = asarr(x, self)
        return repeat(x, repeats, self)

    def take(self, x, indices, axis=None, **kw):
        ax = axis_norm(axis, x.ndim)
        key = (slice(None),) * ax + (indices,)
        return get_index(x, key)

    def flip(self, x, axis=None):
        if axis is None and x.ndim != 1:
            raise Unsupported("flip")
        ax = axis_norm(axis or 0, x.ndim)
        n = z3i(x.shape[ax])
        return x.view(x.shape, lambda *i: (*i[:ax], z3.simplify(n - 1 - i[ax]), *i[ax + 1:]))

    # elementwise
    def where(self, c, a=None, b=None):
        if a is None:
            return self.nonzero(c)
        c2 = c
        return elementwise(lambda cc, x, y: ite(cc.re if cc.k == "b" else cc.re != 0, *V.promote(x, y)[:2]), c2, a, b, xp=self)

    def clip(self, x, min=None, max=None, **kw):
        r = x
        if min is not None:
            r = elementwise(V.s_max, r, min, xp=self)
        if max is not None:
            r = elementwise(V.s_min, r, max, xp=self)
        return r if (min is not None or max is not None) else elementwise(lambda a: a, x)

    def isdtype(self, dt, kind):
        if isinstance(kind, tuple):
            return any(self.isdtype(dt, q) for q in kind)
        k = dtk(dt)
        return {"complex floating": k == "c", "real floating": k == "r", "integral": k == "i", "signed integer": k == "i",
                "bool": k == "b", "numeric": k in "irc"}[kind]

    def finfo(self, dt):
        return types.SimpleNamespace(eps=2.0 ** -52, tiny=2.0 ** -1022, max=1.0e308, dtype=DTYPES["r"])

    def result_type(self, *a):
        return max((x.dtype if hasattr(x, "dtype") else x for x in a), key=lambda d: ORDER[dtk(d)])

    # reductions
    def sum(self, x, axis=None, keepdims=False, dtype=None, **kw):
        if isinstance(x, (list, tuple, SSeq)):
            x = self.asarray(x)
        x = asarr(x, self)
        if axis is None:
            r = sum_all(x)
            if keepdims:
                return SArr((1,) * x.ndim, r.k, lambda *i: r, self)
            return Sc(r.k, r.re, r.im, self)
        return reduce_axis(x, axis, keepdims, lambda n, b: rsum(0, n, b))

    def mean(self, x, axis=None, keepdims=False, **kw):
        x = asarr(x, self)
        if axis is None:
            n = nsize(x)
            s = sum_all(x)
            r = V.s_divarr(Sc(s.k, s.re, s.im, self), Sc("i", n, xp=self))
            if keepdims:
                return SArr((1,) * x.ndim, r.k, lambda *i: r, self)
            return r
        ax = axis_norm(axis, x.ndim)
        s = self.sum(x, axis=axis, keepdims=keepdims)
        return elementwise(V.s_divarr, s, Sc("i", z3i(x.shape[ax]), xp=self))

    def any(self, x, axis=None, keepdims=False, **kw):
        x = asarr(x, self)
        rd = x.reader()
        if axis is None:
            if x.ndim == 0:
                return V.cast(rd(), "b")
            return Sc("b", exists(x.shape, lambda *k: V.cast(rd(*k), "b").re), xp=self)
        return reduce_axis(x, axis, keepdims, lambda n, b: Sc("b", exists((n,), lambda k: V.cast(b(k), "b").re)))

    def all(self, x, axis=None, keepdims=False, **kw):
        if isinstance(x, bool):
            return Sc("b", z3.BoolVal(x), xp=self)
        x = asarr(x, self)
        rd = x.reader()
        if axis is None:
            if x.ndim == 0:
                return V.cast(rd(), "b")
            return Sc("b", z3.simplify(z3.Not(exists(x.shape, lambda *k: z3.Not(V.cast(rd(*k), "b").re)))), xp=self)
        return reduce_axis(x, axis, keepdims, lambda n, b: Sc("b", z3.Not(exists((n,), lambda k: z3.Not(V.cast(b(k), "b").re)))))

    def count_nonzero(self, x, axis=None, **kw):
        x = asarr(x, self)
        if axis is not None:
            raise Unsupported("count_nonzero axis")
        if x.ndim == 0:
            return cast(V.cast(x.scalar(), "b"), "i")
        if x.k != "b":
            x = elementwise(lambda a: V.cast(a, "b"), x)
        m = MaskN.of(x)
        cnt = z3i(m.count())
        if x.ndim <= 2:
            rd = x.reader()
            dims = [z3i(d) for d in x.shape]
            core.ctx().forall(lambda *k: z3.Implies(z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(k, dims)], rd(*k).re), cnt > 0),
                              None, None, nvars=x.ndim)
        return Sc("i", cnt, xp=self)

    def _ext(self, x, axis, keepdims, mode):
        x = asarr(x, self)
        if axis is None:
            if x.ndim == 0:
                return x.scalar()
            if x.ndim > 1:
                x = self.reshape(x, (-1,))
            axis = 0

        def f(n, b):
            zn = z3i(n)
            w = argext(zn, lambda k: b(k).re, mode)
            return b(w)

        for d in [x.shape[axis_norm(axis, x.ndim)]]:
            if (d == 0 if isinstance(d, int) else ctx().decide(z3i(d) == 0)):
                raise ValueError("zero-size array to reduction operation")
        return reduce_axis(x, axis, keepdims, f)

    def max(self, x, axis=None, keepdims=False, **kw):
        return self._ext(x, axis, keepdims, "max")

    def min(self, x, axis=None, keepdims=False, **kw):
        return self._ext(x, axis, keepdims, "min")

    def _arg(self, x, axis, mode):
        x = asarr(x, self)
        if axis is None:
            if x.ndim > 1:
                x = self.reshape(x, (-1,))
            axis = 0
        ax = axis_norm(axis, x.ndim)
        d = x.shape[ax]
        if (d == 0 if isinstance(d, int) else ctx().decide(z3i(d) == 0)):
            raise ValueError("attempt to get argmax of an empty sequence")
        rd = x.reader()
        shape = x.shape[:ax] + x.shape[ax + 1:]

        def get(*i):
            return Sc("i", argext(z3i(d), lambda k: V.cast(rd(*i[:ax], k, *i[ax:]), "i" if x.k == "b" else x.k).re, mode))

        return wrapres(SArr(shape, "i", memo(get), self))

    def argmax(self, x, axis=None, **kw):
        return self._arg(x, axis, "max")

    def argmin(self, x, axis=None, **kw):
        return self._arg(x, axis, "min")

    def vecdot(self, a, b, axis=-1):
        if axis != -1:
            raise Unsupported("vecdot axis")
        a, b = asarr(a, self), asarr(b, self)
        sh, _, _ = bshape(a.shape, b.shape)
        ra, rb = a.reader(), b.reader()
        ma, mb = bmap(a.shape, sh), bmap(b.shape, sh)
        n = sh[-1]
        k = a.k if ORDER[a.k] >= ORDER[b.k] else b.k
        return wrapres(SArr(sh[:-1], k, memo(lambda *i: rsum(0, n, lambda q: V.s_mul(V.conj(ra(*ma(*i, q))), rb(*mb(*i, q))))), self))

    def matmul(self, a, b):
        return matmul(a, b, self)

    def dot(self, a, b):
        if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim <= 2 and b.ndim <= 2 and a.ndim and b.ndim:
            return matmul(a, b, self)
        raise Unsupported("dot")

    def tensordot(self, a, b, axes=2):
        raise Unsupported("tensordot")

    def cumulative_sum(self, x, axis=None, include_initial=False, dtype=None, **kw):
        if isinstance(x, (list, tuple, SSeq)):
            x = self.asarray(x)
        x = asarr(x, self)
        ax = axis_norm(axis if axis is not None else 0, x.ndim)
        if axis is None and x.ndim != 1:
            raise ValueError("axis must be specified for N-d arrays")
        rd = x.reader()
        n = x.shape[ax]
        kk = "i" if x.k == "b" else x.k
        m = simp_dim(sc(n) + 1) if include_initial else n

        def get(*i):
            hi = i[ax] if include_initial else z3.simplify(i[ax] + 1)
            return rsum(0, hi, lambda k: cast(rd(*i[:ax], k, *i[ax + 1:]), kk))

        return SArr(x.shape[:ax] + (m,) + x.shape[ax + 1:], kk, memo(get), self)

    def cumsum(self, x, axis=None, **kw):
        return self.cumulative_sum(x, axis=axis)

    def diff(self, x, axis=-1, n=1, **kw):
        ax = axis_norm(axis, x.ndim)
        a = (slice(None),) * ax + (slice(1, None),)
        b = (slice(None),) * ax + (slice(None, -1),)
        return x[a] - x[b]

    def nonzero(self, x):
        if x.ndim != 1:
            raise Unsupported("nonzero of N-d array")
        if x.k != "b":
            x = elementwise(lambda a: V.cast(a, "b"), x)
        m = Mask.of(x)
        return (SArr((m.count(),), "i", lambda j: Sc("i", m.sel(j)), self),)

    def searchsorted(self, q, v, side="left", **kw):
        if isinstance(v, SArr) and v.ndim:
            raise Unsupported("searchsorted of arrays")
        c = ctx()
        s = c.fresh("ix!ss", "i")
        n = z3i(q.shape[0])
        rd = q.reader()
        vv = V.toreal(sc(v).re)
        # contract: q sorted
        i = c.fresh("ix!so", "i")
        ok = z3.Implies(z3.And(i >= 0, i + 1 < n), V.toreal(rd(i).re) <= V.toreal(rd(z3.simplify(i + 1)).re))
        if not c.entails(ok, timeout=4000, rounds=3):
            raise Unsupported("searchsorted on an array not known to be sorted")
        c.assume(z3.And(s >= 0, s <= n))
        if side == "right":
            c.forall(lambda k: z3.And(z3.Implies(z3.And(k >= 0, k < s), V.toreal(rd(k).re) <= vv),
                                      z3.Implies(z3.And(k >= s, k < n), V.toreal(rd(k).re) > vv)), None, None)
            c.assume(z3.Implies(s > 0, V.toreal(rd(z3.simplify(s - 1)).re) <= vv))
            c.assume(z3.Implies(s < n, V.toreal(rd(s).re) > vv))
        else:
            c.forall(lambda k: z3.And(z3.Implies(z3.And(k >= 0, k < s), V.toreal(rd(k).re) < vv),
                                      z3.Implies(z3.And(k >= s, k < n), V.toreal(rd(k).re) >= vv)), None, None)
            c.assume(z3.Implies(s > 0, V.toreal(rd(z3.simplify(s - 1)).re) < vv))
            c.assume(z3.Implies(s < n, V.toreal(rd(s).re) >= vv))
        return Sc("i", s, xp=self)

    def argsort(self, x, axis=-1, descending=False, stable=True, **kw):
        """Stable argsort along the last axis of a 1-d array: a permutation p with x[p] non-decreasing."""
        if x.ndim != 1:
            if x.ndim == 2 and axis in (-1, 1):
                raise Unsupported("argsort of N-d arrays")
            raise Unsupported("argsort of N-d arrays")
        if descending:
            raise Unsupported("descending argsort")
        c = ctx()
        n = z3i(x.shape[0])
        rd = x.reader()
        nm = c.fresh_name("argsort")
        g = list(c.gstack)
        p = z3.Function(nm, *([z3.IntSort()] * (len(g) + 1)), z3.IntSort())
        pi = z3.Function(nm + "_inv", *([z3.IntSort()] * (len(g) + 1)), z3.IntSort())
        core.UNARY[nm] = [lambda a: [z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] < n),
                                                z3.And(a >= 0, a < n, pi(*a.children()[:-1], a) == a.children()[-1]))]]
        core.UNARY[nm + "_inv"] = [lambda a: [z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] < n),
                                                         z3.And(a >= 0, a < n, p(*a.children()[:-1], a) == a.children()[-1]))]]

        def pr(a, b):
            i, j = a.children()[-1], b.children()[-1]
            xi, xj = rd(a).re, rd(b).re
            return [z3.Implies(z3.And(i >= 0, i < j, j < n), z3.And(xi <= xj, z3.Implies(xi == xj, a < b)))]

        core.PAIR[nm] = [pr]
        r = SArr((x.shape[0],), "i", lambda i: Sc("i", p(*g, i)), self)
        return r

    def sort(self, x, axis=-1, **kw):
        o = self.argsort(x, axis=axis)
        return x[o]

    def unique_all(self, x):
        """Sorted unique values, first indices, inverse (shape of x), counts."""
        c = ctx()
        flat = self.reshape(x, (-1,)) if x.ndim != 1 else x
        rd = flat.reader()
        n = z3i(flat.shape[0])
        u = c.fresh("uniq_n", "i")
        val = c.fresh_fun("uniq_val", 1, "i" if x.k == "i" else "r")
        inv = c.fresh_fun("uniq_inv", 1, "i")
        first = c.fresh_fun("uniq_first", 1, "i")
        c.assume(z3.And(u >= 0, u <= n, z3.Implies(n > 0, u > 0)))
        vn, inn, fn = val.decl.name(), inv.decl.name(), first.decl.name()
        core.UNARY[inn] = [lambda a: [z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] < n),
                                                 z3.And(a >= 0, a < u, val(a) == rd(a.children()[-1]).re))]]
        core.UNARY[fn] = [lambda a: [z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] < u),
                                                z3.And(a >= 0, a < n, inv(a) == a.children()[-1]))]]
        core.PAIR[vn] = [lambda a, b: [z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] < b.children()[-1], b.children()[-1] < u), a < b)]]
        k = "i" if x.k == "i" else "r"
        values = SArr((Sc("i", u),), k, lambda i: Sc(k, val(i)), self)
        indices = SArr((Sc("i", u),), "i", lambda i: Sc("i", first(i)), self)
        if x.ndim == 1:
            inverse = SArr(x.shape, "i", lambda i: Sc("i", inv(i)), self)
        else:
            inverse = SArr(x.shape, "i", lambda *i: Sc("i", inv(ravel_index(i, x.shape))), self)
        counts = SArr((Sc("i", u),), "i",
                      lambda i: rsum(0, flat.shape[0], lambda q: Sc("i", z3.If(inv(q) == i, IV(1), IV(0)))), self)
        return (values, indices, inverse, counts)

    # numpy-only helpers
    def tril_indices(self, n, k=0, m=None):
        if not (isinstance(k, int) and k == 0 and m is None):
            raise Unsupported("tril_indices with offset")
        from .tri import tri_n, trow
        nn = simp_dim(n)
        N = tri_n(z3i(nn))
        return (SArr((Sc("i", N),), "i", lambda p: Sc("i", trow(p)), self),
                SArr((Sc("i", N),), "i", lambda p: Sc("i", z3.simplify(p - tri_n(trow(p)))), self))

    def ndindex(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return product_ranges([simp_dim(d) for d in shape])

    def vectorize(self, f, otypes=None, **kw):
        def g(x):
            return elementwise(lambda a: sc(f(a)), x)
        return g

    def trapezoid(self, y, x=None, dx=1.0, axis=-1):
        y = asarr(y, self)
        if y.ndim == 0:
            raise ValueError("diff requires input that is at least one dimensional")
        ax = axis_norm(axis, y.ndim)
        n = y.shape[ax]
        rd = y.reader()
        hi = simp_dim(sc(n) - 1)
        if x is not None:
            x = self.asarray(x) if not isinstance(x, SArr) else x
            rx = x.reader()
            if x.ndim == 1:
                if not same_shape((x.shape[0],), (n,)):
                    raise ValueError("operands could not be broadcast together")
                d = lambda i, k: V.s_sub(rx(z3.simplify(k + 1)), rx(k))
            else:
                if not same_shape(x.shape, y.shape):
                    raise Unsupported("trapezoid with broadcast x")
                d = lambda i, k: V.s_sub(rx(*i[:ax], z3.simplify(k + 1), *i[ax:]), rx(*i[:ax], k, *i[ax:]))
        else:
            dxs = sc(dx)
            d = lambda i, k: dxs
        half = Sc("r", z3.Q(1, 2))
        kk = "c" if y.k == "c" else "r"

        def get(*i):
            def body(k):
                a = rd(*i[:ax], z3.simplify(k + 1), *i[ax:])
                b = rd(*i[:ax], k, *i[ax:])
                return cast(V.s_mul(V.s_mul(d(i, k), V.s_add(a, b)), half), kk)
            return rsum(0, hi, body)

        res = wrapres(SArr(y.shape[:ax] + y.shape[ax + 1:], kk, memo(get), self))
        ctx().trace.append(types.SimpleNamespace(kind="trapezoid", y=y.copy_(), x=x.copy_() if x is not None else None, dx=dx,
                                                 axis=axis, result=res))
        return res

    def interp(self, x, xp_, fp, left=None, right=None, period=None):
        if period is not None:
            raise Unsupported("interp with period")
        return interp(x, xp_, fp, left, right, self)

    def gradient(self, f):
        if f.ndim != 1:
            raise Unsupported("gradient of N-d")
        n = z3i(f.shape[0])
        rd = f.reader()
        if not ctx().decide(n >= 2):
            raise ValueError("Shape of array too small to calculate a numerical gradient")

        def get(i):
            mid = V.s_mul(V.s_sub(rd(z3.simplify(i + 1)), rd(z3.simplify(i - 1))), Sc("r", z3.Q(1, 2)))
            lo = V.s_sub(rd(IV(1)), rd(IV(0)))
            hi = V.s_sub(rd(z3.simplify(n - 1)), rd(z3.simplify(n - 2)))
            return cast(ite(i == 0, lo, ite(i == n - 1, hi, mid)), "r")

        return SArr(f.shape, "r", memo(get), self)

    def apply_along_axis(self, f, axis, arr, *args, **kw):
        ax = axis_norm(axis, arr.ndim)
        rd = arr.reader()
        lead = arr.shape[:ax] + arr.shape[ax + 1:]
        n = arr.shape[ax]

        def row(i):
            return SArr((n,), arr.k, lambda k: rd(*i[:ax], k, *i[ax:]), self)

        # evaluate once at a generic multi-index
        c = ctx()
        ks = [z3.Const(c.fresh_name("ix!aa"), z3.IntSort()) for _ in lead]

        def run():
            c.gstack.extend(ks)
            try:
                for q, d in zip(ks, lead):
                    c.assume(z3.And(q >= 0, q < z3i(d)))
                return f(row(tuple(ks)), *args, **kw)
            finally:
                del c.gstack[len(c.gstack) - len(ks):]

        res = c.subexplore(run)
        ok = [(p, o[1]) for p, u, o in res if o[0] == "ok"]
        for p, u, o in res:
            if o[0] == "exc":
                raise o[1]
        v = ok[-1][1]
        for p, w in reversed(ok[:-1]):
            v = merge(z3.And(*p) if p else z3.BoolVal(True), w, v)
        for d in lead:
            if not isinstance(d, int) and not c.entails(z3i(d) > 0):
                if c.decide(z3i(d) == 0):
                    raise ValueError("Cannot apply_along_axis when any iteration dimensions are 0")
        if isinstance(v, Sc) or not isinstance(v, SArr):
            v = sc(v)
            return wrapres(SArr(lead, v.k, memo(lambda *i: subst_sc(v, ks, i)), self))
        vr = v.reader()
        shape = lead[:ax] + v.shape + lead[ax:]
        nv = v.ndim

        def get(*i):
            inner = i[ax:ax + nv]
            l = (*i[:ax], *i[ax + nv:])
            return subst_sc(vr(*inner), ks, l)

        return SArr(shape, v.k, memo(get), self)

    def einsum(self, sub, *ops):
        if sub == "ji,...j":
            q, b = ops
            rq, rb = q.reader(), b.reader()
            if not same_shape((q.shape[0],), (b.shape[-1],)):
                raise ValueError("einsum: dimension mismatch")
            n = q.shape[0]
            return SArr(b.shape[:-1] + (q.shape[1],), "r",
                        memo(lambda *i: rsum(0, n, lambda k: V.s_mul(rq(k, i[-1]), rb(*i[:-1], k)))), self)
        raise Unsupported(f"einsum {sub}")

    def pad(self, x, width, **kw):
        if kw:
            raise Unsupported("pad mode")
        if x.ndim != 1:
            raise Unsupported("pad N-d")
        a, b = width if isinstance(width, (tuple, list)) else (width, width)
        return pad1(x, a, b, self)

    def union1d(self, a, b):
        return union1d(a, b, self)

    def unstack(self, x, axis=0):
        n = x.shape[axis]
        return tuple(x[(slice(None),) * axis + (i,)] for i in range(n))

    def nextafter(self, a, b):
        """A value strictly between a and b when a != b, arbitrarily close to a."""
        c = ctx()
        e = c.fresh("ulp", "r")
        x, y = V.toreal(sc(a).re), V.toreal(sc(b).re)
        r = c.fresh("nextafter", "r")
        c.assume(z3.And(z3.Implies(x == y, r == x), z3.Implies(x > y, z3.And(r < x, r >= y)), z3.Implies(x < y, z3.And(r > x, r <= y))))
        return Sc("r", r, xp=self)

    def split(self, x, idx, axis=0):
        """pieces of a 1-d array between consecutive split points (clipped like slices)"""
        if x.ndim != 1 or axis not in (0, -1) or isinstance(idx, (int, Sc)):
            raise Unsupported("split")
        idx = self.asarray(idx)
        if idx.ndim != 1:
            raise Unsupported("split")
        n, m = z3i(x.shape[0]), z3i(idx.shape[0])
        ri, rx = idx.reader(), x.reader()
        if idx.k not in "ib" and ctx().feasible(m > 0):
            raise Unsupported("split at points that are not integers")

        def point(k):
            q = cast(ri(k), "i").re if idx.k in "ib" else IV(0)
            if ctx().entails(z3.Implies(z3.And(k >= 0, k < m), z3.And(q >= 0, q <= n))):
                return q
            return z3.If(q < 0, z3.If(q + n < 0, IV(0), q + n), z3.If(q > n, n, q))

        def piece(k):
            lo = z3.If(k <= 0, IV(0), point(z3.simplify(k - 1)))
            hi = z3.If(k >= m, n, point(k))
            ln = z3.simplify(z3.If(hi > lo, hi - lo, IV(0)))
            return SArr((simp_dim(Sc("i", ln)),), x.k, memo(lambda i: rx(z3.simplify(lo + i))), self)
        return SSeq(Sc("i", z3.simplify(m + 1)), piece)


def subst_sc(v, ks, i):
    pairs = list(zip(ks, i))
    return Sc(v.k, z3.substitute(v.re, *pairs) if pairs else v.re, (z3.substitute(v.im, *pairs) if pairs else v.im) if v.im is not None else None, v.xp, v.inf)


def fresh_elems(base, nd, k):
    c = ctx()
    if k == "c":
        f, g = c.fresh_fun(base + "_re", nd, "r"), c.fresh_fun(base + "_im", nd, "r")
        return lambda *i: Sc("c", f(*i), g(*i))
    f = c.fresh_fun(base, nd, k)
    return lambda *i: Sc(k, f(*i))


def _install_elementwise():
    tab = dict(sqrt=V.s_sqrt, exp=V.s_exp, expm1=V.s_expm1, log=V.s_log, log1p=V.s_log1p, sin=V.s_sin, cos=V.s_cos,
               tanh=V.s_tanh, asin=V.s_asin, arcsin=V.s_asin, atan2=V.s_atan2, arctan2=V.s_atan2, hypot=V.s_hypot, abs=V.s_abs,
               absolute=V.s_abs, fabs=lambda a: V.s_abs(V.cast(a, "r")), conj=V.conj, conjugate=V.conj, real=V.s_real, imag=V.s_imag,
               square=lambda a: V.s_mul(a, a), add=V.s_add, subtract=V.s_sub, multiply=V.s_mul, negative=V.s_neg,
               less=V.s_lt, less_equal=V.s_le, greater=V.s_gt, greater_equal=V.s_ge, equal=V.s_eq, not_equal=V.s_ne,
               logical_and=V.s_and, logical_or=V.s_or, logical_not=V.s_not, bitwise_and=V.s_and, bitwise_or=V.s_or,
               maximum=V.s_max, minimum=V.s_min, pow=V.s_pow, power=V.s_pow, round=V.s_round, invert=V.s_not, bitwise_invert=V.s_not,
               floor=lambda a: V.cast(V.s_floor(a), "r"), ceil=lambda a: V.cast(V.s_ceil(a), "r"), floor_divide=V.s_floordiv,
               remainder=V.s_mod, positive=lambda a: a,
               isnan=lambda a: Sc("b", z3.BoolVal(False)), isfinite=lambda a: Sc("b", z3.BoolVal(True) if a.inf is None else z3.Not(a.inf)),
               isinf=lambda a: Sc("b", z3.BoolVal(False) if a.inf is None else a.inf),
               radians=lambda a: V.s_divarr(V.s_mul(V.cast(a, "r"), Sc("r", V.PI)), Sc("r", z3.RealVal(180), xp=a.xp)),
               degrees=lambda a: Sc("r", V.toreal(a.re) * 180 / V.PI))
    tab["deg2rad"], tab["rad2deg"] = tab["radians"], tab["degrees"]
    from .arr import SArr as _S
    for n, op in tab.items():
        def f(self, *a, op=op, n=n, **kw):
            if kw.pop("where", None) is not None or "out" in kw:
                raise Unsupported(f"{n} with where/out")
            return elementwise(op, *a, xp=self)
        setattr(XP, n, f)

    def divide(self, a, b, where=None, out=None, **kw):
        if where is None and out is None:
            aa = a if isinstance(a, (SArr, Sc)) else Sc(sc(a).k, sc(a).re, sc(a).im, self)
            return elementwise(V.s_divarr, aa, b, xp=self)
        if out is None or where is None:
            raise Unsupported("divide with where and no out")
        o = out.copy_() if isinstance(out, SArr) else out
        return elementwise(lambda w, x, y, z: ite(w.re, cast(V.s_divarr(Sc(x.k, x.re, x.im, self), y), "r"), cast(z, "r")), where, a, b, o, xp=self)

    XP.divide = divide
    XP.true_divide = divide


_install_elementwise()


class NDArrayMeta:
    def __init__(self, xp):
        self.xp = xp

    def __instancecheck__(self, o):
        return isinstance(o, SArr) and o.xp.name == self.xp.name


class Linalg:
    def __init__(self, xp):
        self.xp = xp

    def __getattr__(self, n):
        raise Unsupported(f"linalg.{n} has no contract")

    def diagonal(self, a, offset=0):
        if offset != 0:
            raise Unsupported("diagonal offset")
        if not same_shape((a.shape[-1],), (a.shape[-2],)):
            raise Unsupported("diagonal of a non-square matrix")
        return a.view(a.shape[:-1], lambda *i: (*i, i[-1]))

    def matrix_norm(self, a, **kw):
        """Frobenius norm."""
        rd = a.reader()
        return wrapres(SArr(a.shape[:-2], "r", memo(lambda *i: V.s_sqrt(
            rsum(0, a.shape[-2], lambda p: rsum(0, a.shape[-1], lambda q: V.s_mul(rd(*i, p, q), rd(*i, p, q)))))), self.xp))

    def eigh(self, a):
        """w, V with V diag(w) V^T = A (for the symmetric matrix given by the lower triangle), V orthogonal."""
        c = ctx()
        nd = a.ndim
        w = c.fresh_fun("eigh_w", nd - 1)
        v = c.fresh_fun("eigh_v", nd)
        c.externals.add("linalg.eigh")
        W = SArr(a.shape[:-1], "r", lambda *i: Sc("r", w(*i)), self.xp)
        Vv = SArr(a.shape, "r", lambda *i: Sc("r", v(*i)), self.xp)
        W.eigh_of = Vv.eigh_of = a
        return W, Vv

    def solve(self, a, b):
        c = ctx()
        if b.ndim != 1 or a.ndim != 2:
            raise Unsupported("solve with N-d arrays")
        n = a.shape[0]
        if not same_shape((n, n), a.shape) or not same_shape((n,), b.shape):
            raise ValueError("solve: mismatch")
        x = c.fresh_fun("solve_x", 1)
        ra, rb = a.reader(), b.reader()
        c.externals.add("linalg.solve")
        c.forall(lambda i: rsum(0, n, lambda k: V.s_mul(ra(i, k), Sc("r", x(k)))).re == V.toreal(rb(i).re), 0, n)
        return SArr((n,), "r", lambda i: Sc("r", x(i)), self.xp)

    def eigvalsh(self, a):
        c = ctx()
        w = c.fresh_fun("eigvalsh", a.ndim - 1)
        return SArr(a.shape[:-1], "r", lambda *i: Sc("r", w(*i)), self.xp)

    def qr(self, a, **kw):
        """Reduced QR: Q R = A, Q^T Q = 1."""
        c = ctx()
        m, n = a.shape
        q, r = c.fresh_fun("qr_q", 2), c.fresh_fun("qr_r", 2)
        c.externals.add("linalg.qr")
        k = n   # m >= n
        Q = SArr((m, k), "r", lambda i, j: Sc("r", q(i, j)), self.xp)
        R = SArr((k, n), "r", lambda i, j: Sc("r", r(i, j)), self.xp)
        Q.qr_of = R.qr_of = a
        c.trace.append(("qr", a, Q, R))
        return Q, R

    def lstsq(self, a, b, rcond=None):
        c = ctx()
        n = a.shape[1]
        c.externals.add("linalg.lstsq")
        if b.ndim == 2:
            x = c.fresh_fun("lstsq_x", 2)
            X = SArr((n, b.shape[1]), "r", lambda i, j: Sc("r", x(i, j)), self.xp)
        else:
            x = c.fresh_fun("lstsq_x", 1)
            X = SArr((n,), "r", lambda i: Sc("r", x(i)), self.xp)
        c.trace.append(("lstsq", a, b, X, rcond))
        return (X, None, None, None)


def repeat(x, repeats, xp):
    """1-d repeat: element i occurs repeats[i] times, consecutively."""
    c = ctx()
    if x.ndim != 1:
        raise Unsupported("repeat of N-d")
    rx = x.reader()
    if not isinstance(repeats, SArr) or repeats.ndim == 0:
        r = z3i(sc(repeats) if not isinstance(repeats, SArr) else repeats.scalar())
        if c.entails(r == 1):
            return x.copy_()
        n = z3i(x.shape[0])
        return SArr((Sc("i", z3.simplify(n * r)),), x.k, lambda p: rx(p / r), xp)
    if not same_shape(x.shape, repeats.shape):
        raise ValueError("operands could not be broadcast together")
    rr = repeats.reader()
    fl = Flat(x.shape[0], lambda k: SSeq(Sc("i", rr(k).re), lambda i: rx(k)))
    # repeats must be non-negative
    k0 = c.fresh("ix!rp", "i")
    if not c.entails(z3.Implies(z3.And(k0 >= 0, k0 < z3i(x.shape[0])), rr(k0).re >= 0), timeout=4000):
        raise Unsupported("repeat with possibly negative counts")
    out = SArr((fl.n,), x.k, memo(lambda p: sc(fl.getter(p))), xp)
    out.flat = fl
    return out


def pad1(x, a, b, xp):
    na, nb = z3i(simp_dim(a)), z3i(simp_dim(b))
    c = ctx()
    if not c.decide(z3.And(na >= 0, nb >= 0)):
        raise ValueError("index can't contain negative values")
    n = z3i(x.shape[0])
    rd = x.reader()
    zero = cast(Sc("i", IV(0)), x.k)

    def get(i):
        j = z3.simplify(i - na)
        return ite(z3.And(j >= 0, j < n), rd(j), zero)

    return SArr((Sc("i", z3.simplify(n + na + nb)),), x.k, memo(get), xp)


def reshape(x, shape, xp):
    c = ctx()
    if any(isinstance(d, int) and d == -1 for d in shape):
        pos = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1]
        if len(pos) > 1:
            raise ValueError("can only specify one unknown dimension")
        p = pos[0]
        pre, post = list(shape[:p]), list(shape[p + 1:])
        # match explicit dims at both ends
        xs = list(x.shape)
        npost = len(post)
        if len(xs) >= npost and all(_deq(a, b) for a, b in zip(xs[len(xs) - npost:], post)) if npost else True:
            rest = xs[: len(xs) - npost] if npost else xs
            if len(pre) and len(rest) >= len(pre) and all(_deq(a, b) for a, b in zip(rest, pre)):
                mid = rest[len(pre):]
            elif not pre:
                mid = rest
            else:
                mid = None
            if mid is not None:
                d = 1
                for q in mid:
                    d = simp_dim(sc(d) * sc(q))
                shape = pre + [d] + post
            else:
                raise Unsupported("reshape with -1")
        else:
            raise Unsupported("reshape with -1")
    shape = tuple(simp_dim(d) for d in shape)
    # size check
    tot_new, tot_old = IV(1), IV(1)
    for d in shape:
        tot_new = tot_new * z3i(d)
    for d in x.shape:
        tot_old = tot_old * z3i(d)
    tn, to = z3.simplify(tot_new), z3.simplify(tot_old)
    if not tn.eq(to):
        if not c.entails(tn == to, timeout=2000, rounds=1):
            if not c.decide(tn == to):
                raise ValueError("cannot reshape array")
    # drop/insert unit axes
    src = [d for d in x.shape if not (isinstance(d, int) and d == 1)]
    dst = [d for d in shape if not (isinstance(d, int) and d == 1)]
    if len(src) == len(dst) and all(_deq(a, b) for a, b in zip(src, dst)):
        def imap(*i):
            vals = [q for q, d in zip(i, shape) if not (isinstance(d, int) and d == 1)]
            out = []
            for d in x.shape:
                out.append(IV(0) if isinstance(d, int) and d == 1 else vals.pop(0))
            return tuple(out)
        return x.view(shape, imap)
    # common trailing axes
    xs, ys = list(x.shape), list(shape)
    t = 0
    while t < min(len(xs), len(ys)) - 0 and len(xs) - t > 0 and len(ys) - t > 0 and _deq(xs[-1 - t], ys[-1 - t]) and \
            not (len(xs) - t == 1 and len(ys) - t > 1) and not (len(ys) - t == 1 and len(xs) - t > 1):
        t += 1
    lx, ly = xs[: len(xs) - t], ys[: len(ys) - t]
    if len(lx) == 0 and len(ly) == 0:
        return x.view(shape, lambda *i: i)

    h = 0       # common leading axes
    while h < min(len(lx), len(ly)) - 1 and _deq(lx[h], ly[h]):
        h += 1
    lx, ly = lx[h:], ly[h:]

    def imap2(*i):
        front, head, tail = i[:h], i[h:h + len(ly)], i[h + len(ly):]
        p = ravel_index(head, ly) if len(ly) > 1 else (head[0] if head else IV(0))
        if len(lx) > 1:
            src_i = unravel_index(p, lx)
        else:
            src_i = (p,) if lx else ()
        return (*front, *src_i, *tail)

    return x.view(shape, imap2)


def _deq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.simplify(z3i(a) == z3i(b)).eq(z3.BoolVal(True)) or ctx().entails(z3i(a) == z3i(b), timeout=800, rounds=1)


def interp(x, xp_, fp, left, right, ns):
    """Linear interpolation of (xp_, fp) at x; constant (or left/right) outside.  xp_ increasing."""
    xp_, fp = asarr(xp_, ns), asarr(fp, ns)
    if xp_.ndim != 1 or fp.ndim != 1:
        raise ValueError("object too deep for desired array")
    if not same_shape(xp_.shape, fp.shape):
        raise ValueError("fp and xp are not of the same length.")
    c = ctx()
    n = z3i(xp_.shape[0])
    if not c.decide(n > 0):
        raise ValueError("array of sample points is empty")
    rx, rf = xp_.reader(), fp.reader()
    from .interp import interp_term
    lf = None if left is None else V.toreal(sc(left).re)
    rf_ = None if right is None else V.toreal(sc(right).re)
    xt = lambda k: V.toreal(rx(k).re)
    ft = lambda k: V.toreal(rf(k).re)
    c.externals.add("interp")
    return elementwise(lambda q: Sc("r", interp_term(V.toreal(q.re), n, xt, ft, lf, rf_)), x, xp=ns)


def union1d(a, b, xp):
    """Sorted unique union of two 1-d arrays."""
    c = ctx()
    na, nb = z3i(a.shape[0]), z3i(b.shape[0])
    ra, rb = a.reader(), b.reader()
    n = c.fresh("union_n", "i")
    u = c.fresh_fun("union", 1)
    ina = c.fresh_fun("union_a", 1, "i")     # position of u(i) in a or b
    side = c.fresh_fun("union_s", 1, "b")
    pa = c.fresh_fun("union_pa", 1, "i")     # position of a(k) in u
    pb = c.fresh_fun("union_pb", 1, "i")
    c.assume(z3.And(n >= 0, n <= na + nb, z3.Implies(na + nb > 0, n > 0), n >= 0))
    un = u.decl.name()
    core.UNARY[un] = [lambda t: [z3.Implies(z3.And(t.children()[-1] >= 0, t.children()[-1] < n),
                                            z3.If(side(t.children()[-1]),
                                                  z3.And(ina(t.children()[-1]) >= 0, ina(t.children()[-1]) < na, V.toreal(ra(ina(t.children()[-1])).re) == t),
                                                  z3.And(ina(t.children()[-1]) >= 0, ina(t.children()[-1]) < nb, V.toreal(rb(ina(t.children()[-1])).re) == t)))]]
    core.PAIR[un] = [lambda s, t: [z3.Implies(z3.And(s.children()[-1] >= 0, s.children()[-1] < t.children()[-1], t.children()[-1] < n), s < t)]]
    c.forall(lambda k: z3.Implies(z3.And(k >= 0, k < na), z3.And(pa(k) >= 0, pa(k) < n, u(pa(k)) == V.toreal(ra(k).re))), None, None)
    c.forall(lambda k: z3.Implies(z3.And(k >= 0, k < nb), z3.And(pb(k) >= 0, pb(k) < n, u(pb(k)) == V.toreal(rb(k).re))), None, None)
    c.externals.add("union1d")
    r = SArr((Sc("i", n),), "r", lambda i: Sc("r", u(i)), xp)
    r.union = dict(a=a, b=b, pa=pa, pb=pb)
    return r


# ------------------------------------------------------------------ module level stubs
NUMPY, STRICT, JAXNP = XP("numpy"), XP("array_api_strict"), XP("jax.numpy")
BACKENDS = {"numpy": NUMPY, "array_api_strict": STRICT, "jax.numpy": JAXNP}


def ns_of(x):
    if isinstance(x, SArr):
        return x.xp
    if isinstance(x, Sc):
        return x.xp
    return None


def array_namespace(*xs, use_compat=None, api_version=None):
    ns = []
    for x in xs:
        if isinstance(x, StarSeq):
            p = x.seq
            if ctx().decide(z3i(p.n) == 0):
                continue
            x = p.getter(IV(0))
        if x is None or isinstance(x, (bool, int, float, complex)):
            continue
        if isinstance(x, Sc) and x.xp is None:
            continue
        m = ns_of(x)
        if m is None:
            f = getattr(x, "__array_namespace__", None)
            if f is None:
                raise TypeError(f"{type(x).__name__} is not a supported array type")
            m = f()
        if m not in ns:
            ns.append(m)
    if not ns:
        raise TypeError("Unrecognized array input")
    if len(ns) > 1:
        raise TypeError("Multiple namespaces for array inputs")
    return ns[0]


array_namespace.pv_star = True


def _mod(nm, **kw):
    m = types.ModuleType(nm)
    m.__dict__.update(kw)
    return m


AAC = _mod("array_api_compat", array_namespace=array_namespace, get_namespace=array_namespace,
           is_numpy_namespace=lambda x: x.name == "numpy", is_jax_namespace=lambda x: x.name == "jax.numpy",
           is_array_api_obj=lambda x: isinstance(x, SArr) or (isinstance(x, Sc) and x.xp is not None),
           size=lambda x: x.size, device=lambda x: "cpu")


class At:
    def __init__(self, x, idx=None):
        self.x, self.idx = x, idx

    def __getitem__(self, k):
        return At(self.x, k)

    def _do(self, v, op, copy=None, xp=None):
        x = self.x
        if isinstance(x, Sc):
            raise Unsupported("at() on a 0-d array")
        if copy or not x.xp.mutable:
            mut = SArr(x.shape, x.k, x.reader(), x.xp)
            save = x.xp
            mut.xp = _MutView(save)
            set_index(mut, self.idx, v, op)
            return SArr(mut.shape, mut.k, mut.buf.get, save)
        set_index(x, self.idx, v, op, "at[].set")
        return x

    def set(self, v, **k):
        return self._do(v, None, **k)

    def add(self, v, **k):
        return self._do(v, V.s_add, **k)

    def subtract(self, v, **k):
        return self._do(v, V.s_sub, **k)

    def multiply(self, v, **k):
        return self._do(v, V.s_mul, **k)

    def divide(self, v, **k):
        return self._do(v, lambda a, b: V.s_divarr(Sc(a.k, a.re, a.im, NUMPY), b), **k)

    def power(self, v, **k):
        return self._do(v, V.s_pow, **k)

    def min(self, v, **k):
        return self._do(v, V.s_min, **k)

    def max(self, v, **k):
        return self._do(v, V.s_max, **k)


class _MutView:
    mutable = True

    def __init__(self, xp):
        self._xp = xp

    def __getattr__(self, n):
        return getattr(self._xp, n)


def apply_where(cond, args, f1, f2=None, fill_value=None, **kw):
    xp = cond.xp
    a = args if isinstance(args, tuple) else (args,)
    r1 = f1(*a)
    if f2 is not None:
        return xp.where(cond, r1, f2(*a))
    return xp.where(cond, r1, fill_value)


XPX = _mod("array_api_extra", at=At, union1d=lambda a, b: union1d(a, b, ns_of(a)), apply_where=apply_where,
           pad=lambda x, w, **kw: ns_of(x).pad(x, w, **kw), expand_dims=lambda x, axis=0: ns_of(x).expand_dims(x, axis=axis),
           setdiff1d=None)


def product_ranges(dims):
    """All index tuples of a box, row-major."""
    if all(isinstance(d, int) for d in dims):
        return [tuple(t) for t in _it.product(*[range(d) for d in dims])]
    n = IV(1)
    for d in dims:
        n = n * z3i(d)
    n = z3.simplify(n)

    def g(p):
        return tuple(Sc("i", i) for i in unravel_index(p, dims))

    s = SSeq(Sc("i", n), g)
    s.box = dims
    return s


def as_any_iter(x):
    if is_symbolic_iter(x) or isinstance(x, SSeq):
        return to_seq(x)
    return x


def it_product(*xs, repeat=1):
    if len(xs) == 1 and isinstance(xs[0], StarSeq):
        raise Unsupported("product of a symbolic number of factors")
    xs = [x if isinstance(x, SSeq) else list(x) for x in xs] * repeat
    if not any(isinstance(x, SSeq) and not isinstance(x.n, int) for x in xs):
        return iter(list(_it.product(*[list(x) for x in xs])))
    seqs = [to_seq(x) for x in xs]
    dims = [s.n for s in seqs]
    box = product_ranges(dims)
    r = SSeq(box.n, lambda p: tuple(s.getter(z3i(i)) for s, i in zip(seqs, box.getter(p))))
    r.factors = seqs
    r.box = dims
    return r


def it_cwr(x, r):
    if is_symbolic_iter(x):
        if r != 2:
            raise Unsupported("combinations_with_replacement")
        s = to_seq(x)
        # pairs (i, j) with i <= j; position kept abstract
        c = ctx()
        n = z3i(s.n)
        fi, fj = c.fresh_fun("cwr_i", 1, "i"), c.fresh_fun("cwr_j", 1, "i")
        tot = z3.simplify(n * (n + 1) / 2)
        core.UNARY[fi.decl.name()] = [lambda a: [z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] < tot),
                                                             z3.And(a >= 0, a <= fj(a.children()[-1]), fj(a.children()[-1]) < n))]]
        core.UNARY[fj.decl.name()] = [lambda a: [z3.Implies(z3.And(a.children()[-1] >= 0, a.children()[-1] < tot),
                                                             z3.And(fi(a.children()[-1]) >= 0, a >= fi(a.children()[-1]), a < n))]]
        q = SSeq(Sc("i", tot), lambda p: (s.getter(fi(p)), s.getter(fj(p))))
        q.cwr = (fi, fj, s)
        # every pair occurs
        fp = c.fresh_fun("cwr_pos", 2, "i")

        def found(t):
            a, b = t.children()[-2:]
            return [z3.Implies(z3.And(a >= 0, a <= b, b < n), z3.And(t >= 0, t < tot, fi(t) == a, fj(t) == b))]

        core.UNARY[fp.decl.name()] = [found]
        q.index_of = fp
        return q
    return _it.combinations_with_replacement(list(x), r)


def it_pairwise(x):
    if is_symbolic_iter(x):
        s = to_seq(x)
        n = z3i(s.n)
        return SSeq(Sc("i", z3.simplify(z3.If(n > 0, n - 1, IV(0)))), lambda k: (s.getter(k), s.getter(z3.simplify(k + 1))))
    return _it.pairwise(list(x))


def _it_chain(*xs):
    if any(is_symbolic_iter(x) for x in xs):
        r = to_seq(xs[0])
        from .seq import concat_seq
        for x in xs[1:]:
            r = concat_seq(r, to_seq(x))
        return r
    return _it.chain(*xs)


ITERTOOLS = _mod("itertools", product=it_product, combinations_with_replacement=it_cwr, pairwise=it_pairwise, chain=_it_chain,
                 count=_it.count, repeat=_it.repeat, accumulate=_it.accumulate, islice=_it.islice, zip_longest=_it.zip_longest)


def m_floor(x):
    s = lift(x)
    r = V.s_floor(s)
    v = r.concrete()
    return v if v is not None else Sc("i", r.re)


def m_ceil(x):
    r = V.s_ceil(lift(x))
    v = r.concrete()
    return v if v is not None else Sc("i", r.re)


def m_wrap(f, g):
    def h(x, *a):
        if isinstance(x, (int, float)) and not a:
            pass
        s = lift(x)
        if s is None:
            raise TypeError("must be real number")
        r = f(s, *[lift(y) for y in a])
        return Sc(r.k, r.re, r.im, None)
    return h


def m_prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


def m_sqrt(x):
    s = lift(x)
    if ctx().decide(V.toreal(s.re) < 0):
        raise ValueError("math domain error")
    r = V.s_sqrt(s)
    return Sc("r", r.re)


MATH = _mod("math", pi=Sc("r", V.PI), inf=_math.inf, nan=_math.nan, floor=m_floor, ceil=m_ceil, sqrt=m_sqrt,
            exp=m_wrap(V.s_exp, None), log=m_wrap(V.s_log, None), sin=m_wrap(V.s_sin, None), cos=m_wrap(V.s_cos, None),
            atan2=m_wrap(V.s_atan2, None), tanh=m_wrap(V.s_tanh, None), erf=m_wrap(V.s_erf, None), hypot=m_wrap(V.s_hypot, None),
            fabs=m_wrap(V.s_abs, None), asin=m_wrap(V.s_asin, None), prod=m_prod,
            isnan=lambda x: (isinstance(x, float) and _math.isnan(x)), isinf=lambda x: isinstance(x, float) and _math.isinf(x),
            isqrt=None, trunc=lambda x: V.s_trunc(lift(x)), degrees=None, radians=None, e=_math.e)


def m_isqrt(x):
    c = ctx()
    s = sc(x)
    r = c.fresh("isqrt", "i")
    if not c.decide(s.re >= 0):
        raise ValueError("isqrt() argument must be nonnegative")
    c.assume(z3.And(r >= 0, r * r <= s.re, s.re < (r + 1) * (r + 1)))
    return Sc("i", r)


MATH.isqrt = m_isqrt
del MATH.degrees, MATH.radians


# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, (SSeq, SArr)):
        return seq_len(x)
    return len(x)


def b_range(*a):
    a = [simp_dim(x.scalar() if isinstance(x, SArr) else x) if not isinstance(x, int) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(a[0], a[1])
    return SRange(*a)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, Sc) and o.k in "ib" and o.xp is None)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


def b_int(x=0, *a):
    if a or isinstance(x, (str, bytes)):
        return int(x, *a)
    if isinstance(x, SArr):
        if x.ndim:
            if not ctx().decide(z3i(x.size) == 1):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = x.at(*[0] * x.ndim)
        else:
            x = x.scalar()
    if isinstance(x, (int, float)):
        return int(x)
    s = V.s_trunc(sc(x))
    v = s.concrete()
    return v if v is not None else Sc("i", s.re)


def b_float(x=0.0):
    if isinstance(x, (str, int, float)):
        return float(x)
    if isinstance(x, SArr):
        if x.ndim:
            raise Unsupported("float(array)")
        x = x.scalar()
    s = cast(sc(x), "r")
    return Sc("r", s.re, inf=s.inf)


def _ext(xs, default, key, op, mode):
    if key is not None:
        raise Unsupported("max/min with key")
    if len(xs) == 1:
        it = xs[0]
        if is_symbolic_iter(it):
            s = to_seq(it)
            if ctx().decide(z3i(s.n) == 0):
                if default is _MISSING:
                    raise ValueError(f"{mode}() iterable argument is empty")
                return default
            w = argext(z3i(s.n), lambda k: sc(s.getter(k)).re, mode)
            return sc(s.getter(w))
        xs = list(it)
        if not xs:
            if default is _MISSING:
                raise ValueError("empty")
            return default
    r = xs[0]
    for x in xs[1:]:
        if isinstance(r, (int, float)) and isinstance(x, (int, float)):
            r = max(r, x) if mode == "max" else min(r, x)
            continue
        a, b = sc(r), sc(x)
        if "r" in (a.k, b.k) and a.inf is None and b.inf is None:
            wa, wb = (V._whole(z3.simplify(V.toreal(t.re))) for t in (a, b))
            if wa is not None and wb is not None and a.k in "ir" and b.k in "ir":
                # whole numbers of real type (rounded values): one term, no case distinction
                r = Sc("r", z3.ToReal(V.opaque(z3.If(op(Sc("i", wb), Sc("i", wa)).re, wb, wa))))
                continue
        if ctx().decide(op(b, a).re):
            r = x
    return r


_MISSING = object()


def b_max(*xs, default=_MISSING, key=None):
    return _ext(xs, default, key, V.s_gt, "max")


def b_min(*xs, default=_MISSING, key=None):
    return _ext(xs, default, key, V.s_lt, "min")


def b_sum(it, start=0):
    if is_symbolic_iter(it):
        s = to_seq(it)
        return seq_sum(s, start)
    r = start
    for x in it:
        r = r + x
    return r


def seq_sum(s, start):
    c = ctx()
    if isinstance(s, Flat):
        return seq_sum(SSeq(s.outer_n, lambda k: seq_sum_inner(s.inner(k))), start)
    p = s.getter(z3.FreshConst(z3.IntSort(), "ix!p"))
    n = z3i(s.n)
    if isinstance(p, SArr):
        if c.decide(n == 0):
            return start
        shape = uniform_shape(s)
        kk = "i" if p.k == "b" else p.k
        r = SArr(shape, kk, memo(lambda *i: rsum(0, s.n, lambda k: s.getter(k).reader()(*i))), p.xp)
        return r + start if not (isinstance(start, int) and start == 0) else r
    r = rsum(0, s.n, lambda k: sc(s.getter(k)))
    q = sc(p)
    r = Sc(r.k, r.re, r.im, q.xp)
    return r + start if not (isinstance(start, int) and start == 0) else r


def seq_sum_inner(s):
    p = s.getter(z3.FreshConst(z3.IntSort(), "ix!p"))
    if isinstance(p, SArr):
        shape = s.getter(IV(0)).shape
        kk = "i" if p.k == "b" else p.k
        return SArr(shape, kk, memo(lambda *i: rsum(0, s.n, lambda k: s.getter(k).reader()(*i))), p.xp)
    return rsum(0, s.n, lambda k: sc(s.getter(k)))


def b_isinstance(o, t):
    if isinstance(t, tuple):
        return any(b_isinstance(o, x) for x in t)
    if isinstance(o, Sc):
        if t in (b_int, int):
            return o.k in "ib" and o.xp is None
        if t in (b_float, float):
            return o.k == "r" and (o.xp is None or o.xp.name == "numpy")
        if t is complex:
            return o.k == "c"
        if t is bool:
            return o.k == "b" and o.xp is None
        if isinstance(t, NDArrayMeta):
            return False if t.xp.name == "numpy" else False
    if isinstance(t, NDArrayMeta):
        return isinstance(o, SArr) and o.xp.name == t.xp.name
    if t is b_int:
        t = int
    if t is b_float:
        t = float
    if t is b_list:
        t = list
    if t is b_tuple:
        t = tuple
    if isinstance(o, SSeq):
        import collections.abc as cabc
        if t in (list, cabc.Sequence, cabc.Iterable):
            return True
        if t in (tuple, dict, str, bytes):
            return False
    if t is DTsc:
        return False
    return isinstance(o, t)


DTsc = object()


def b_enumerate(x, start=0):
    if is_symbolic_iter(x):
        s = to_seq(x)
        return SSeq(s.n, lambda k: (Sc("i", z3.simplify(k + z3i(start))), s.getter(k)))
    return enumerate(x, start)


def b_zip(*xs, strict=False):
    if any(is_symbolic_iter(x) for x in xs):
        seqs = [to_seq(x if isinstance(x, (SSeq, SArr, list, tuple, range)) else list(x)) for x in xs]
        n = seqs[0].n
        for s in seqs[1:]:
            m = s.n
            if isinstance(n, int) and isinstance(m, int):
                if n != m and strict:
                    raise ValueError("zip() arguments have different lengths")
                n = min(n, m)
                continue
            if ctx().decide(z3i(n) == z3i(m)):
                if isinstance(m, int):
                    n = m
                continue
            if strict:
                raise ValueError("zip() arguments have different lengths")
            n = n if ctx().decide(z3i(n) < z3i(m)) else m
        return SSeq(n, lambda k: tuple(s.getter(k) for s in seqs))
    return zip(*xs, strict=strict)


def b_list(x=()):
    if is_symbolic_iter(x) or isinstance(x, SSeq):
        s = to_seq(x)
        return SSeq(s.n, s.getter) if not isinstance(s.n, int) else list(s)
    return list(x)


def b_tuple(x=()):
    if is_symbolic_iter(x):
        s = to_seq(x)
        return SSeq(s.n, s.getter)
    if isinstance(x, SArr):
        return tuple(x.seq())
    return tuple(x)


def b_map(f, *xs):
    if any(is_symbolic_iter(x) for x in xs):
        if len(xs) == 1:
            return map_seq(xs[0], f, "m")
        return map_seq(b_zip(*xs), lambda t: f(*t), "m")
    return map(f, *xs)


def b_abs(x):
    return abs(x)


def b_any(it):
    if is_symbolic_iter(it):
        s = to_seq(it)
        return Sc("b", exists((s.n,), lambda k: z3b(sc(s.getter(k)))))
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    if is_symbolic_iter(it):
        s = to_seq(it)
        return Sc("b", z3.Not(exists((s.n,), lambda k: z3.Not(z3b(sc(s.getter(k)))))))
    for x in it:
        if not x:
            return False
    return True


def b_reversed(x):
    if is_symbolic_iter(x):
        s = to_seq(x)
        n = z3i(s.n)
        return SSeq(s.n, lambda k: s.getter(z3.simplify(n - 1 - k)))
    return reversed(x)


def b_sorted(x, **kw):
    if is_symbolic_iter(x):
        raise Unsupported("sorted of a symbolic sequence")
    return sorted(x, **kw)


def b_set(x=()):
    if is_symbolic_iter(x):
        raise Unsupported("set of a symbolic sequence")
    return set(x)


def b_dict(*a, **k):
    if a and is_symbolic_iter(a[0]):
        from .seq import SDict
        return SDict(to_seq(a[0]))
    return dict(*a, **k)


def b_round(x, n=None):
    s = lift(x)
    if isinstance(x, (int, float)):
        return round(x, n) if n is not None else round(x)
    if n is not None:
        raise Unsupported("round(x, n)")
    return Sc("i", V.s_trunc(V.s_round(s)).re)


def b_callable(x):
    return callable(x)


class SliceBuilder:
    pass


BUILTINS = dict(len=b_len, range=b_range, int=b_int, float=b_float, max=b_max, min=b_min, sum=b_sum, isinstance=b_isinstance,
                enumerate=b_enumerate, zip=b_zip, list=b_list, tuple=b_tuple, map=b_map, any=b_any, all=b_all, reversed=b_reversed,
                sorted=b_sorted, set=b_set, round=b_round)
