"""Symbolic arrays: concrete rank, symbolic dimensions, element functions, views and in-place writes."""
from __future__ import annotations

import z3

from . import core, sums
from .core import Unsupported, ctx, z3b, z3i
from .vals import (DTYPES, ORDER, Sc, cast, dtk, ite, lift, sc, simp_dim, s_add, s_and, s_eq, s_floordiv, s_ge, s_gt,
                   s_le, s_lt, s_mod, s_mul, s_ne, s_neg, s_not, s_or, s_pow, s_sub, s_divarr, s_abs, s_xor, conj)

IV = z3.IntVal


class Buf:
    __slots__ = ("shape", "k", "get", "owner", "version")

    def __init__(self, shape, k, get, owner=None):
        self.shape, self.k, self.get, self.owner, self.version = shape, k, get, owner, 0


class SArr:
    """View of a buffer.  imap: view index -> buffer index; inv: buffer index -> (condition, view index)."""

    __array_priority__ = 1000

    def __init__(self, shape, k, get, xp, owner=None, buf=None, imap=None, inv=None, post=None):
        self.shape = tuple(simp_dim(d) for d in shape)
        self.k = k
        self.xp = xp
        self.imap, self.inv, self.post = imap, inv, post
        self.buf = buf if buf is not None else Buf(self.shape, k, get, owner)

    # -------------------------------------------------- attributes
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return DTYPES[self.k]

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = simp_dim(sc(r) * sc(d)) if not (isinstance(r, int) and r == 1) else d
        return r

    @property
    def T(self):
        if self.ndim < 2:
            return self
        return self.view(self.shape[::-1], lambda *i: i[::-1])

    @property
    def mT(self):
        return swap_last(self)

    def __getattr__(self, n):
        if n == "__array_namespace__":
            return lambda *a, **k: self.xp
        if n == "newaxis":
            raise AttributeError(n)
        if n in ("real", "imag"):
            return getattr(self.xp, n)(self)
        if n in ("reshape",):
            return lambda *s, **k: self.xp.reshape(self, s[0] if len(s) == 1 and isinstance(s[0], tuple) else s, **k)
        if n in ("sum", "mean", "max", "min", "any", "all", "argmax", "argsort", "conj", "repeat", "prod", "std", "var"):
            if self.xp.name == "array_api_strict":
                raise AttributeError(n)
            f = getattr(self.xp, n)
            return lambda *a, **k: f(self, *a, **k)
        if n == "astype":
            return lambda d, **k: self.xp.astype(self, d)
        if n == "copy" and self.xp.name != "array_api_strict":
            return lambda: self.copy_()
        if n == "item":
            return lambda: Sc(self.scalar().k, self.scalar().re, self.scalar().im, None)
        if n == "fill" and self.xp.name == "numpy":
            return lambda v: self.__setitem__(Ellipsis, v)
        if n == "ravel" or n == "flatten":
            return lambda: self.xp.reshape(self, (-1,))
        if n == "transpose" and self.ndim <= 2:
            return lambda: self.T
        raise AttributeError(n)

    # -------------------------------------------------- element access
    def reader(self):
        get, imap, post = self.buf.get, self.imap, self.post
        xp = self.xp
        if imap is None and post is None:
            def rd(*i):
                return get(*i)
        elif post is None:
            def rd(*i):
                return get(*imap(*i))
        elif imap is None:
            def rd(*i):
                return post(get(*i))
        else:
            def rd(*i):
                return post(get(*imap(*i)))
        cache = {}

        def cached(*i):
            key = tuple(x.get_id() if hasattr(x, "get_id") else x for x in i)
            hit = cache.get(key)
            if hit is None:
                v = rd(*i)
                cache[key] = (v, i)
                return v
            return hit[0]

        return cached

    def at(self, *idx):
        idx = tuple(z3i(i) for i in idx)
        v = self.reader()(*idx)
        return v if v.xp is not None else Sc(v.k, v.re, v.im, self.xp, v.inf)

    def scalar(self):
        if self.ndim != 0:
            raise TypeError("only 0-dimensional arrays can be converted to scalars")
        return self.at()

    def copy_(self):
        r = SArr(self.shape, self.k, self.reader(), self.xp)
        r.copied = self
        return r

    def view(self, shape, imap, inv=None):
        base = self.imap
        if base is None:
            m = imap
        else:
            def m(*i):
                return base(*imap(*i))
        iv = None
        if inv is not None:
            if self.inv is None and self.imap is None:
                iv = inv
            elif self.inv is not None:
                binv = self.inv

                def iv(*b):
                    c, v = binv(*b)
                    c2, v2 = inv(*v)
                    return z3.And(c, c2), v2
        return SArr(shape, self.k, None, self.xp, buf=self.buf, imap=m, inv=iv, post=self.post)

    # -------------------------------------------------- writes
    def write(self, cond_val, what="assignment"):
        """cond_val(view idx, old) -> new scalar (or None to keep)."""
        if not self.xp.mutable:
            raise TypeError(f"'{self.xp.name}' arrays are immutable")
        ctx().writes.append((self.buf, what))
        if self.buf.owner is not None:
            ctx().fail("frame", f"{what} writes to the caller's array {self.buf.owner!r}")
        if self.post is not None or (self.imap is not None and self.inv is None):
            if self.buf.owner is not None:
                raise core.PathEnd
            raise Unsupported("write through a derived view")
        old = self.buf.get
        k = self.buf.k
        if self.imap is None:
            def get(*b):
                o = old(*b)
                n = cond_val(b, o)
                return o if n is None else cast_store(n, k)
        else:
            inv = self.inv

            def get(*b):
                o = old(*b)
                c, v = inv(*b)
                c = z3.simplify(c)
                if z3.is_false(c):
                    return o
                n = cond_val(v, o)
                return o if n is None else ite(c, cast_store(n, k), o)
        self.buf.get = memo(get)
        self.buf.version += 1

    def __setitem__(self, key, value):
        if not self.xp.mutable:
            raise TypeError("array does not support item assignment")
        set_index(self, key, value, None)

    def __getitem__(self, key):
        r = get_index(self, key)
        if isinstance(key, SArr) and key.k == "b" and key.ndim == 1 and self.ndim == 1 and isinstance(r, SArr):
            r.masked = dict(of=self, rank=Mask.of(key).rank)
        return r

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = self.shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over an array of symbolic length")

    def seq(self):
        from .seq import SSeq
        return SSeq(self.shape[0], lambda k: self[Sc("i", k)])

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() of array with symbolic dimension")

    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1:
            return bool(self.at(*[0] * self.ndim))
        if ctx().decide(sc(n) == 1):
            return bool(self.at(*[0] * self.ndim))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __int__(self):
        raise Unsupported("int(array)")

    def __index__(self):
        if self.ndim == 0:
            return self.scalar().__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __float__(self):
        return self.scalar().__float__()

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"SArr{self.shape}:{self.k}"

    def __matmul__(self, o):
        return matmul(self, o, self.xp)

    def __rmatmul__(self, o):
        return matmul(o, self, self.xp)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return elementwise(s_eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return elementwise(s_ne, self, o)

    def __neg__(self):
        return elementwise(s_neg, self)

    def __pos__(self):
        return self.copy_()

    def __abs__(self):
        return elementwise(s_abs, self)

    def __invert__(self):
        return elementwise(s_not, self)


def memo(get):
    cache = {}

    def g(*i):
        key = tuple(x.get_id() for x in i)
        hit = cache.get(key)
        if hit is None:
            v = get(*i)
            cache[key] = (v, i)
            return v
        return hit[0]

    return g


def cast_store(v, k):
    if v.k == k:
        return v
    if ORDER[v.k] <= ORDER[k]:
        return cast(v, k)
    if k == "i" and v.k == "r":
        from .vals import s_trunc
        return s_trunc(v)
    if k == "r" and v.k == "c":
        raise TypeError("complex to float assignment")
    if k == "b":
        return cast(v, "b")
    raise TypeError(f"cannot store {v.k} in {k}")


OPS = {"add": s_add, "sub": s_sub, "mul": s_mul, "truediv": s_divarr, "floordiv": s_floordiv, "mod": s_mod,
       "pow": s_pow, "and": s_and, "or": s_or, "xor": s_xor, "lt": s_lt, "le": s_le, "gt": s_gt, "ge": s_ge}


def _install():
    for nm, op in OPS.items():
        def f(self, o, op=op):
            if not is_operand(o):
                return NotImplemented
            return elementwise(op, self, o)

        def rf(self, o, op=op):
            if not is_operand(o):
                return NotImplemented
            return elementwise(op, o, self, xp=self.xp)

        setattr(SArr, f"__{nm}__", f)
        if nm in ("lt", "le", "gt", "ge"):
            continue
        setattr(SArr, f"__r{nm}__", rf)

        def inf_(self, o, op=op, nm=nm):
            if not is_operand(o):
                return NotImplemented
            if not self.xp.mutable:
                return elementwise(op, self, o)
            r = elementwise(op, self, o)
            if isinstance(r, Sc):
                r = asarr(r, self.xp)
            if ORDER[r.k] > ORDER[self.k]:
                raise TypeError(f"cannot cast in-place result of {nm} from {r.k} to {self.k}")
            if r.ndim != self.ndim or not same_shape(r.shape, self.shape):
                raise ValueError("non-broadcastable output operand")
            rd = r.reader()
            self.write(lambda v, old: rd(*v), f"in-place {nm}")
            return self

        setattr(SArr, f"__i{nm}__", inf_)


def is_operand(o):
    if isinstance(o, SArr):
        return True
    if isinstance(o, (list, tuple, str, dict)) or o is None:
        return False
    try:
        return lift(o) is not None
    except Unsupported:
        raise


_install()


def same_shape(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
        elif not ctx().decide(z3i(x) == z3i(y)):
            return False
    return True


def asarr(x, xp):
    if isinstance(x, SArr):
        return x
    s = lift(x)
    if s is None:
        raise Unsupported(f"cannot make an array of {type(x).__name__}")
    return SArr((), s.k, lambda: s, xp)


def wrapres(a):
    """0-d results are array scalars."""
    if a.ndim == 0:
        s = a.reader()()
        return Sc(s.k, s.re, s.im, a.xp, s.inf)
    return a


def bdim(x, y):
    """Broadcast two dimensions: returns (dim, x is stretched, y is stretched)."""
    if isinstance(x, int) and isinstance(y, int):
        if x == y:
            return x, False, False
        if x == 1:
            return y, True, False
        if y == 1:
            return x, False, True
        raise ValueError(f"operands could not be broadcast together: {x} {y}")
    if isinstance(x, int) and x == 1:
        return y, True, False
    if isinstance(y, int) and y == 1:
        return x, False, True
    ex, ey = z3i(x), z3i(y)
    if ctx().decide(ex == ey):
        return (x if isinstance(x, int) else y), False, False
    if ctx().decide(ex == 1):
        return y, True, False
    if ctx().decide(ey == 1):
        return x, False, True
    raise ValueError("operands could not be broadcast together")


def broadcast_shapes(*shapes):
    out = ()
    for s in shapes:
        out, _, _ = bshape(out, tuple(s))
    return out


def bshape(a, b):
    n = max(len(a), len(b))
    out, fa, fb = [], [], []
    for i in range(n):
        ia, ib = i - (n - len(a)), i - (n - len(b))
        if ia < 0:
            out.append(b[ib])
            fb.append(False)
        elif ib < 0:
            out.append(a[ia])
            fa.append(False)
        else:
            d, x, y = bdim(a[ia], b[ib])
            out.append(d)
            fa.append(x)
            fb.append(y)
    return tuple(simp_dim(d) for d in out), fa, fb


def bmap(shape, target):
    """Index map of broadcasting `shape` to `target`."""
    out, fa, fb = bshape(tuple(shape), tuple(target))
    if len(out) != len(target) or any(fb):
        raise ValueError("cannot broadcast to the requested shape")
    off = len(target) - len(shape)

    def m(*i):
        return tuple(IV(0) if fa[j] else i[off + j] for j in range(len(shape)))

    return m


def elementwise(op, *args, xp=None):
    xs = []
    for a in args:
        if isinstance(a, SArr):
            xp = xp or a.xp
            xs.append(a)
        else:
            s = lift(a)
            if s is None:
                raise TypeError(f"unsupported operand {type(a).__name__}")
            xp = xp or s.xp
            xs.append(s)
    arrs = [x for x in xs if isinstance(x, SArr)]
    names = {x.xp.name for x in arrs}
    if len(names) > 1:
        raise TypeError(f"mixing arrays of different backends: {sorted(names)}")
    if not arrs:
        r = op(*xs)
        return Sc(r.k, r.re, r.im, xp, r.inf)
    shape = ()
    for a in arrs:
        shape, _, _ = bshape(shape, a.shape)
    readers = []
    for x in xs:
        if isinstance(x, SArr):
            rd = x.reader()
            if len(x.shape) == len(shape) and all((isinstance(p, int) and isinstance(q, int) and p == q) or
                                                  (not isinstance(p, int) and not isinstance(q, int) and p.re.eq(q.re))
                                                  for p, q in zip(x.shape, shape)):
                readers.append(rd)
            else:
                m = bmap(x.shape, shape)
                readers.append(lambda *i, rd=rd, m=m: rd(*m(*i)))
        else:
            readers.append(lambda *i, x=x: x)

    get = memo(lambda *i: op(*[r(*i) for r in readers]))
    # dtype from a probe element
    probe = op(*[Sc(x.k, *probe_terms(x.k)) if isinstance(x, SArr) else x for x in xs])
    r = SArr(shape, probe.k, get, xp or arrs[0].xp)
    return wrapres(r)


_PROBES = {"b": (z3.Const("!pb", z3.BoolSort()),), "i": (z3.Const("!pi", z3.IntSort()),),
           "r": (z3.Const("!pr", z3.RealSort()),),
           "c": (z3.Const("!pr", z3.RealSort()), z3.Const("!pj", z3.RealSort()))}


def probe_terms(k):
    return _PROBES[k]


# ------------------------------------------------------------------ indexing
def norm_int(i, n, what="index"):
    """Bounds-checked non-negative index (forks to IndexError when out of bounds)."""
    if isinstance(i, int) and isinstance(n, int):
        if -n <= i < n:
            return IV(i % n if n else 0)
        raise IndexError(f"{what} {i} is out of bounds for axis with size {n}")
    e, m = z3i(i), z3i(n)
    if ctx().decide(e >= 0):
        if ctx().decide(e < m):
            return e
        raise IndexError(f"{what} out of bounds")
    if ctx().decide(e >= -m):
        return z3.simplify(e + m)
    raise IndexError(f"{what} out of bounds")


def norm_slice(s, n):
    """Start, length, step of a slice over an axis of size n (numpy clamping semantics)."""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        step = simp_dim(step)
        if not isinstance(step, int):
            raise Unsupported("symbolic slice step")
    if step == 0:
        raise ValueError("slice step cannot be zero")

    def clampv(v, lo, hi):
        # v -> within [lo, hi] after wrapping negatives
        v = simp_dim(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return max(lo, min(v, hi))
        e, m = z3i(v), z3i(n)
        if ctx().decide(e < 0):
            e = z3.simplify(e + m)
            if ctx().decide(e < lo):
                return lo
        h = z3i(hi)
        if ctx().decide(e > h):
            return hi
        return simp_dim(Sc("i", e))

    if step > 0:
        start = 0 if s.start is None else clampv(s.start, 0, n)
        stop = n if s.stop is None else clampv(s.stop, 0, n)
        if isinstance(start, int) and isinstance(stop, int):
            ln = max(0, -(-(stop - start) // step))
        else:
            a, b = z3i(start), z3i(stop)
            if isinstance(start, int) and start == 0:
                ln = stop if step == 1 else None
            else:
                ln = None
            if ln is None:
                if ctx().decide(b >= a):
                    d = z3.simplify(b - a)
                    ln = simp_dim(Sc("i", d if step == 1 else (d + (step - 1)) / step))
                else:
                    ln = 0
        return start, ln, step
    # negative step
    top = simp_dim(sc(n) - 1) if not isinstance(n, int) else n - 1

    def cl(v):
        v = simp_dim(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return max(-1, min(v, n - 1))
        e, m = z3i(v), z3i(n)
        if ctx().decide(e < 0):
            e = z3.simplify(e + m)
            if ctx().decide(e < -1):
                return -1
        if ctx().decide(e >= m):
            return top
        return simp_dim(Sc("i", e))

    start = top if s.start is None else cl(s.start)
    stop = -1 if s.stop is None else cl(s.stop)
    if isinstance(start, int) and isinstance(stop, int):
        ln = max(0, -(-(start - stop) // -step))
    else:
        d = z3.simplify(z3i(start) - z3i(stop))
        if ctx().decide(d >= 0):
            ln = simp_dim(Sc("i", d if step == -1 else (d + (-step - 1)) / (-step)))
        else:
            ln = 0
    return start, ln, step


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nspec = 0
    for x in key:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, SArr) and x.k == "b":
            nspec += x.ndim
        elif isinstance(x, Sc) and x.k == "b":
            nspec += 0
        else:
            nspec += 1
    if nspec > a.ndim:
        raise IndexError("too many indices for array")
    fill = [slice(None)] * (a.ndim - nspec)
    n_ell = sum(1 for x in key if x is Ellipsis)
    if n_ell > 1:
        raise IndexError("an index can only have a single ellipsis")
    if n_ell:
        p = next(i for i, x in enumerate(key) if x is Ellipsis)
        key[p:p + 1] = fill
    else:
        key += fill
    return key


def is_int_like(x):
    if isinstance(x, bool):
        return False
    if isinstance(x, int):
        return True
    if isinstance(x, Sc):
        return x.k == "i"
    if isinstance(x, SArr):
        return x.ndim == 0 and x.k == "i"
    if hasattr(x, "__index__") and not isinstance(x, SArr):
        return True
    return False


def parse(a, key):
    """Per-output-axis description.  Returns (kind, data)."""
    key = expand_key(a, key)
    items = []   # ('int', e) ('slice', start, len, step) ('new',) ('mask', Mask) ('arr', SArr)
    ax = 0
    for x in key:
        if x is None:
            items.append(("new",))
            continue
        if isinstance(x, SArr) and x.k == "b" and x.ndim >= 1:
            if x.ndim != 1:
                if x.ndim == a.ndim and len(key) == 1:
                    items.append(("maskn", x))
                    ax += x.ndim
                    continue
                raise Unsupported("multi-dimensional mask")
            if not same_shape((x.shape[0],), (a.shape[ax],)):
                raise IndexError("boolean index did not match indexed array")
            items.append(("mask", Mask.of(x), ax))
            ax += 1
            continue
        if isinstance(x, slice):
            st, ln, step = norm_slice(x, a.shape[ax])
            items.append(("slice", st, ln, step, ax))
            ax += 1
            continue
        if is_int_like(x):
            items.append(("int", norm_int(x.scalar() if isinstance(x, SArr) else (x if isinstance(x, (int, Sc)) else int(x)),
                                          a.shape[ax]), ax))
            ax += 1
            continue
        if isinstance(x, SArr) and x.k == "i":
            items.append(("arr", x, ax))
            ax += 1
            continue
        if isinstance(x, (Sc, bool)) and (isinstance(x, bool) or x.k == "b"):
            raise Unsupported("0-d boolean index")
        if isinstance(x, SArr) and x.k in "rc":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if isinstance(x, list):
            raise Unsupported("list index")
        raise IndexError(f"invalid index {type(x).__name__}")
    return items


def _idx_of_slice(st, step, i):
    s = z3i(st)
    if step == 1:
        return i if z3.is_int_value(s) and s.as_long() == 0 else z3.simplify(s + i)
    return z3.simplify(s + step * i)


def get_index(a, key):
    if isinstance(key, str):
        raise IndexError("only integers, slices...")
    items = parse(a, key)
    if any(it[0] in ("mask", "arr", "maskn") for it in items):
        return fancy_get(a, items)
    if all(it[0] == "int" for it in items):
        return a.at(*[it[1] for it in items])
    shape = []
    for it in items:
        if it[0] == "slice":
            shape.append(it[2])
        elif it[0] == "new":
            shape.append(1)

    def imap(*i):
        out = []
        p = 0
        for it in items:
            if it[0] == "int":
                out.append(it[1])
            elif it[0] == "slice":
                out.append(_idx_of_slice(it[1], it[3], i[p]))
                p += 1
            else:
                p += 1
        return tuple(out)

    def inv(*b):
        conds, out = [], []
        q = 0
        for it in items:
            if it[0] == "int":
                conds.append(b[q] == it[1])
                q += 1
            elif it[0] == "slice":
                st, ln, step = z3i(it[1]), z3i(it[2]), it[3]
                if step == 1:
                    v = z3.simplify(b[q] - st)
                    conds.append(z3.And(v >= 0, v < ln))
                elif step == -1:
                    v = z3.simplify(st - b[q])
                    conds.append(z3.And(v >= 0, v < ln))
                else:
                    v = (b[q] - st) / step
                    conds.append(z3.And(v >= 0, v < ln, st + v * step == b[q]))
                out.append(v)
                q += 1
            else:
                out.append(IV(0))
        return z3.And(*conds) if conds else z3.BoolVal(True), tuple(out)

    return a.view(shape, imap, inv)


def fancy_get(a, items):
    rd = a.reader()
    arrs = [it for it in items if it[0] == "arr"]
    masks = [it for it in items if it[0] == "mask"]
    if any(it[0] == "maskn" for it in items):
        m = items[0][1]
        if not same_shape(m.shape, a.shape):
            raise IndexError("boolean index did not match indexed array")
        mk = MaskN.of(m)
        return SArr((mk.count(),), a.k, lambda i: rd(*mk.sel(i)), a.xp)
    if len(masks) + len(arrs) > 1 and masks:
        raise Unsupported("several fancy indices")
    if masks:
        shape = []
        for it in items:
            if it[0] == "slice":
                shape.append(it[2])
            elif it[0] == "new":
                shape.append(1)
            elif it[0] == "mask":
                shape.append(it[1].count())
        if sum(1 for it in items if it[0] == "int"):
            raise Unsupported("mixing integers and masks")

        def get(*i):
            out = []
            p = 0
            for it in items:
                if it[0] == "slice":
                    out.append(_idx_of_slice(it[1], it[3], i[p]))
                elif it[0] == "mask":
                    out.append(it[1].sel(i[p]))
                p += 1
            return rd(*out)

        return SArr(shape, a.k, get, a.xp)
    # integer arrays: broadcast together; adjacent or leading
    bs = ()
    for it in arrs:
        bs, _, _ = bshape(bs, it[1].shape)
    nb = len(bs)
    # bounds
    readers = []
    for it in arrs:
        m = bmap(it[1].shape, bs)
        r = it[1].reader()
        readers.append((it[2], r, m))
        check_bounds(it[1], a.shape[it[2]])
    fancy_axes = [i for i, it in enumerate(items) if it[0] in ("arr", "int")]
    contiguous = fancy_axes == list(range(fancy_axes[0], fancy_axes[0] + len(fancy_axes)))
    shape, pos = [], None
    for i, it in enumerate(items):
        if it[0] in ("arr", "int"):
            if pos is None and contiguous:
                pos = len(shape)
                shape.extend(bs)
        elif it[0] == "slice":
            shape.append(it[2])
        else:
            shape.append(1)
    if not contiguous:
        shape = list(bs) + shape
        pos = 0

    def get(*i):
        bi = i[pos:pos + nb]
        rest = list(i[:pos]) + list(i[pos + nb:])
        out = []
        for it in items:
            if it[0] == "arr":
                r, m = next((r, m) for ax, r, m in readers if ax == it[2])
                e = r(*m(*bi)).re
                n = z3i(a.shape[it[2]])
                out.append(wrap_neg(e, n))
            elif it[0] == "int":
                out.append(it[1])
            elif it[0] == "slice":
                out.append(_idx_of_slice(it[1], it[3], rest.pop(0)))
            else:
                rest.pop(0)
        return rd(*out)

    return wrapres(SArr(shape, a.k, memo(get), a.xp))


def wrap_neg(e, n):
    if z3.is_int_value(e):
        return e if e.as_long() >= 0 else z3.simplify(e + n)
    if getattr(ctx(), "nonneg_index", True):
        # decided by check_bounds: indices are non-negative
        return e
    return z3.If(e < 0, e + n, e)


def check_bounds(ia, n):
    """All elements of an integer index array lie in [0, n) (forks: IndexError otherwise)."""
    c = ctx()
    idx = [c.fresh("ix!fb", "i") for _ in ia.shape]
    rng = [z3.And(i >= 0, i < z3i(d)) for i, d in zip(idx, ia.shape)]
    e = ia.reader()(*idx).re
    ok = z3.Implies(z3.And(*rng), z3.And(e >= 0, e < z3i(n)))
    if c.entails(ok, timeout=4000, rounds=3):
        return
    neg = z3.Implies(z3.And(*rng), z3.And(e >= -z3i(n), e < z3i(n)))
    if c.entails(neg, timeout=3000, rounds=3):
        raise Unsupported("possibly negative index array")
    if c.choose("bounds"):
        # out of bounds somewhere
        c.assume(z3.And(*rng))
        c.assume(z3.Not(z3.And(e >= -z3i(n), e < z3i(n))))
        raise IndexError("index array out of bounds")
    rd = ia.reader()
    shp = ia.shape
    if len(shp) == 1:
        c.forall(lambda t: z3.And(rd(t).re >= 0, rd(t).re < z3i(n)), 0, shp[0])
    # assumption only on the remaining branch


def set_index(a, key, value, op, what="assignment"):
    """a[key] = value, or a[key] op= value."""
    items = parse(a, key)
    val = value if isinstance(value, SArr) else None
    sval = None if val is not None else lift(value)
    if val is None and sval is None:
        if isinstance(value, (list, tuple)):
            val = a.xp.asarray(value)
        else:
            raise TypeError(f"cannot assign {type(value).__name__}")
    if val is not None and val.ndim == 0:
        sval, val = val.scalar(), None

    def comb(o, v):
        return v if op is None else op(o, v)

    if any(it[0] == "maskn" for it in items):
        m = items[0][1]
        if not same_shape(m.shape, a.shape):
            raise IndexError("boolean index did not match indexed array")
        mrd = m.reader()
        if sval is not None:
            a.write(lambda v, o: ite(mrd(*v).re, comb(o, sval), o), what)
            return
        mk = MaskN.of(m)
        if not same_shape(val.shape, (mk.count(),)):
            raise ValueError("NumPy boolean array indexing assignment cannot assign")
        vr = val.reader()
        a.write(lambda v, o: ite(mrd(*v).re, comb(o, vr(mk.rank(*v))), o), what)
        return
    shape = []
    for it in items:
        if it[0] == "slice":
            shape.append(it[2])
        elif it[0] == "new":
            shape.append(1)
        elif it[0] == "mask":
            shape.append(it[1].count())
        elif it[0] == "arr":
            if it[1].ndim != 1:
                raise Unsupported("assignment with N-d index arrays")
            shape.append(it[1].shape[0])
    if sum(1 for it in items if it[0] == "arr") > 1:
        raise Unsupported("assignment with several index arrays")
    if val is not None:
        if val.ndim > len(shape):
            raise ValueError("could not broadcast input array")
        m = bmap(val.shape, tuple(simp_dim(d) for d in shape))
        vr0 = val.reader()

        def vread(i):
            return vr0(*m(*i))
    else:
        def vread(i):
            return sval
    if val is not None and ORDER[val.k] > ORDER[a.k] and op is not None:
        raise TypeError("cannot cast in-place")

    scat = next((it for it in items if it[0] == "arr"), None)
    if scat is not None:
        from .xp import inverse_index
        check_bounds(scat[1], a.shape[scat[2]])
        hit, last = inverse_index(scat[1], a.shape[scat[2]])

    def cond_val(v, o):
        conds, i = [], []
        q = 0
        for it in items:
            if it[0] == "int":
                conds.append(v[q] == it[1])
                q += 1
            elif it[0] == "slice":
                st, ln, step = z3i(it[1]), z3i(it[2]), it[3]
                if step == 1:
                    p = z3.simplify(v[q] - st)
                    conds.append(z3.And(p >= 0, p < ln))
                else:
                    raise Unsupported("strided assignment")
                i.append(p)
                q += 1
            elif it[0] == "mask":
                conds.append(it[1].cond(v[q]))
                i.append(it[1].rank(v[q]))
                q += 1
            elif it[0] == "arr":
                conds.append(hit(v[q]))
                i.append(last(v[q]))
                q += 1
            else:
                i.append(IV(0))
        c = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
        if z3.is_false(c):
            return None
        return ite(c, cast_store(comb(o, vread(tuple(i))), a.buf.k), o)

    a.write(cond_val, what)


# ------------------------------------------------------------------ masks
class Mask:
    """Selection by a 1-d boolean array: count, sel(j) = j-th true index, rank(i) = number of trues before i."""

    def __init__(self, n, body):
        self.n = z3i(n)
        self.body = body
        self.app_cnt, self.app_sel, self.app_rank, self._cond = binder_mask(self.n, body)

    @staticmethod
    def of(m):
        rd = m.reader()
        return Mask(m.shape[0], lambda k: rd(k).re)

    def count(self):
        return simp_dim(Sc("i", self.app_cnt))

    def sel(self, j):
        return self.app_sel(j)

    def rank(self, i):
        return self.app_rank(i)

    def cond(self, i):
        return self._cond(i)


class MaskN:
    """Boolean mask of any rank (row-major order left unspecified beyond bijectivity and monotone first axis)."""

    def __init__(self, shape, body):
        self.shape = [z3i(d) for d in shape]
        self.cnt, self.sel, self.rank = binder_maskn(self.shape, body)

    @staticmethod
    def of(m):
        if m.ndim == 1:
            mm = Mask.of(m)
            o = object.__new__(MaskN)
            o.shape = [z3i(m.shape[0])]
            o.cnt = mm.app_cnt
            o.sel = lambda j: (mm.sel(j),)
            o.rank = mm.rank
            return o
        rd = m.reader()
        return MaskN(m.shape, lambda *k: rd(*k).re)

    def count(self):
        return simp_dim(Sc("i", self.cnt))


def _binder(prefix, body, nk=1):
    """Canonical (symbol id, parameter terms, template, bound vars, param consts) for a body over nk indices."""
    ks = [z3.FreshConst(z3.IntSort(), "ix!b") for _ in range(nk)]
    e = z3.simplify(body(*ks))
    kv = [z3.Const(f"!k{j}", z3.IntSort()) for j in range(nk)]
    params = []
    tmpl = _abstract_n(e, ks, kv, {}, params, {})
    key = f"{prefix}|{nk}|{tmpl.sexpr()}|" + ",".join(str(p.sort()) for p, _ in params)
    return key, [t for _, t in params], tmpl, kv, [p for p, _ in params]


def _has(e, ks, cache):
    i = e.get_id()
    if i in cache:
        return cache[i]
    r = any(e.eq(k) for k in ks) or any(_has(c, ks, cache) for c in e.children())
    cache[i] = r
    return r


def _abstract_n(e, ks, kv, cache, params, pmap):
    for k, v in zip(ks, kv):
        if e.eq(k):
            return v
    if not _has(e, ks, cache):
        if sums._is_lit(e):
            return e
        i = e.get_id()
        if i not in pmap:
            p = z3.Const(f"!q{len(params)}{e.sort()}", e.sort())
            pmap[i] = p
            params.append((p, e))
        return pmap[i]
    ch = [_abstract_n(c, ks, kv, cache, params, pmap) for c in e.children()]
    return rebuild(e, ch)


def rebuild(e, ch):
    kd = e.decl().kind()
    if kd == z3.Z3_OP_ADD:
        return z3.Sum(*ch)
    if kd == z3.Z3_OP_MUL:
        return z3.Product(*ch)
    if kd == z3.Z3_OP_AND:
        return z3.And(*ch)
    if kd == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if kd == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return e.decl()(*ch)


_MASKS = {}


def binder_mask(n, body):
    key, args, tmpl, kv, ps = _binder("mask", body)
    I = z3.IntSort()
    if key not in _MASKS:
        t = len(_MASKS)
        srt = [p.sort() for p in ps]
        cnt = z3.Function(f"cnt#{t}", I, *srt, I)
        sel = z3.Function(f"sel#{t}", I, *srt, I, I)
        rank = z3.Function(f"rank#{t}", I, *srt, I, I)

        def inst(params, k):
            return z3.substitute(tmpl, (kv[0], k), *zip(ps, params))

        def cnt_u(a):
            n_, p = a.arg(0), a.children()[1:]
            s0 = sel(n_, *p, IV(0))
            return [a >= 0, z3.Implies(n_ >= 0, a <= n_),
                    z3.Implies(a > 0, z3.And(s0 >= 0, s0 < n_, inst(p, s0)))]

        def sel_u(a):
            ch = a.children()
            n_, p, j = ch[0], ch[1:-1], ch[-1]
            c_ = cnt(n_, *p)
            return [z3.Implies(z3.And(j >= 0, j < c_), z3.And(a >= 0, a < n_, inst(p, a), rank(n_, *p, a) == j))]

        def rank_u(a):
            ch = a.children()
            n_, p, i = ch[0], ch[1:-1], ch[-1]
            c_ = cnt(n_, *p)
            return [z3.Implies(z3.And(i >= 0, i < n_, inst(p, i)),
                               z3.And(a >= 0, a < c_, sel(n_, *p, a) == i))]

        def sel_p(a, b):
            ca, cb = a.children(), b.children()
            same = [x == y for x, y in zip(ca[:-1], cb[:-1])]
            return [z3.Implies(z3.And(*same, ca[-1] >= 0, ca[-1] < cb[-1], cb[-1] < cnt(*ca[:-1])), a < b)]

        core.unary_facts(f"cnt#{t}", cnt_u)
        core.unary_facts(f"sel#{t}", sel_u)
        core.unary_facts(f"rank#{t}", rank_u)
        core.pair_facts(f"sel#{t}", sel_p)
        _MASKS[key] = (cnt, sel, rank, inst)
    cnt, sel, rank, inst = _MASKS[key]
    return cnt(n, *args), (lambda j: sel(n, *args, j)), (lambda i: rank(n, *args, i)), (lambda i: inst(args, i))


def binder_maskn(shape, body):
    nk = len(shape)
    key, args, tmpl, kv, ps = _binder("maskn", body, nk)
    I = z3.IntSort()
    if key not in _MASKS:
        t = len(_MASKS)
        srt = [p.sort() for p in ps]
        base = [I] * nk + srt
        cnt = z3.Function(f"ncnt#{t}", *base, I)
        sels = [z3.Function(f"nsel{d}#{t}", *base, I, I) for d in range(nk)]
        rank = z3.Function(f"nrank#{t}", *base, *([I] * nk), I)

        def inst(params, ks):
            return z3.substitute(tmpl, *zip(kv, ks), *zip(ps, params))

        def cnt_u(a):
            return [a >= 0]

        def sel_u(a):
            ch = a.children()
            b, j = ch[:-1], ch[-1]
            s = [f(*b, j) for f in sels]
            rng = [z3.And(x >= 0, x < b[d]) for d, x in enumerate(s)]
            return [z3.Implies(z3.And(j >= 0, j < cnt(*b)), z3.And(*rng, inst(b[nk:], s), rank(*b, *s) == j))]

        def rank_u(a):
            ch = a.children()
            b, ks = ch[:len(ch) - nk], ch[len(ch) - nk:]
            rng = [z3.And(x >= 0, x < b[d]) for d, x in enumerate(ks)]
            return [z3.Implies(z3.And(*rng, inst(b[nk:], ks)),
                               z3.And(a >= 0, a < cnt(*b), *[f(*b, a) == x for f, x in zip(sels, ks)]))]

        core.unary_facts(f"ncnt#{t}", cnt_u)
        for f in sels:
            core.unary_facts(f.name(), sel_u)
        core.unary_facts(f"nrank#{t}", rank_u)
        _MASKS[key] = (cnt, sels, rank)
    cnt, sels, rank = _MASKS[key]
    b = [*shape, *args]
    return cnt(*b), (lambda j: tuple(f(*b, j) for f in sels)), (lambda *i: rank(*b, *i))


# existential / extremum binders -------------------------------------------------
_EX = {}


def exists(shape, body):
    """z3 Bool: some index in the box satisfies body."""
    dims = [simp_dim(d) for d in shape]
    if all(isinstance(d, int) for d in dims):
        import itertools
        import math as _m
        if _m.prod(dims) <= 16:
            return z3.simplify(z3.Or(*[body(*[IV(i) for i in ix]) for ix in itertools.product(*map(range, dims))]))
    nk = len(dims)
    zd = [z3i(d) for d in dims]
    key, args, tmpl, kv, ps = _binder("ex", body, nk)
    I = z3.IntSort()
    if z3.is_false(tmpl):
        return z3.BoolVal(False)
    if key not in _EX:
        t = len(_EX)
        srt = [I] * nk + [p.sort() for p in ps]
        ex = z3.Function(f"ex#{t}", *srt, z3.BoolSort())
        wit = [z3.Function(f"exw{d}#{t}", *srt, I) for d in range(nk)]

        def inst(params, ks):
            return z3.substitute(tmpl, *zip(kv, ks), *zip(ps, params))

        def ex_u(a):
            ch = a.children()
            w = [f(*ch) for f in wit]
            rng = [z3.And(x >= 0, x < ch[d]) for d, x in enumerate(w)]
            return [z3.Implies(a, z3.And(*rng, inst(ch[nk:], w)))]

        def ex_inst(a, ks):
            ch = a.children()
            rng = [z3.And(x >= 0, x < ch[d]) for d, x in enumerate(ks)]
            return z3.Implies(z3.And(*rng, inst(ch[nk:], ks)), a)

        core.unary_facts(f"ex#{t}", ex_u)
        _EX[key] = (ex, nk, ex_inst)
        EXINST[f"ex#{t}"] = (nk, ex_inst)
    ex = _EX[key][0]
    return ex(*zd, *args)


EXINST = {}


def argext(n, body, mode):
    """Index term of the first maximum/minimum of body over [0, n)."""
    n = z3i(n)
    key, args, tmpl, kv, ps = _binder("arg" + mode, body)
    I = z3.IntSort()
    if key not in _EX:
        t = len(_EX)
        f = z3.Function(f"arg{mode}#{t}", I, *[p.sort() for p in ps], I)

        def inst(params, k):
            return z3.substitute(tmpl, (kv[0], k), *zip(ps, params))

        def u(a):
            return [z3.Implies(a.arg(0) > 0, z3.And(a >= 0, a < a.arg(0)))]

        def ainst(a, ks):
            k = ks[0]
            p = a.children()[1:]
            v, w = inst(p, a), inst(p, k)
            if mode == "max":
                le, lt = v >= w, v > w
            else:
                le, lt = v <= w, v < w
            return z3.Implies(z3.And(k >= 0, k < a.arg(0)), z3.And(le, z3.Implies(k < a, lt)))

        core.unary_facts(f"arg{mode}#{t}", u)
        _EX[key] = (f, 1, ainst)
        EXINST[f"arg{mode}#{t}"] = (1, ainst)
    f = _EX[key][0]
    return f(n, *args)


# ------------------------------------------------------------------ linear algebra
def rsum(lo, hi, body):
    """Sum of scalars (handles complex)."""
    p = body(z3.FreshConst(z3.IntSort(), "ix!p"))
    if p.k == "c":
        re = sums.sum_(lo, hi, lambda k: body(k).re)
        im = sums.sum_(lo, hi, lambda k: body(k).im)
        return Sc("c", re, im)
    k = "i" if p.k in "bi" else "r"
    return Sc(k, sums.sum_(lo, hi, lambda q: cast(body(q), k).re))


def matmul(a, b, xp):
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        raise ValueError("matmul: input operand does not have enough dimensions")
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: 0-d operand")
    if a.xp.name != b.xp.name:
        raise TypeError("mixing arrays of different backends")
    ra, rb = a.reader(), b.reader()
    ca, cb = a.shape[-1], (b.shape[-2] if b.ndim > 1 else b.shape[0])
    if not same_shape((ca,), (cb,)):
        raise ValueError("matmul: mismatch in core dimension")
    n = ca if isinstance(ca, int) else cb
    la = a.shape[:-2] if a.ndim > 1 else ()
    lb = b.shape[:-2] if b.ndim > 1 else ()
    lead, _, _ = bshape(la, lb)
    ma, mb = bmap(la, lead), bmap(lb, lead)
    nl = len(lead)
    shape = list(lead)
    if a.ndim > 1:
        shape.append(a.shape[-2])
    if b.ndim > 1:
        shape.append(b.shape[-1])

    def get(*i):
        l = i[:nl]
        rest = list(i[nl:])
        ia = [*ma(*l)]
        if a.ndim > 1:
            ia.append(rest.pop(0))
        ib = [*mb(*l)]
        col = [rest.pop(0)] if b.ndim > 1 else []
        return rsum(0, n, lambda k: s_mul(ra(*ia, k), rb(*ib, k, *col)))

    k = a.k if ORDER[a.k] >= ORDER[b.k] else b.k
    return wrapres(SArr(shape, k, memo(get), xp))


def swap_last(a):
    if a.ndim < 2:
        raise ValueError("matrix_transpose needs at least two dimensions")
    s = a.shape[:-2] + (a.shape[-1], a.shape[-2])
    return a.view(s, lambda *i: (*i[:-2], i[-1], i[-2]))
