"""Contract of one-dimensional linear interpolation on an increasing grid."""
import itertools

import z3

from . import core

R, I = z3.RealSort(), z3.IntSort()
_cnt = {}


def interp_term(q, n, xt, ft, left, right):
    """z3 term of numpy.interp(q, x, f, left, right), n points, x increasing.

    bracket index j = bracket(q): x[j] <= q < x[j+1] for x[0] <= q < x[n-1].
    """
    from .arr import _binder
    key, args, tmpl, kv, ps = _binder("interp", lambda k: xt(k) == 0)
    if key not in _cnt:
        t = len(_cnt)
        f = z3.Function(f"bracket#{t}", I, *[p.sort() for p in ps], R, I)

        def xval(params, k):
            e = z3.substitute(tmpl, (kv[0], k), *zip(ps, params))
            return e

        _cnt[key] = f
    f = _cnt[key]
    j = f(n, *args, q)
    lo, hi = z3.IntVal(0), z3.simplify(n - 1)
    x0, x1 = xt(lo), xt(hi)
    nm = f.name()
    if nm not in core.UNARY:
        # facts through a closure on this grid (grids with the same canonical body share the symbol and parameters)
        def u(a, tmpl=tmpl, kv=kv, ps=ps):
            ch = a.children()
            n_, p, qq = ch[0], ch[1:-1], ch[-1]

            def X(k):
                e = z3.substitute(tmpl, (kv[0], k), *zip(ps, p))
                return e

            return GRID_FACTS[nm](n_, p, qq, a)

        core.UNARY[nm] = [u]
        GRID_FACTS[nm] = _mkfacts(tmpl, kv, ps, xt, args)
    xj, xk = xt(j), xt(z3.simplify(j + 1))
    fj, fk = ft(j), ft(z3.simplify(j + 1))
    inner = fj + (fk - fj) / (xk - xj) * (q - xj)
    f0, f1 = ft(lo), ft(hi)
    return z3.If(q < x0, left if left is not None else f0,
                 z3.If(q > x1, right if right is not None else f1,
                       z3.If(q == x1, f1, inner)))


GRID_FACTS = {}


def _mkfacts(tmpl, kv, ps, xt, args):
    # tmpl is "x(k) == 0" (possibly simplified); recover x by the original closure with parameters substituted
    k0 = z3.Const("!kk", I)
    xe = xt(k0)

    def facts(n_, p, qq, a):
        def X(k):
            e = z3.substitute(xe, (k0, k))
            sub = [(s, t) for s, t in zip(args, p) if not s.eq(t)]
            return z3.substitute(e, *sub) if sub else e

        return [z3.Implies(z3.And(n_ >= 2, qq >= X(z3.IntVal(0)), qq < X(n_ - 1)),
                           z3.And(a >= 0, a + 1 < n_, X(a) <= qq, qq < X(a + 1)))]

    return facts
