"""Finite sums and products over symbolic ranges.

Sum(lo, hi, body) is an uninterpreted application S#id(lo, hi, params) whose symbol is shared by all sums with the
same body up to renaming and instantiation of the parameters.  Ground facts (empty sum, step, additivity over
intervals, extensionality, sign) are added per query for the sums that occur in it.
"""
from __future__ import annotations

import z3

from .core import Unsupported

REG = {}       # decl name -> (decl, template, kvar, params)
BYKEY = {}
KV = z3.Const("!k", z3.IntSort())


def reset():
    pass


def _contains(e, k, cache):
    i = e.get_id()
    if i in cache:
        return cache[i]
    r = e.eq(k) or any(_contains(c, k, cache) for c in e.children())
    cache[i] = r
    return r


def _is_lit(e):
    return z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e)


def _abstract(e, k, cache, params, pmap):
    if e.eq(k):
        return KV
    if not _contains(e, k, cache):
        if _is_lit(e):
            return e
        i = e.get_id()
        if i not in pmap:
            p = z3.Const(f"!p{len(params)}{e.sort()}", e.sort())
            pmap[i] = p
            params.append((p, e))
        return pmap[i]
    ch = [_abstract(c, k, cache, params, pmap) for c in e.children()]
    d = e.decl()
    if d.kind() == z3.Z3_OP_UNINTERPRETED:
        return d(*ch)
    kd = d.kind()
    if kd == z3.Z3_OP_ADD:
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return z3.Sum(*ch) if len(ch) > 2 else r
    if kd == z3.Z3_OP_MUL:
        return z3.Product(*ch) if len(ch) > 2 else ch[0] * ch[1]
    if kd == z3.Z3_OP_AND:
        return z3.And(*ch)
    if kd == z3.Z3_OP_OR:
        return z3.Or(*ch)
    return d(*ch)


def _flatten_add(e, sign, out):
    if z3.is_app(e):
        kd = e.decl().kind()
        if kd == z3.Z3_OP_ADD:
            for c in e.children():
                _flatten_add(c, sign, out)
            return
        if kd == z3.Z3_OP_SUB and e.num_args() == 2:
            _flatten_add(e.arg(0), sign, out)
            _flatten_add(e.arg(1), -sign, out)
            return
        if kd == z3.Z3_OP_UMINUS:
            _flatten_add(e.arg(0), -sign, out)
            return
    out.append((sign, e))


def _flatten_mul(e, out, inv):
    if z3.is_app(e):
        kd = e.decl().kind()
        if kd == z3.Z3_OP_MUL:
            for c in e.children():
                _flatten_mul(c, out, inv)
            return
        if kd == z3.Z3_OP_DIV and e.sort() == z3.RealSort():
            _flatten_mul(e.arg(0), out, inv)
            _flatten_mul(e.arg(1), out, not inv)
            return
        if kd == z3.Z3_OP_UMINUS:
            out.append((z3.RealVal(-1) if e.sort() == z3.RealSort() else z3.IntVal(-1), inv))
            _flatten_mul(e.arg(0), out, inv)
            return
        if kd == z3.Z3_OP_TO_REAL:
            a = e.arg(0)
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL:
                for c in a.children():
                    _flatten_mul(z3.ToReal(c), out, inv)
                return
    out.append((e, inv))


def _shift(e, k):
    """If k occurs only as (k + c) for one k-free c, return (e with k for k+c, c)."""
    cache = {}
    forms = {}
    ok = [True]
    naked = [False]

    def walk(t):
        if not _contains(t, k, cache):
            return
        if t.eq(k):
            naked[0] = True
            return
        if z3.is_app(t) and t.sort() == z3.IntSort() and t.decl().kind() == z3.Z3_OP_ADD:
            rest = [c for c in t.children() if not c.eq(k)]
            if len(rest) == t.num_args() - 1 and not any(_contains(c, k, cache) for c in rest):
                off = rest[0] if len(rest) == 1 else z3.Sum(*rest)
                off = z3.simplify(off)
                forms.setdefault(off.sexpr(), (off, []))[1].append(t)
                return
        for c in t.children():
            walk(c)

    walk(e)
    if naked[0] or len(forms) != 1:
        return e, None
    off, ts = next(iter(forms.values()))
    return z3.substitute(e, *[(t, k) for t in ts]), off


def sum_(lo, hi, body, name="ix!s", expand=True):
    """z3 term of  sum_{k=lo}^{hi-1} body(k);  body maps a z3 Int to a z3 Real/Int term."""
    lo, hi = _z(lo), _z(hi)
    slo, shi = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(slo) and z3.is_int_value(shi) and shi.as_long() - slo.as_long() <= 8:
        ts = [body(z3.IntVal(i)) for i in range(slo.as_long(), shi.as_long())]
        if not ts:
            s = body(z3.IntVal(0)).sort()
            return z3.IntVal(0) if s == z3.IntSort() else z3.RealVal(0)
        r = ts[0]
        for t in ts[1:]:
            r = r + t
        return r
    k = z3.FreshConst(z3.IntSort(), "ix!b")
    e = z3.simplify(body(k))
    if expand:
        e = z3.simplify(e, som=True) if _small(e) else e
    terms = []
    _flatten_add(e, 1, terms)
    total = None
    for sign, t in terms:
        v = _mono(slo, shi, t, k)
        v = -v if sign < 0 else v
        total = v if total is None else total + v
    return z3.simplify(total)


def _small(e, lim=400):
    n = 0
    st = [e]
    while st:
        t = st.pop()
        n += 1
        if n > lim:
            return False
        st.extend(t.children())
    return True


def _mono(lo, hi, t, k):
    cache = {}
    fac = []
    _flatten_mul(t, fac, False)
    isint = t.sort() == z3.IntSort()
    outer, inner = [], []
    for f, inv in fac:
        (inner if _contains(f, k, cache) else outer).append((f, inv))
    coef = None
    for f, inv in outer:
        if inv:
            coef = (z3.RealVal(1) if coef is None else coef) / f
        else:
            coef = f if coef is None else coef * f
    if not inner:
        cnt = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        if not isint:
            cnt = z3.ToReal(cnt)
        return cnt if coef is None else coef * cnt
    body = None
    for f, inv in sorted(inner, key=lambda p: p[0].sexpr()):
        if inv:
            body = (z3.RealVal(1) if body is None else body) / f
        else:
            body = f if body is None else body * f
    body, off = _shift(body, k)
    l, h = lo, hi
    if off is not None:
        l, h = z3.simplify(lo + off), z3.simplify(hi + off)
    app = _app(l, h, body, k)
    return app if coef is None else coef * app


def _app(lo, hi, body, k):
    params = []
    tmpl = _abstract(body, k, {}, params, {})
    key = tmpl.sexpr() + "|" + ",".join(str(p.sort()) for p, _ in params)
    if key not in BYKEY:
        nm = f"S#{len(BYKEY)}"
        d = z3.Function(nm, z3.IntSort(), z3.IntSort(), *[p.sort() for p, _ in params], body.sort())
        BYKEY[key] = d
        REG[nm] = (d, tmpl, [p for p, _ in params])
    d = BYKEY[key]
    return d(lo, hi, *[e for _, e in params])


def prod_(lo, hi, body):
    raise Unsupported("symbolic product")


def _z(x):
    from .core import z3i
    return z3i(x)


def body_at(app, k):
    d, tmpl, params = REG[app.decl().name()]
    args = app.children()
    return z3.substitute(tmpl, (KV, k), *zip(params, args[2:]))


_PS = {}


def prefix(app, k):
    """Term PS(k): the sum from 0 to k of the body of a sum (so that S(a, b) = PS(b) - PS(a) for a <= b)."""
    d = app.decl()
    nm = d.name()
    if nm not in _PS:
        dom = [d.domain(i) for i in range(2, d.arity())]
        _PS[nm] = z3.Function("P" + nm, z3.IntSort(), *dom, d.range())
        REG["P" + nm] = REG[nm]
    return _PS[nm](k, *app.children()[2:])


def pbody(ps, k):
    d, tmpl, params = REG[ps.decl().name()]
    return z3.substitute(tmpl, (KV, k), *zip(params, ps.children()[1:]))


def facts(apps_by, done, c):
    out = []
    memo = c.fmemo
    names = [n for n in apps_by if n.startswith("S#")]
    allapps = []
    for n in names:
        allapps.extend(apps_by[n][:16])
    if not allapps:
        return out

    def add(key, refs, make):
        if key in done:
            return
        done.add(key)
        hit = memo.get(key)
        if hit is None:
            hit = memo[key] = (make(), refs)
        out.extend(hit[0])

    pts = {}
    for a in allapps:
        lo, hi = a.arg(0), a.arg(1)
        k = ("pre", a.get_id())
        if k not in memo:
            memo[k] = (prefix(a, lo), prefix(a, hi), a)
        pl, ph = memo[k][:2]
        for p in (pl, ph):
            pts.setdefault(a.decl().name(), {})[p.get_id()] = p

        def single():
            zero = z3.IntVal(0) if a.sort() == z3.IntSort() else z3.RealVal(0)
            return [z3.Implies(hi <= lo, a == zero), z3.Implies(hi >= lo, a == ph - pl),
                    z3.Implies(hi == lo + 1, a == body_at(a, lo))]

        add(("s1", a.get_id()), a, single)
    for n, d in pts.items():
        lst = list(d.values())[:20]
        for x in lst:
            for y in lst:
                if x.get_id() == y.get_id():
                    continue

                def mono():
                    r = []
                    same = [p == q for p, q in zip(x.children()[1:], y.children()[1:])]
                    df = z3.simplify(y.arg(0) - x.arg(0))
                    lit = df.as_long() if z3.is_int_value(df) else None
                    if lit is None or lit == 1:
                        r.append(z3.Implies(z3.And(*same, y.arg(0) == x.arg(0) + 1), y == x + pbody(x, x.arg(0))))
                    if lit is None or lit > 0:
                        # sign: a negative sum has a negative element
                        sk = z3.FreshConst(z3.IntSort(), "ix!n")
                        r.append(z3.Implies(z3.And(*same, x.arg(0) <= y.arg(0), y < x),
                                            z3.And(sk >= x.arg(0), sk < y.arg(0), pbody(x, sk) < 0)))
                    return r

                add(("ps", x.get_id(), y.get_id()), (x, y), mono)
    # extensionality between any two sums
    if getattr(c, "ext_enabled", True) and len(allapps) <= 12:
        for i in range(len(allapps)):
            for j in range(i):
                x, y = allapps[i], allapps[j]
                if x.sort() != y.sort():
                    continue

                def ext():
                    sk = z3.FreshConst(z3.IntSort(), "ix!e")
                    return [z3.Implies(
                        z3.And(x.arg(0) == y.arg(0), x.arg(1) == y.arg(1),
                               z3.Implies(z3.And(sk >= x.arg(0), sk < x.arg(1)), body_at(x, sk) == body_at(y, sk))),
                        x == y)]

                add(("se", x.get_id(), y.get_id()), (x, y), ext)
    return out
