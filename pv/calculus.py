"""Symbolic differentiation of z3 real terms (used by contracts that speak about derivatives)."""
import z3

from .core import Unsupported
from .vals import F


def diff(e, x):
    if e.eq(x):
        return z3.RealVal(1)
    if z3.is_rational_value(e) or z3.is_int_value(e) or not e.num_args():
        return z3.RealVal(0)
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*[diff(c, x) for c in ch])
    if k == z3.Z3_OP_SUB:
        r = diff(ch[0], x)
        for c in ch[1:]:
            r = r - diff(c, x)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -diff(ch[0], x)
    if k == z3.Z3_OP_MUL:
        tot = z3.RealVal(0)
        for i in range(len(ch)):
            t = diff(ch[i], x)
            for j, c in enumerate(ch):
                if j != i:
                    t = t * c
            tot = tot + t
        return tot
    if k == z3.Z3_OP_DIV:
        a, b = ch
        return (diff(a, x) * b - a * diff(b, x)) / (b * b)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
        n = ch[1].as_long()
        return n * ch[0] ** (n - 1) * diff(ch[0], x)
    if k == z3.Z3_OP_UNINTERPRETED:
        nm = e.decl().name()
        if not any(_has(c, x) for c in ch):
            return z3.RealVal(0)
        d = diff(ch[0], x)
        if nm == "exp":
            return e * d
        if nm == "log":
            return d / ch[0]
        if nm == "sqrt":
            return d / (2 * e)
        if nm == "sin":
            return F["cos"](ch[0]) * d
        if nm == "cos":
            return -F["sin"](ch[0]) * d
    if not _has(e, x):
        return z3.RealVal(0)
    raise Unsupported(f"derivative of {e.decl().name()}")


def _has(e, x):
    st = [e]
    while st:
        t = st.pop()
        if t.eq(x):
            return True
        st.extend(t.children())
    return False
