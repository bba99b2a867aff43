"""Triangular numbers and the row of a position in a triangle."""
import z3

from . import core

I = z3.IntSort()
trow_f = z3.Function("trow", I, I)


def tri_n(n):
    """n(n+1)/2"""
    return z3.simplify((n * (n + 1)) / 2)


def trow(p):
    return trow_f(p)


def _u(a):
    p = a.arg(0)
    return [z3.Implies(p >= 0, z3.And(a >= 0, a * (a + 1) <= 2 * p, 2 * p < (a + 1) * (a + 2), (a * (a + 1)) % 2 == 0))]


core.unary_facts("trow", _u)
core.pair_facts("trow", lambda a, b: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) <= b.arg(0)), a <= b)])
