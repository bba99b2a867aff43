"""C11: redshifts are distributed only to shells that contain them."""
import z3

from contracts.util import Shells, induct, lin
from pv.arr import rsum
from pv.core import Unsupported, ctx, z3i
from pv.harness import harness
from pv.stubs import events
from pv.vals import Sc, cast

P = "glass.shells.distribute"
ZERO = z3.IntVal(0)
DRAWS = {}


def apps_of(e, name):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(name):
            out.append(x)
        todo.extend(x.children())
    return out


class Recorder:
    """The generator; remembers the probabilities of every multinomial draw (as a function of the batch and the position in it)."""

    def __init__(self, rng):
        self.rng = rng

    def __getattr__(self, n):
        return getattr(self.rng, n)


def distribute(rank):
    @harness(f"distribute[{rank}]", funcs=[P])
    def h(v):
        K = v.int("K", lo=1)
        sh = Shells(v, K)
        # the second axis has a fixed length, so that flat positions stay linear terms
        lead = tuple(v.int(f"n{q}", lo=1) if q == 0 else 3 for q in range(rank))
        z = v.arr("z", lead)
        rng = v.rng()
        DRAWS.setdefault("by", {})
        v.cover()
        old = rng.multinomial

        def multinomial(n, pvals, size=None):
            r = old(n, pvals, size)
            e = events("draw")[-1]
            nm = e.raw(*[z3.Int(f"!q{q}") for q in range(r.ndim - 1)]).decl().name()
            DRAWS["by"][nm] = (e.pvals.reader(), list(ctx().gstack))
            return r

        rng.multinomial = multinomial
        out = v.call(v.fn(P), z, sh.seq, rng=rng)
        v.dims("shape", out, lead)
        pi = [v.ix(f"p{q}", n) for q, n in enumerate(lead)]
        read = lambda a: (a if isinstance(a, Sc) else a.at(*pi)).re
        zp, o = read(z), read(out)
        w = lambda j: window(sh, j, zp)
        W = v.let("W", rsum(ZERO, K, lambda j: Sc("r", w(j))).re)
        drawn = apps_of(o, "Mult#")
        draws = [t for t in drawn if t.decl().name() in DRAWS["by"]]
        if not draws:
            raise Unsupported("not drawn with a multinomial draw")
        t = draws[0]
        if not v.prove("drawn", o == t - 1):
            return
        prob, kappa = DRAWS["by"][t.decl().name()]
        args = t.children()
        at = lambda j: z3.substitute(prob(*args[len(kappa):], j).re, *zip(kappa, args))
        v.prove("outside.probability", at(ZERO) == z3.If(W == 0, 1.0, 0.0))
        j = v.ix("j", K)
        wj = v.let("w_j", w(j))
        prop = lambda p, x: z3.And(z3.Implies(W != 0, p * W == x), z3.Implies(W == 0, p == x))
        v.prove("shell.probability", z3.Implies(W != 0, at(j + 1) * W == wj))
        v.prove("shell.probability.outside", z3.Implies(W == 0, at(j + 1) == wj))
        # a category that is drawn has a positive probability
        m = v.let("ix!m", t)
        pm = v.let("pm", at(t))
        ws = v.let("ws", w(t - 1))
        v.lemma("index-range", z3.And(m >= 0, m <= K.re))
        v.lemma("drawn-possible", pm > 0)
        facts = [z3.And(m >= 0, m <= K.re), pm > 0,
                 # outside.probability when category 0 was drawn
                 z3.Implies(m == 0, pm == z3.If(W == 0, 1.0, 0.0)),
                 # shell.probability at the shell that was drawn
                 z3.Implies(m >= 1, prop(pm, ws)),
                 # windows have no negative values: lemma `sum-bound`
                 z3.Implies(m >= 1, W >= ws)]
        v.assume(z3.And(*facts[-3:]))
        v.prove("outside", (m - 1 == -1) == (W == 0), using=facts)
        v.prove("shell-nonzero", z3.Implies(W != 0, z3.And(m >= 1, ws != 0)), using=facts)
    return h


def window(sh, j, q):
    return lin(lambda k: sh.za(j, k), lambda k: sh.wa(j, k), q, sh.len(j), z3.RealVal(0))


@harness("sum-bound", funcs=[P])
def bound(v):
    """lemma: a sum of values without negative ones is not less than any of them"""
    n = v.int("n", lo=1)
    w = v.arr("w", (n,), lo=0)
    s = v.ix("s", n)
    v.cover()
    S = lambda k: rsum(ZERO, Sc("i", k), lambda j: w.at(j)).re
    induct(v, "partial-sums", lambda k: z3.And(S(k) >= 0, z3.Implies(s < k, S(k) >= w.at(s).re)), n)
    v.prove("total", S(n.re) >= w.at(s).re)


for r in (0, 1, 2):
    distribute(r)


def empty(rank):
    @harness(f"empty[{rank}]", funcs=[P])
    def h(v):
        sh = Shells(v, v.int("K", lo=1))
        lead = (0,) + tuple(v.int(f"n{q}", lo=0) for q in range(1, rank))
        z = v.arr("z", lead)
        v.cover()
        out = v.call(v.fn(P), z, sh.seq, rng=v.rng())
        v.dims("shape", out, lead)
        if out.k != "i":
            v.c.fail("type", "the indices are not integers")
    return h


for r in (1, 2):
    empty(r)

ASSUMPTIONS = ["a multinomial draw of one item picks a category of positive probability",
               "windows have no negative values at the redshift (a negative probability is rejected by the generator)"]
