"""Contract harnesses: symbolic inputs, calls into the real code, postconditions."""
from __future__ import annotations

import os
import time
import traceback

import z3

from . import core, poly, seq, stubs, xp as X
from .arr import SArr, memo
from .core import Ctx, Infeasible, PathEnd, Unsupported, set_ctx, z3b, z3i
from .loader import Loader
from .vals import Sc, cast, sc

PVDIR = os.path.dirname(os.path.abspath(__file__))


class Refuted(Exception):
    pass


def innermost_in_engine(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and os.path.abspath(last).startswith(PVDIR)


def contractual(e):
    """Is this exception behaviour of the verified code (or of a modelled library), not a limit of the engine?"""
    if getattr(e, "pv_model", False):
        return True
    if isinstance(e, Unsupported):
        return False
    if innermost_in_engine(e):
        return isinstance(e, (ValueError, IndexError, ZeroDivisionError, KeyError, AssertionError, FileNotFoundError))
    # raised by glass itself (raise statement) or by Python inside glass
    if isinstance(e, (AttributeError, NameError, TypeError, ImportError)):
        # a raise statement in the source is contractual, an engine mismatch is not
        return raised_by_statement(e)
    return True


def raised_by_statement(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    fn = tb.tb_frame.f_code.co_filename
    try:
        line = open(fn).read().split("\n")[tb.tb_lineno - 1]
        return line.strip().startswith("raise")
    except OSError:
        return False


class Harness:
    """Interface given to the contract functions."""

    def __init__(self, c, loader, name):
        self.c, self.loader, self.hname = c, loader, name

    # ---- inputs
    def mod(self, name):
        return self.loader.load(name)

    def fn(self, path):
        m, _, f = path.rpartition(".")
        # classes: glass.mod.Class.method is not resolved here
        mod = self.loader.load(m)
        if not hasattr(mod, f):
            raise Unsupported(f"{path} does not exist")
        self.c.functions.add(path)
        return getattr(mod, f)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None:
            self.c.assume(t >= lo)
        if hi is not None:
            self.c.assume(t <= z3i(hi))
        return Sc("i", t)

    def real(self, name, lo=None, hi=None, gt=None, lt=None, xp=None):
        t = z3.Real(name)
        if lo is not None:
            self.c.assume(t >= lo)
        if hi is not None:
            self.c.assume(t <= hi)
        if gt is not None:
            self.c.assume(t > gt)
        if lt is not None:
            self.c.assume(t < lt)
        return Sc("r", t, None, xp)

    def arr(self, name, shape, k="r", xp=None, owner=True, lo=None, hi=None, gt=None):
        """Input array, owned by the caller (writes to it violate the frame)."""
        shape = tuple(shape)
        n = len(shape)
        srt = {"r": z3.RealSort(), "c": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k]
        xp = xp or X.NUMPY
        if k == "c":
            fr = z3.Function(name + ".re", *([z3.IntSort()] * n), srt) if n else z3.Const(name + ".re", srt)
            fi = z3.Function(name + ".im", *([z3.IntSort()] * n), srt) if n else z3.Const(name + ".im", srt)
            get = (lambda *i: Sc("c", fr(*i), fi(*i))) if n else (lambda: Sc("c", fr, fi))
        else:
            f = z3.Function(name, *([z3.IntSort()] * n), srt) if n else z3.Const(name, srt)
            get = (lambda *i: Sc(k, f(*i))) if n else (lambda: Sc(k, f))
        a = SArr(shape, k, memo(get), xp, owner=name if owner else None)
        if n == 0:
            if lo is not None:
                self.assume(f >= lo)
            if gt is not None:
                self.assume(f > gt)
            if hi is not None:
                self.assume(f <= hi)
            return a
        if lo is not None:
            self.c.forall(lambda *t: f(*t) >= lo, None, None, max(1, n))
        if gt is not None:
            self.c.forall(lambda *t: f(*t) > gt, None, None, max(1, n))
        if hi is not None:
            self.c.forall(lambda *t: f(*t) <= hi, None, None, max(1, n))
        return a

    def ix(self, name, n):
        """An arbitrary index 0 <= i < n."""
        t = z3.Int("ix!" + name)
        self.c.assume(z3.And(t >= 0, t < z3i(n)))
        return t

    def seq(self, n, getter):
        return seq.SSeq(n, getter)

    def rng(self, xp=None):
        return stubs.SymRng(xp or X.NUMPY)

    def replace(self, path, contract):
        """Use the contract of a callee instead of its body (the body is verified by its own harness)."""
        m, _, f = path.rpartition(".")
        mod = self.loader.load(m)
        if hasattr(mod, f):
            setattr(mod, f, contract)

    def assume(self, c):
        self.c.assume(c)

    def forall(self, fn, lo=None, hi=None, nvars=1):
        self.c.forall(fn, lo, hi, nvars)

    def increasing(self, a):
        """Assume a 1-d array is strictly increasing."""
        rd = a.reader()
        n = z3i(a.shape[0])
        e = rd(z3.Int("ix!probe")).re
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1:
            self.c.lpair.setdefault(e.decl().name(), []).append(
                lambda s, t: [z3.Implies(z3.And(s.arg(0) >= 0, s.arg(0) < t.arg(0), t.arg(0) < n), s < t)])
            return
        self.c.forall(lambda p, q: z3.Implies(z3.And(p >= 0, p < q, q < n), rd(p).re < rd(q).re), None, None, 2)

    def feasible(self):
        if not self.c.feasible(z3.BoolVal(True)):
            raise Infeasible

    # ---- obligations
    def prove(self, name, goal, **kw):
        return self.c.prove(f"{self.hname}.{name}", goal, **kw)

    def lemma(self, name, goal, **kw):
        """Proved first, then available to later obligations."""
        return self.c.prove(f"{self.hname}.lemma.{name}", goal, **kw)

    def hint(self, goal, timeout=4000, rounds=None, using=None, gen=()):
        """Proved facts are made available to later obligations; nothing is claimed when the proof fails."""
        goal = z3.simplify(z3b(goal))
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return False
        ok = poly.proves(goal) or self.c.field(goal)
        if not ok and self.c.store.get("lets"):
            full = self.unlet(goal)
            ok = not full.eq(goal) and (poly.proves(full) or self.c.field(full))
        if not ok:
            if using is not None:
                ok = self.c.derive(goal, using, gen, timeout, rounds)
            else:
                r, _, fs = self.c.check([z3.Not(goal)], timeout, rounds=rounds)
                ok = r == "unsat" or (r == "unknown" and core.nlsat(fs, timeout) == "unsat")
        if os.environ.get("PV_VERBOSE"):
            print("   hint", ok, goal.sexpr()[:200].replace("\n", " "), flush=True)
        if ok:
            self.c.pc.append(goal)
        return ok

    def congr(self, name, lo, hi, f, g, via=None, by=None):
        """Sums with equal terms are equal: f(k) == g(k) is proved for an arbitrary k, then the sums are identified."""
        from .arr import rsum
        k = self.c.fresh("ix!cg", "i")
        mark = len(self.c.pc)
        self.assume(z3.And(k >= z3i(lo), k < z3i(hi)))
        if via is not None:
            via(k)
        fk, gk = f(k), g(k)
        using, gen = by(k) if by else (None, ())
        kw = {"using": using, "gen": gen} if by else {}
        ok = self.prove(name, (fk.re if isinstance(fk, Sc) else fk) == (gk.re if isinstance(gk, Sc) else gk), **kw)
        del self.c.pc[mark:]
        if ok:
            w = lambda x: x if isinstance(x, Sc) else Sc("r", x)
            self.c.pc.append(z3.simplify(rsum(lo, hi, lambda q: w(f(q))).re == rsum(lo, hi, lambda q: w(g(q))).re))
        return ok

    def let(self, name, term):
        """A constant defined as the given term (so that later proofs can treat it as a unit)."""
        t = z3.simplify(term.re if isinstance(term, Sc) else term)
        c = z3.Const(self.c.fresh_name("let!" + name), t.sort())
        self.c.pc.append(c == t)
        self.c.store.setdefault("lets", []).append((c, t))
        return c

    def unlet(self, e):
        """The expression with let constants replaced by their definitions."""
        for c, t in reversed(self.c.store.get("lets", [])):
            e = z3.substitute(e, (c, t))
        return e

    def apps(self, name, *terms):
        """Applications of a function symbol inside terms."""
        out = {}
        for t in terms:
            for a in core._apps(t):
                if a.decl().name() == name:
                    out[a.get_id()] = a
        return list(out.values())

    def eq(self, name, a, b, **kw):
        a, b = sc(a), sc(b)
        if a.k == "c" or b.k == "c":
            a, b = cast(a, "c"), cast(b, "c")
            r1 = self.prove(name + ".re", a.re == b.re, **kw)
            r2 = self.prove(name + ".im", a.im == b.im, **kw)
            return r1 and r2
        if a.k == "b" or b.k == "b":
            return self.prove(name, a.re == b.re, **kw)
        k = "r" if "r" in (a.k, b.k) else "i"
        return self.prove(name, cast(a, k).re == cast(b, k).re, **kw)

    def dims(self, name, a, shape):
        """The array has the given shape."""
        got = a.shape
        if len(got) != len(shape):
            self.c.fail(f"{self.hname}.{name}", f"rank {len(got)} instead of {len(shape)}")
            raise PathEnd
        for d, (x, y) in enumerate(zip(got, shape)):
            self.prove(f"{name}.{d}", z3i(x) == z3i(y))

    def length(self, name, s, n):
        return self.prove(name, z3i(seq.seq_len(s)) == z3i(n))

    def cover(self, name="reached"):
        self.c.cover(f"{self.hname}.{name}")

    def call(self, fn, *args, raises=(), **kw):
        """Call the code under contract.  Exceptions outside `raises` violate the contract."""
        try:
            return fn(*args, **kw)
        except (PathEnd, Infeasible, Unsupported):
            raise
        except Exception as e:  # noqa: BLE001
            if not contractual(e):
                raise Unsupported(f"engine limit: {type(e).__name__}: {e}") from e
            if isinstance(e, tuple(raises)) if raises else False:
                raise Raised(e) from e
            self.c.fail(f"{self.hname}.no-exception", f"{type(e).__name__}: {e}")
            raise PathEnd from None

    def attempt(self, fn, *args, **kw):
        """('ok', value) or ('exc', exception)."""
        try:
            return "ok", fn(*args, **kw)
        except (PathEnd, Infeasible, Unsupported):
            raise
        except Exception as e:  # noqa: BLE001
            if not contractual(e):
                raise Unsupported(f"engine limit: {type(e).__name__}: {e}") from e
            return "exc", e

    def raises_iff(self, name, exc, cond, fn, *args, **kw):
        """The call raises exc exactly when cond holds (other exceptions fail). Returns the value or ends the path."""
        k, v = self.attempt(fn, *args, **kw)
        if k == "ok":
            self.prove(f"{name}.accepts-only-valid", z3.Not(z3b(cond)))
            return v
        if isinstance(v, exc):
            self.prove(f"{name}.rejects-only-invalid", z3b(cond), detail=f"{type(v).__name__}: {v}")
        else:
            self.c.fail(f"{self.hname}.{name}.no-other-exception", f"{type(v).__name__}: {v}")
        raise PathEnd


class Raised(Exception):
    pass


class Result:
    def __init__(self):
        self.obligations = []
        self.undecided = []
        self.covers = {}
        self.functions = set()
        self.externals = set()
        self.notes = set()
        self.harnesses = {}


PARTIAL = {}


def partial_result(reason):
    """What a harness that had to be stopped has decided so far."""
    r = Result()
    h, c = PARTIAL.get("h"), PARTIAL.get("c")
    if c is not None:
        r.obligations = list(c.obligations.values())
        r.functions = set(c.functions) | set(h.funcs)
        r.externals, r.notes = set(c.externals), set(c.assumption_notes)
    r.undecided.append({"harness": h.name if h else "?", "reason": reason})
    return r


def run_harness(h, budget, timeout):
    """Explore one contract harness; returns a Result."""
    r = Result()
    c = Ctx(timeout=timeout)
    c.deadline = time.time() + budget
    PARTIAL.update(h=h, c=c)
    set_ctx(c)
    seq.LOOPS.clear()
    t0 = time.time()
    err = None
    try:
        loader = Loader(stubs.stubs(h.stubs() if h.stubs else None), X.BUILTINS)
        v = Harness(c, loader, h.name)
        seq.LOOPS.update(h.loops() if h.loops else {})

        def body():
            c.store = {k: val for k, val in c.store.items() if isinstance(k, tuple) and k[0] == "loop"}
            h.fn(v)

        npaths = c.explore(body, maxpaths=h.maxpaths)
    except Unsupported as e:
        err = f"unsupported: {e}"
        npaths = None
        if os.environ.get("PV_TB"):
            traceback.print_exc()
    except RecursionError:
        if os.environ.get("PV_TB"):
            print("\n".join(traceback.format_exc().splitlines()[-60:]))
        err = "unsupported: recursion"
        npaths = None
    except Exception as e:  # noqa: BLE001
        err = f"engine error: {type(e).__name__}: {e}"
        npaths = None
        if os.environ.get("PV_TB"):
            traceback.print_exc()
    finally:
        set_ctx(None)
    for (nm, _), rec in c.obligations.items():
        r.obligations.append(rec)
    if err:
        r.undecided.append({"harness": h.name, "reason": err})
    elif not r.obligations:
        r.undecided.append({"harness": h.name, "reason": "no obligation was generated"})
    for k, ok in c.covers.items():
        r.covers[k] = ok
        if not ok:
            r.undecided.append({"harness": h.name, "reason": f"vacuous: {k} is unreachable"})
    if not err and not c.covers:
        r.undecided.append({"harness": h.name, "reason": "no reachability check was reached"})
    r.functions = c.functions | set(h.funcs)
    r.externals = {e for e in c.externals}
    r.notes = c.assumption_notes
    r.harnesses[h.name] = {"paths": npaths, "seconds": round(time.time() - t0, 2),
                           "obligations": len(r.obligations),
                           "discharged": sum(o["status"] == "proved" for o in r.obligations)}
    return r


class H:
    def __init__(self, fn, name, funcs=(), loops=None, stubs=None, maxpaths=400, thorough=False, budget=None):
        self.fn, self.name, self.funcs, self.loops, self.stubs = fn, name, funcs, loops, stubs
        self.maxpaths, self.thorough, self.budget = maxpaths, thorough, budget


REGISTRY: list = []


def harness(name=None, **kw):
    def deco(f):
        REGISTRY.append(H(f, name or f.__name__, **kw))
        return f
    return deco
