"""Core of the deductive verifier: paths, assumptions, obligations, solver back ends.

Real functions are executed on symbolic values; the executor forks at every symbolic branch and
re-executes the function for every branch combination, so that each path has one path condition.
Every contract clause reached on a path becomes an obligation  (path condition |- clause).
"""
from __future__ import annotations

import fractions
import hashlib
import itertools
import os
import subprocess
import tempfile
import time

import z3

from . import poly

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """The construct is outside the verified subset (never a violation by itself)."""


class PathEnd(BaseException):
    """The current path has been checked up to a cut point."""


_ite_cache: dict = {}


def has_ite(e):
    k = e.get_id()
    hit = _ite_cache.get(k)
    if hit is None or not hit[0].eq(e):
        r = z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c) for c in e.children())
        hit = _ite_cache[k] = (e, r)
    return hit[1]


class Infeasible(BaseException):
    """The current path condition is contradictory."""


# ------------------------------------------------------------------ facts about function symbols
_PI = z3.Const("pi", z3.RealSort())
PI_FACTS = [_PI > z3.RealVal("3.14159"), _PI < z3.RealVal("3.1416")]
UNARY: dict = {}      # decl name -> fn(app) -> list of z3 Bool
PAIR: dict = {}       # decl name -> fn(app1, app2) -> list of z3 Bool
GLOBAL_PAIR: list = []  # fn(list of apps) -> list


def unary_facts(name, fn):
    UNARY.setdefault(name, []).append(fn)


def pair_facts(name, fn):
    PAIR.setdefault(name, []).append(fn)


_app_cache: dict = {}


def _apps(e):
    """All uninterpreted applications (arity > 0) inside e."""
    key = e.get_id()
    hit = _app_cache.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    seen = set()
    out = []
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(t)
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            pass
    _app_cache[key] = (e, out)
    return out


_scan_cache: dict = {}


def known_positions(e):
    """Rewrites the multi-index of a flat position that was made from a known index (all indices are within their dimensions)."""
    for _ in range(3):
        pairs = []
        for t in _scan1(e)[0]:
            nm = t.decl().name()
            if nm.startswith("unravel"):
                from .xp import RAVEL
                ch = t.children()
                hit = RAVEL.get(ch[-1].get_id())
                dims = ch[:-1]
                if hit is not None and hit[0].eq(ch[-1]) and len(hit[2]) == len(dims) and all(x.eq(y) for x, y in zip(hit[2][1:], dims[1:])):
                    pairs.append((t, hit[1][int(nm.split("_")[1])]))
        if not pairs:
            return e
        e = z3.simplify(z3.substitute(e, *pairs))
    return e


def _scan1(e):
    """Applications inside e and its index terms (integer arguments of applications, index constants)."""
    key = e.get_id()
    hit = _scan_cache.get(key)
    if hit is not None:
        return hit[1], hit[2]
    seen = set()
    apps, ids = [], {}
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if not z3.is_app(t):
            continue
        n = t.num_args()
        if n == 0:
            if t.sort() == INT and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if nm.startswith("ix") or "!ix" in nm:
                    ids.setdefault(i, t)
            continue
        ch = t.children()
        kd = t.decl().kind()
        if kd == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]) and ch[1].as_long() == 2:
            apps.append(t)
        elif kd == z3.Z3_OP_UNINTERPRETED:
            apps.append(t)
            for c in ch:
                if c.sort() == INT and not z3.is_int_value(c):
                    ids.setdefault(c.get_id(), c)
        stack.extend(ch)
    ids = list(ids.values())
    if len(_scan_cache) > 200000:
        _scan_cache.clear()
    _scan_cache[key] = (e, apps, ids)
    return apps, ids


INT = z3.IntSort()


def parity(e, env=None):
    """The integer polynomial e modulo 2 as a set of square-free monomials (None: not a polynomial)."""
    if z3.is_int_value(e):
        return {frozenset()} if e.as_long() % 2 else set()
    if z3.is_app(e):
        kd = e.decl().kind()
        if kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            r = set()
            for c in e.children():
                r ^= parity(c)
            return r
        if kd == z3.Z3_OP_MUL:
            r = {frozenset()}
            for c in e.children():
                p, q = parity(c), set()
                for a in r:
                    for b in p:
                        q ^= {a | b}
                r = q
            return r
    return {frozenset([e.get_id()])}


def halves(t):
    """x / 2 is exact when x is even for all values of its atoms, e.g. x = n (n + 1)."""
    if t.num_args() == 2 and t.sort() == INT and not parity(t.arg(0)):
        return [2 * t == t.arg(0)]
    return []


UNARY["div"] = [halves]


def consts(e):
    seen = set()
    out = []
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(t)
            stack.extend(t.children())
    return out


class Stats:
    def __init__(self):
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}
        self.paths = 0


STATS = Stats()


def mentions_neq(f):
    return z3.is_not(f) or z3.is_lt(f) or z3.is_gt(f) or z3.is_or(f) or z3.is_and(f) or z3.is_distinct(f)


class Ctx:
    """One verification run (a set of paths through one harness)."""

    def __init__(self, timeout=None, facts_rounds=3):
        self.timeout = timeout or int(os.environ.get("PV_TIMEOUT", "8000"))
        self.feas_timeout = 1500
        self.rounds = facts_rounds
        self.obligations = {}     # key -> dict(name, status, detail)
        self.covers = {}
        self.assumption_notes = set()
        self.functions = set()
        self.externals = set()
        self.reset([])
        self.store = {}
        self.deadline = None

    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.pc = []
        self.uni = []             # universal hypotheses (n, fn)
        self.names = {}
        self.gstack = []
        self.reveal = []
        self.writes = []
        self.trace = []
        self.extra_terms = []
        self.ext_enabled = True
        self.lpair = {}
        self.lunary = {}
        self.fmemo = {}           # facts instantiated on this path

    # -------------------------------------------------------------- names
    def fresh_name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return f"{base}!{k}" if k else base

    def fresh(self, base, sort="r"):
        s = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[sort]
        nm = self.fresh_name(base)
        if self.gstack:
            f = z3.Function(nm, *([z3.IntSort()] * len(self.gstack)), s)
            return f(*self.gstack)
        return z3.Const(nm, s)

    def fresh_fun(self, base, nargs, sort="r"):
        """Fresh element function of an array (additional generic indices are prepended)."""
        s = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[sort]
        nm = self.fresh_name(base)
        g = list(self.gstack)
        if nargs + len(g) == 0:
            c = z3.Const(nm, s)
            return lambda: c
        f = z3.Function(nm, *([z3.IntSort()] * (len(g) + nargs)), s)

        def app(*a):
            return f(*g, *a)

        app.decl = f
        return app

    # -------------------------------------------------------------- assumptions
    def assume(self, c, note=None):
        if note:
            self.assumption_notes.add(note)
        c = z3b(c)
        if z3.is_true(c):
            return
        self.pc.append(c)

    def forall(self, fn, lo=0, hi=None, nvars=1):
        """Assume fn(k) for every lo <= k < hi, instantiated at the index terms of each query."""
        self.uni.append((lo, hi, fn, nvars))

    # -------------------------------------------------------------- branching
    def decide(self, c):
        c = z3.simplify(z3b(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d, forced = self.prefix[self.pos]
            self.pos += 1
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if not t and not self.feasible(z3.Not(c)):
                raise Infeasible
            d = t
            forced = not (t and f)
            self.prefix.append((d, forced))
            self.pos += 1
        self.pc.append(c if d else z3.Not(c))
        return d

    def choose(self, label=""):
        """A free binary choice (both explored)."""
        if self.pos < len(self.prefix):
            d, _ = self.prefix[self.pos]
            self.pos += 1
            return d
        self.prefix.append((True, False))
        self.pos += 1
        return True

    def feasible(self, c):
        r = self.check([c], self.feas_timeout, rounds=1)[0]
        return r != "unsat"

    def entails(self, c, timeout=1500, rounds=2):
        c = z3.simplify(z3b(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check([z3.Not(c)], timeout, rounds=rounds)[0] == "unsat"

    # -------------------------------------------------------------- solving
    def closure(self, fs, rounds):
        """The formulas plus the ground facts about the function symbols they mention."""
        from . import sums
        fs = list(fs)
        seen = set()              # subterms visited in this closure
        pairs_done = set()
        uni_done = set()
        apps_by = {}
        memo = self.fmemo

        def scan(terms):
            """New applications, and new index terms (arguments of sort Int, index constants) of the terms."""
            fresh, idx = [], {}
            for f in terms:
                apps, ids = _scan1(f)
                for a in apps:
                    i = a.get_id()
                    if i not in seen:
                        seen.add(i)
                        fresh.append(a)
                        apps_by.setdefault(a.decl().name(), []).append(a)
                for t in ids:
                    idx.setdefault(t.get_id(), t)
            return fresh, list(idx.values())[:60]

        frontier = list(fs) + list(self.extra_terms)
        stop = time.time() + 15
        for rnd in range(rounds):
            new = []
            fresh_apps, cands = scan(frontier)
            for a in fresh_apps:
                if time.time() > stop:
                    break
                nm = a.decl().name()
                base = nm.split("#")[0]
                for key in sorted({nm, base}):
                    for fn in (*UNARY.get(key, ()), *self.lunary.get(key, ())):
                        k = ("u", id(fn), a.get_id())
                        hit = memo.get(k)
                        if hit is None:
                            hit = memo[k] = (list(fn(a)), a, fn)
                        new.extend(hit[0])
            for nm, lst in list(apps_by.items()):
                fns = list(PAIR.get(nm, ())) + self.lpair.get(nm, [])
                if nm.split("#")[0] != nm:
                    fns = list(fns) + list(PAIR.get(nm.split("#")[0], ()))
                if not fns:
                    continue
                if len(lst) > 24:
                    lst = lst[:24]
                for x in range(len(lst)):
                    if time.time() > stop:
                        break
                    for y in range(len(lst)):
                        if x == y:
                            continue
                        k = (lst[x].get_id(), lst[y].get_id())
                        if k in pairs_done:
                            continue
                        pairs_done.add(k)
                        for fn in fns:
                            k2 = ("p", id(fn), *k)
                            hit = memo.get(k2)
                            if hit is None:
                                hit = memo[k2] = (list(fn(lst[x], lst[y])), lst[x], lst[y], fn)
                            new.extend(hit[0])
            new.extend(sums.facts(apps_by, pairs_done, self))
            if self.uni:
                for u, (lo, hi, fn, nv) in enumerate(self.uni):
                    if nv == 1:
                        tuples = [(c,) for c in cands]
                    else:
                        cc = cands[:12]
                        tuples = [(a, b) for a in cc for b in cc]
                    if time.time() > stop:
                        break
                    for tup in tuples:
                        k = (u, tuple(t.get_id() for t in tup))
                        if k in uni_done:
                            continue
                        uni_done.add(k)
                        k2 = ("q", id(fn), k[1])
                        hit = memo.get(k2)
                        if hit is None:
                            guard = []
                            for t in tup:
                                if lo is not None:
                                    guard.append(t >= lo)
                                if hi is not None:
                                    guard.append(t < z3i(hi))
                            body = z3b(fn(*tup))
                            body = z3.Implies(z3.And(*guard), body) if guard and not z3.is_true(body) else body
                            hit = memo[k2] = (body, tup, fn)
                        if not z3.is_true(hit[0]):
                            new.append(hit[0])
            from . import arr
            exn = [n for n in apps_by if n in arr.EXINST]
            if exn:
                lits = [z3.IntVal(0)]
                for n in exn:
                    nk, inst = arr.EXINST[n]
                    for a in apps_by[n][:12]:
                        cc = cands[:24] if nk == 1 else cands[:8]
                        # the dimension bounds suggest the last index
                        extra = lits + [z3.simplify(a.arg(0) - 1)] if nk == 1 else lits
                        for tup in itertools.product(*([extra + cc] * nk)):
                            k = ("ex", a.get_id(), tuple(t.get_id() for t in tup))
                            if k in uni_done:
                                continue
                            uni_done.add(k)
                            hit = memo.get(k)
                            if hit is None:
                                hit = memo[k] = (inst(a, tup), a, tup)
                            new.append(hit[0])
            if not new or time.time() > stop:
                fs.extend(new)
                break
            fs.extend(new)
            frontier = new
            if len(fs) > 4000:
                break
        return fs

    def check(self, extra, timeout, rounds=None, want_model=False, tactic=None, using=None):
        fs = [z3b(f) for f in (self.pc if using is None else using)] + [z3b(f) for f in extra] + PI_FACTS
        fs = self.closure(fs, self.rounds if rounds is None else rounds)
        t0 = time.time()
        STATS.queries += 1
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set("timeout", int(timeout))
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS.solver_time += time.time() - t0
        if r == z3.unsat:
            return "unsat", None, fs
        if r == z3.sat:
            return "sat", (s.model() if want_model else None), fs
        return "unknown", None, fs

    # -------------------------------------------------------------- obligations
    def prove(self, name, goal, detail="", lemmas=(), strategies=None, rounds=None, using=None, gen=()):
        """Discharge  pc |- goal.  Result is recorded; the goal may be used afterwards when proved."""
        goal = known_positions(z3.simplify(z3b(goal)))
        h = hashlib.sha1()
        h.update(name.encode())
        h.update(repr(self.prefix[: self.pos]).encode())
        h.update(goal.sexpr().encode())
        key = (name, h.hexdigest())
        if key in self.obligations:
            ok = self.obligations[key]["status"] == "proved"
            if ok:
                self.pc.append(goal)
            return ok
        t0 = time.time()
        status, backend, model = self._solve(goal, lemmas, rounds, using, gen)
        rec = {"name": name, "status": status, "backend": backend, "time": round(time.time() - t0, 3),
               "detail": detail, "goal": goal.sexpr()[:600] if status != "proved" else "", "model": model}
        self.obligations[key] = rec
        if os.environ.get("PV_VERBOSE"):
            print(f"   [{status}:{backend} {rec['time']}s] {name} {detail}", flush=True)
            if status != "proved":
                print("      goal:", goal.sexpr()[:1500])
                if os.environ.get("PV_VERBOSE") == "2":
                    for p in self.pc:
                        print("      pc:", p.sexpr()[:500])
                    print("      model:", model)
        if status == "proved":
            STATS.backends[backend] = STATS.backends.get(backend, 0) + 1
            self.pc.append(goal)
            return True
        return False

    def known(self, f):
        """f is one of the assumptions or proved facts of this path."""
        f = z3b(f)
        g = z3.simplify(f)
        return z3.is_true(g) or any(f.eq(p) or g.eq(p) for p in self.pc)

    def derive(self, goal, using, gen=(), timeout=None, rounds=None):
        """Proof from named facts of this path alone, with the terms `gen` generalised to arbitrary reals."""
        us = []
        for u in using:
            if not self.known(u):
                if self.check([z3.Not(z3b(u))], 2000)[0] != "unsat":
                    return False
                self.pc.append(z3b(u))
            us.append(z3.simplify(z3b(u)))
        if gen:
            sub = [(z3.simplify(t), z3.FreshConst(t.sort(), "gen")) for t in gen]
            sub = sorted(sub, key=lambda p: -len(p[0].sexpr()))
            for x in sub:
                us = [z3.substitute(u, x) for u in us]
                goal = z3.substitute(goal, x)
        timeout = timeout or self.timeout
        r, m, fs = self.check([z3.Not(goal)], timeout, rounds=rounds, using=us)
        return r == "unsat" or (r == "unknown" and nlsat(fs, timeout) == "unsat")

    def reduce(self, term, limit=10, timeout=700):
        """The term with the conditionals decided that the path decides."""
        left = [limit]
        memo = {}
        mark = hash(tuple(p.get_id() for p in self.pc))

        def decided(c):
            k = ("red", c.get_id(), mark)
            hit = self.fmemo.get(k)
            if hit is None:
                if left[0] <= 0:
                    return None
                left[0] -= 1
                r = None
                if self.check([z3.Not(c)], timeout, rounds=2)[0] == "unsat":
                    r = True
                elif self.check([c], timeout, rounds=2)[0] == "unsat":
                    r = False
                hit = self.fmemo[k] = (r, c)
            return hit[0]

        def walk(t):
            k = t.get_id()
            if k in memo:
                return memo[k][1]
            if t.num_args() == 0:
                r = t
            elif t.decl().kind() == z3.Z3_OP_ITE:
                d = decided(walk(t.arg(0)))
                if d is None:
                    ch = [walk(x) for x in t.children()]
                    r = z3.If(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
                else:
                    r = walk(t.arg(1) if d else t.arg(2))
            else:
                ch = [walk(x) for x in t.children()]
                r = z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch) if not a.eq(b)]) if any(
                    not a.eq(b) for a, b in zip(ch, t.children())) else t
            memo[k] = (t, r)
            return r

        return z3.simplify(walk(term))

    def field(self, goal):
        if not z3.is_eq(goal) and not z3.is_and(goal):
            return False
        memo = {}

        def nonzero(t):
            k = t.get_id()
            if k not in memo:
                memo[k] = (t, self.check([t == 0], 2000)[0] == "unsat")
            return memo[k][1]

        nonzero.facts = [poly.rewrite(f, self.pc) for f in self.pc if mentions_neq(f)]
        return poly.field(goal, self.pc, nonzero)

    def _solve(self, goal, lemmas, rounds=None, using=None, gen=()):
        if using is not None and not z3.is_true(goal) and self.derive(goal, using, gen, rounds=rounds):
            return "proved", "z3", None
        if z3.is_true(goal):
            return "proved", "simplifier", None
        if self.deadline and time.time() > self.deadline:
            return "unknown", "budget", None
        if z3.is_false(goal):
            r, m, fs = self.check([], self.timeout, rounds=rounds, want_model=True)
            if r == "unsat":
                return "proved", "z3", None
            return ("refuted" if r == "sat" else "unknown"), "z3", model_str(m)
        if poly.proves(goal):
            return "proved", "ring", None
        if self.field(goal):
            return "proved", "ring", None
        if has_ite(goal):
            g2 = self.reduce(goal)
            if not g2.eq(goal):
                goal = g2
                if z3.is_true(goal) or poly.proves(goal) or self.field(goal):
                    return "proved", "ring", None
        extra = [z3.Not(goal)] + [z3b(l) for l in lemmas]
        r, m, fs = self.check(extra, self.timeout, rounds=rounds, want_model=True)
        if r == "unsat":
            return "proved", "z3", None
        if r == "sat":
            # a candidate countermodel: look again with more instances of the universal hypotheses
            r2, m2, fs2 = self.check(extra, self.timeout, rounds=(self.rounds if rounds is None else rounds) + 2, want_model=True)
            if r2 == "unsat":
                return "proved", "z3", None
            if r2 == "sat":
                return "refuted", "z3", model_str(m2)
            if nlsat(fs2, self.timeout) == "unsat":
                return "proved", "z3-nlsat", None
            return "refuted", "z3", model_str(m)
        # second opinion: purified nonlinear arithmetic
        r2 = nlsat(fs, self.timeout)
        if r2 == "unsat":
            return "proved", "z3-nlsat", None
        r3 = cvc5_check(fs, self.timeout)
        if r3 == "unsat":
            return "proved", "cvc5", None
        return "unknown", "z3+cvc5", None

    def fail(self, name, detail):
        """An obligation that is false on this path (e.g. an unexpected exception)."""
        return self.prove(name, z3.BoolVal(False), detail)

    def cover(self, name):
        """Vacuity guard: this point must be reachable on some path."""
        if self.covers.get(name):
            return
        r = self.check([], self.timeout, rounds=1)[0]
        self.covers[name] = r != "unsat"

    def vacuous(self):
        """Development aid (PV_VACUITY=1): report paths whose assumptions contradict each other."""
        if os.environ.get("PV_VACUITY") and self.check([], 3000, rounds=2)[0] == "unsat":
            last = [o for o in list(self.obligations.values())[-1:]]
            print("   VACUOUS path", self.prefix[: self.pos], "after", [o.get("name") for o in last], flush=True)

    # -------------------------------------------------------------- exploration
    def explore(self, fn, maxpaths=400):
        """Run fn() over all paths."""
        prefix = []
        n = 0
        while True:
            self.reset(list(prefix))
            n += 1
            STATS.paths += 1
            try:
                fn()
            except PathEnd:
                self.vacuous()
            except Infeasible:
                pass
            else:
                self.vacuous()
            if n >= maxpaths:
                raise Unsupported(f"more than {maxpaths} paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            prefix = self.prefix[: max(self.pos, 0)] if self.pos < len(self.prefix) else self.prefix
            prefix = list(prefix)
            while prefix and (prefix[-1][1] or prefix[-1][0] is False):
                prefix.pop()
            if not prefix:
                return n
            prefix[-1] = (False, False)

    def subexplore(self, thunk, maxpaths=64):
        """Evaluate thunk() over all its paths from here.

        Returns a list of (conditions, assumptions, outcome) where outcome is ("ok", value) or ("exc", exception).
        """
        saved_prefix, saved_pos = self.prefix, self.pos
        base_pc = list(self.pc)
        base_uni = list(self.uni)
        base_names = dict(self.names)
        results = []
        prefix = []
        last_names = base_names
        for _ in range(maxpaths):
            self.prefix, self.pos = list(prefix), 0
            self.pc = list(base_pc)
            self.uni = list(base_uni)
            self.names = dict(base_names)
            try:
                v = ("ok", thunk())
            except Infeasible:
                v = None
            except PathEnd:
                raise
            except Unsupported:
                raise
            except Exception as e:  # noqa: BLE001
                v = ("exc", e)
            if v is not None:
                results.append((list(self.pc[len(base_pc):]), list(self.uni[len(base_uni):]), v))
            for k_, v_ in self.names.items():
                if v_ > last_names.get(k_, 0):
                    last_names = {**last_names, k_: v_}
            prefix = list(self.prefix[: self.pos])
            while prefix and (prefix[-1][1] or prefix[-1][0] is False):
                prefix.pop()
            if not prefix:
                break
            prefix[-1] = (False, False)
        else:
            raise Unsupported("too many paths in nested evaluation")
        self.prefix, self.pos = saved_prefix, saved_pos
        self.pc, self.uni, self.names = base_pc, base_uni, dict(last_names)
        return results


def model_str(m):
    if m is None:
        return None
    out = []
    for d in m.decls()[:40]:
        s = f"{d.name()} = {m[d]}"
        if len(s) < 200:
            out.append(s)
    return "; ".join(out)[:3000]


CTX: Ctx | None = None


def ctx() -> Ctx:
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ------------------------------------------------------------------ conversions
def z3b(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, z3.BoolRef):
        return c
    if hasattr(c, "k"):
        if c.k == "b":
            return c.re
        return c.re != 0
    if isinstance(c, (list, tuple)):
        return z3.And(*[z3b(x) for x in c]) if c else z3.BoolVal(True)
    if type(c).__name__ == "bool_":
        return z3.BoolVal(bool(c))
    raise TypeError(f"not a condition: {c!r}")


def z3i(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    if hasattr(x, "k"):
        if x.k == "i":
            return x.re
        if x.k == "b":
            return z3.If(x.re, z3.IntVal(1), z3.IntVal(0))
    if hasattr(x, "scalar"):
        return z3i(x.scalar())
    raise TypeError(f"not an integer: {x!r}")


def rv(x):
    """Exact real value of a Python number (decimal literals are taken as written)."""
    if isinstance(x, int):
        return z3.RealVal(x)
    f = fractions.Fraction(repr(float(x)))
    return z3.RealVal(f)


# ------------------------------------------------------------------ back ends
def _has_quant(fs):
    return False


def purify(fs, limit=1e9):
    """Replace uninterpreted applications by constants with congruence constraints."""
    subst = {}
    order = []
    for f in fs:
        for a in _apps(f):
            if a.get_id() not in subst:
                subst[a.get_id()] = (a, z3.FreshConst(a.sort(), "u"))
                order.append(a)
    out = []
    pairs = [(a, subst[a.get_id()][1]) for a in order]
    # innermost first is needed for nested applications: substitute repeatedly
    pairs_sorted = sorted(pairs, key=lambda p: -len(p[0].sexpr()))

    memo = {}
    t0 = time.time()

    def rep(e):
        r = memo.get(e.get_id())
        if r is None:
            if time.time() - t0 > limit:
                raise TimeoutError
            r = memo[e.get_id()] = z3.substitute(e, *pairs_sorted) if pairs_sorted else e
        return r

    for f in fs:
        out.append(rep(f))
    by = {}
    for a, c in pairs:
        by.setdefault(a.decl().name(), []).append((a, c))
    for lst in by.values():
        if len(lst) > 30:
            continue
        for x in range(len(lst)):
            for y in range(x):
                a, ca = lst[x]
                b, cb = lst[y]
                eqs = [rep(p) == rep(q) for p, q in zip(a.children(), b.children())]
                out.append(z3.Implies(z3.And(*eqs), ca == cb))
    return out


def nlsat(fs, timeout):
    t0 = time.time()
    try:
        ps = purify(fs, 3 * timeout / 1000)
        g = z3.Goal()
        g.add(*ps)
        s = z3.Then("simplify", "solve-eqs", "elim-uncnstr", "simplify", "qfnra-nlsat").solver()
        s = z3.TryFor(z3.Then("simplify", "propagate-values", "solve-eqs", "simplify", "qfnra-nlsat"), int(timeout)).solver()
        s.add(*ps)
        r = s.check()
        return str(r)
    except (z3.Z3Exception, TimeoutError):
        return "unknown"
    finally:
        STATS.solver_time += time.time() - t0


def cvc5_check(fs, timeout):
    t0 = time.time()
    try:
        s = z3.Solver()
        s.add(*fs)
        txt = "(set-logic ALL)\n" + s.to_smt2().replace("(check-sat)", "") + "\n(check-sat)\n"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
            fh.write(txt)
            p = fh.name
        try:
            r = subprocess.run(["cvc5", f"--tlimit={int(timeout)}", "--nl-ext-tplanes", p],
                               capture_output=True, text=True, timeout=timeout / 1000 + 5)
            return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        except subprocess.TimeoutExpired:
            return "unknown"
        finally:
            os.unlink(p)
    finally:
        STATS.solver_time += time.time() - t0
