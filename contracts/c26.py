"""C26: the JAX generator never reuses a random key."""
import z3

from pv import xp as X
from pv.core import PathEnd, Unsupported, z3i
from pv.harness import harness
from pv.seq import to_seq
from pv.stubs import Key, SymLock, child_f, depth_f, events
from pv.vals import Sc, cast

G = "glass.jax.Generator"
I = z3.IntSort()
JNP = X.JAXNP


class Dtype:
    """some data type of the caller"""


DT = Dtype()


def generator(v):
    """A generator in an arbitrary state k0; every access to the state is recorded with the state of the lock."""
    base = v.mod("glass.jax").Generator
    log = []

    class Monitored(base):
        @property
        def key(self):
            log.append(("get", id(self), getattr(getattr(self, "lock", None), "held", None), getattr(getattr(self, "lock", None), "count", 0)))
            return base.key.__get__(self)

        @key.setter
        def key(self, k):
            lock = getattr(self, "lock", None)
            log.append(("set", id(self), getattr(lock, "held", None), getattr(lock, "count", 0)))
            base.key.__set__(self, k)

    k0 = z3.Int("state")
    g = object.__new__(Monitored)
    base.key.__set__(g, Key(lambda: k0))
    g.lock = SymLock()
    if not isinstance(base.lock.__get__(g), SymLock):
        raise Unsupported("no lock")

    def state():
        k = base.key.__get__(g)
        if not isinstance(k, Key) or k.shape:
            v.c.fail("state", "the state is not a single key")
            raise PathEnd
        return k.get()

    return g, k0, state, log


def locked(v, g, log):
    """the state is read and replaced while the lock is held, without letting go in between"""
    mine = [e for e in log if e[1] == id(g)]
    ok = all(e[2] for e in mine) and len({e[3] for e in mine}) <= 1 and not g.lock.held
    if mine:
        v.prove("state-change-is-atomic", z3.BoolVal(ok))


def chain(v, k, k0):
    """the key and its ancestors up to (and without) the former state"""
    out = []
    while not k.eq(k0):
        if not (z3.is_app(k) and k.decl().name() == "child"):
            v.c.fail("derived-from-state", f"{k}")
            raise PathEnd
        out.append(k)
        k = z3.simplify(k.arg(0))
    return out


def used_once(v, k0, keys):
    """keys (name -> term): all split off the former state, none equal to another or an ancestor of another"""
    items = [(n, z3.simplify(k), None) for n, k in keys]
    chains = [chain(v, k, k0) for _, k, _ in items]
    for n, k, _ in items:
        v.prove(f"not-the-old-state.{n}", k != k0 if k.eq(k0) else depth_f(k) != depth_f(k0))
    for a in range(len(items)):
        for b in range(len(items)):
            if a != b:
                v.prove(f"not-shared.{items[a][0]}.{items[b][0]}", z3.And(*[items[a][1] != x for x in chains[b]]))


def drawn(v, g, k0, state, log, dist):
    """The draws of the call: all keys are used once; returns the single draw."""
    es = events("jdraw")
    if not es:
        raise Unsupported("nothing is drawn")
    used_once(v, k0, [("state", state())] + [(f"draw{i}", e.key) for i, e in enumerate(es)])
    locked(v, g, log)
    if len(es) != 1 or es[0].dist != dist:
        raise Unsupported("drawn in another way")
    return es[0]


def sizes(v, kind):
    n, m = v.int("s0", lo=0), v.int("s1", lo=0)
    return {"none": (None, ()), "int": (n, (n,)), "one": ((n,), (n,)), "two": ((n, m), (n, m)), "empty": ((), ())}[kind]


def at(a, ix):
    return (a if isinstance(a, Sc) else a.at(*ix)) if not isinstance(a, (int, float)) else Sc("r", z3.RealVal(str(a)))


def shape_of(a):
    return () if isinstance(a, (Sc, int, float)) else a.shape


def simple(method, dist, kind):
    @harness(f"{method}[{kind}]", funcs=[f"{G}.{method}"])
    def h(v):
        size, shape = sizes(v, kind)
        g, k0, state, log = generator(v)
        v.cover()
        out = v.call(getattr(g, method), size, DT)
        e = drawn(v, g, k0, state, log, dist)
        v.prove("type", z3.BoolVal(e.params["dtype"] is DT))
        v.dims("shape", e.result if not isinstance(e.result, Sc) else X.NUMPY.asarray(e.result), shape)
        if len(shape_of(out)) != len(shape):
            v.c.fail("result.shape", f"{shape_of(out)}")
            return
        ix = [v.ix(f"i{q}", d) for q, d in enumerate(shape)]
        v.prove("value", at(out, ix).re == e.raw(e.key, *ix))
        # a second draw continues from the new state
        k1 = state()
        n1 = len(events("jdraw"))
        v.call(getattr(g, method), size, DT)
        used_once(v, k0, [("first", e.key), ("state", state())] + [(f"second{i}", d.key) for i, d in enumerate(events("jdraw")[n1:])])
    return h


for k in ("none", "int", "one", "two", "empty"):
    simple("random", "uniform", k)
    simple("standard_normal", "normal", k)


PARAM = {"normal": ("loc", "scale"), "uniform": ("low", "high"), "poisson": ("lam",)}
DIST = {"normal": "normal", "uniform": "uniform", "poisson": "poisson"}


def param_shapes(v, kind, npar):
    n, m = v.int("n", lo=0), v.int("m", lo=0)
    sh = {"scalar": [(), ()], "vector": [(n,), (n,)], "first": [(n,), ()], "last": [(), (n,)], "outer": [(n, 1), (m,)]}[kind][:npar]
    if npar == 1:
        sh = [(n,)] if kind != "scalar" else [()]
    b = {"scalar": (), "outer": (n, m)}.get(kind, (n,))
    return sh, b if npar == 2 else sh[0]


def check_values(v, method, e, out, pars, ix, bshape_):
    rd = lambda p: at(p, [0 if isinstance(d, int) and d == 1 else ix[len(ix) - len(shape_of(p)) + q] for q, d in enumerate(shape_of(p))])
    p = [cast(rd(q), "r").re for q in pars]
    raw = lambda: e.raw(e.key, *ix)
    o = at(out, ix).re
    if method == "normal":
        v.prove("value", o == p[0] + p[1] * raw())
    elif method == "uniform":
        v.prove("value", o == p[0] + (p[1] - p[0]) * raw())
    else:
        v.prove("value", o == raw())
        lam = e.params["lam"]
        lx = [0 if isinstance(d, int) and d == 1 else ix[len(ix) - len(shape_of(lam)) + q] for q, d in enumerate(shape_of(lam))]
        v.prove("parameter", cast(at(lam, lx), "r").re == p[0])


def with_params(method, pk, sk):
    pn = PARAM[method]

    @harness(f"{method}[{pk},{sk}]", funcs=[f"{G}.{method}", "glass.jax._shape"])
    def h(v):
        shs, b = param_shapes(v, pk, len(pn))
        pars = [v.arr(nm, s, xp=JNP) if s else v.real(nm) for nm, s in zip(pn, shs)]
        size, shape = sizes(v, sk)
        g, k0, state, log = generator(v)
        v.cover()
        call = lambda: getattr(g, method)(*pars, size, DT)
        want = b if size is None or not b and not shape else shape
        if size is not None and b:
            # an explicit shape has to be the shape of the parameters
            same = z3.And(*[z3i(x) == z3i(y) for x, y in zip(shape, b)]) if len(shape) == len(b) else z3.BoolVal(False)
            out = v.raises_iff("shape", ValueError, z3.Not(same), call)
        else:
            out = v.call(call)
        e = drawn(v, g, k0, state, log, DIST[method])
        v.prove("type", z3.BoolVal(e.params["dtype"] is DT))
        if len(shape_of(out)) != len(want) or len(e.shape) != len(want):
            v.c.fail("result.shape", f"{shape_of(out)}")
            return
        for q, (x, y, d) in enumerate(zip(shape_of(out), want, e.shape)):
            v.prove(f"result.shape.{q}", z3.And(z3i(x) == z3i(y), z3i(d) == z3i(y)))
        ix = [v.ix(f"i{q}", d) for q, d in enumerate(want)]
        check_values(v, method, e, out, pars, ix, b)
    return h


for meth in PARAM:
    for pk, sk in [("scalar", "none"), ("scalar", "int"), ("scalar", "two"), ("vector", "none"), ("vector", "int"), ("vector", "one"),
                   ("vector", "two"), ("first", "none"), ("last", "none"), ("first", "one"), ("outer", "none"), ("outer", "two")]:
        if meth == "poisson" and pk in ("first", "last", "outer"):
            continue
        with_params(meth, pk, sk)


def multinomial(rank, sk, arrn):
    @harness(f"multinomial[{rank},{sk},{'array' if arrn else 'scalar'}]", funcs=[f"{G}.multinomial", "glass.jax._shape"])
    def h(v):
        K = v.int("K", lo=1)
        b = tuple(v.int(f"n{q}", lo=0) for q in range(rank))
        p = v.arr("p", (*b, K), xp=JNP)
        n = v.arr("n", b, "i", xp=JNP) if arrn else v.int("count", lo=0)
        size, shape = sizes(v, sk)
        g, k0, state, log = generator(v)
        v.cover()
        call = lambda: g.multinomial(n, p, size, DT)
        if size is not None and b:
            same = z3.And(*[z3i(x) == z3i(y) for x, y in zip(shape, b)]) if len(shape) == len(b) else z3.BoolVal(False)
            out = v.raises_iff("shape", ValueError, z3.Not(same), call)
        else:
            out = v.call(call)
        want = (*(b or shape), K)
        e = drawn(v, g, k0, state, log, "multinomial")
        v.prove("type", z3.BoolVal(e.params["dtype"] is DT))
        v.dims("shape", out, want)
        ix = [v.ix(f"i{q}", d) for q, d in enumerate(want)]
        v.prove("value", out.at(*ix).re == e.raw(e.key, *ix))
        q, c = e.params["p"], e.params["n"]
        v.dims("probabilities.shape", q, (*b, K))
        qi = [*ix[len(want) - 1 - rank:-1], ix[-1]] if rank else [ix[-1]]
        v.prove("probabilities", q.at(*qi).re == p.at(*qi).re)
        if len(shape_of(c)):
            v.prove("count", at(c, ix[:-1]).re == at(n, ix[:-1]).re)
        else:
            v.prove("count", at(c, ()).re == n.re)
    return h


for args in [(0, "none", False), (0, "int", False), (0, "two", False), (1, "none", False), (1, "int", False), (1, "one", True), (2, "none", True),
             (2, "two", False), (1, "two", False)]:
    multinomial(*args)


def split(kind):
    @harness(f"split[{kind}]", funcs=[f"{G}.split", "glass.jax._shape"])
    def h(v):
        n = v.int("s0", lo=0)
        size, shape = {"none": (None, ()), "int": (n, (n,)), "one": ((n,), (n,)), "two": ((n, 3), (n, 3))}[kind]
        g, k0, state, log = generator(v)
        v.cover()
        keys = v.call(g.split, size)
        if not isinstance(keys, Key):
            v.c.fail("keys", "no keys are returned")
            return
        if len(keys.shape) != len(shape):
            v.c.fail("shape", f"{keys.shape}")
            return
        for q, (x, y) in enumerate(zip(keys.shape, shape)):
            v.prove(f"shape.{q}", z3i(x) == z3i(y))
        i = [v.ix(f"i{q}", d) for q, d in enumerate(shape)]
        used_once(v, k0, [("state", state()), ("key", keys.get(*i))])
        if shape:
            j = [v.ix(f"j{q}", d) for q, d in enumerate(shape)]
            v.prove("distinct", z3.Implies(z3.Or(*[a != b for a, b in zip(i, j)]), keys.get(*i) != keys.get(*j)))
        locked(v, g, log)
    return h


for k in ("none", "int", "one", "two"):
    split(k)


@harness("spawn", funcs=[f"{G}.spawn", f"{G}.from_key"])
def spawn(v):
    n = v.int("n", lo=0)
    g, k0, state, log = generator(v)
    v.cover()
    kids = to_seq(v.call(g.spawn, n))
    v.length("count", kids, n)
    if not v.c.feasible(n.re > 0):
        return
    i, j = v.ix("i", n), v.ix("j", n)
    base = v.mod("glass.jax").Generator
    key = lambda q: base.key.__get__(kids.getter(q)).get()
    used_once(v, k0, [("state", state()), ("child", key(i))])
    v.prove("distinct", z3.Implies(i != j, key(i) != key(j)))
    a = kids.getter(i)
    if not isinstance(getattr(a, "lock", None), SymLock) or a.lock is g.lock:
        v.c.fail("lock", "children need a lock of their own")
    locked(v, g, [e for e in log if e[1] == id(g)])
    # a draw of a child does not touch the parent
    before = state()
    m = len(events("jdraw"))
    v.call(a.random)
    v.prove("parent-unchanged", before == state())
    used_once(v, k0, [("parent", before), ("child-state", base.key.__get__(a).get()), ("child-draw", events("jdraw")[m].key)])


@harness("seed", funcs=[f"{G}.__init__"])
def seed(v):
    s = v.int("seed")
    v.cover()
    g = v.call(v.mod("glass.jax").Generator, s, impl="some")
    e = events("key")
    if len(e) != 1:
        v.c.fail("seed", "the key is not made once from the seed")
        return
    v.prove("seed", e[0].seed.re == s.re if isinstance(e[0].seed, Sc) else z3.BoolVal(False))
    v.prove("implementation", z3.BoolVal(e[0].impl == "some"))
    v.prove("state", g.key.get() == e[0].key)


@harness("from_key", funcs=[f"{G}.from_key"])
def from_key(v):
    k = z3.Int("k")
    C = v.mod("glass.jax").Generator
    v.cover()
    g = v.call(C.from_key, Key(lambda: k))
    v.prove("state", g.key.get() == k)
    v.call(g.random)        # usable: has a lock
    for bad in (v.arr("data", (2,), "i", xp=JNP), "key"):
        kind, _ = v.attempt(C.from_key, bad)
        if kind == "ok":
            v.c.fail("rejects", "not a key, but accepted")
        elif not isinstance(_, ValueError):
            v.c.fail("rejects", f"{type(_).__name__}")
    v.prove("checked", z3.BoolVal(True))


@harness("histories", funcs=[G])
def histories(v):
    """lemma: replacing one key of an antichain of keys by children of it gives an antichain again, so by induction no history of
    draws, splits and spawns uses a key twice or derives a key from one that was consumed"""
    K = z3.DeclareSort("KeySort")
    anc = z3.Function("is_ancestor", K, K, z3.BoolSort())      # strict
    k, y, c, d, z = (z3.Const(n, K) for n in "kycdz")
    depth = z3.Function("depth", K, I)
    v.cover()
    facts = []
    for x in (k, y, c, d, z):
        for w in (k, y, c, d, z):
            facts.append(z3.Implies(anc(x, w), depth(x) < depth(w)))
            for u in (k, y, c, d, z):
                facts.append(z3.Implies(z3.And(anc(x, w), anc(w, u)), anc(x, u)))
    # c and d are distinct children of k: their ancestors are k and the ancestors of k
    for ch in (c, d):
        facts.append(depth(ch) == depth(k) + 1)
        for x in (k, y, c, d, z):
            facts.append(anc(x, ch) == z3.Or(x == k, anc(x, k)))
    apart = lambda a, b: z3.And(a != b, z3.Not(anc(a, b)), z3.Not(anc(b, a)))
    for f in facts:
        v.assume(f)
    v.assume(c != d)
    v.assume(z3.And(apart(k, y), apart(k, z), apart(y, z)))
    v.prove("others-stay-apart", apart(y, z))
    v.prove("child-and-other", z3.And(apart(c, y), apart(d, z)))
    v.prove("siblings", apart(c, d))
    v.prove("old-state-is-gone", z3.And(c != k, d != k))


ASSUMPTIONS = ["jax.random.split(key, n) gives n keys that are distinct from each other, from the key itself and from all keys that are "
               "not derived from it (collisions of the hash are neglected); draws of jax.random depend on their key and arguments only",
               "the lock is a mutual exclusion: two threads do not interleave inside it"]
