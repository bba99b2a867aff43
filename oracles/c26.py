"""C26: random histories of the real JAX generator; every key is recorded."""
import threading

import jax
import jax.numpy as jnp
import numpy as np
from common import expect, expect_close, expect_raises

import glass.jax

NAMES = ("uniform", "normal", "poisson", "multinomial")


def kd(k):
    return tuple(np.asarray(jax.random.key_data(k)).reshape(-1).tolist())


class Watch:
    """Records the keys that draws consume and the keys that are split."""

    def __enter__(self):
        self.drawn, self.split, self.old = [], [], {}
        for n in (*NAMES, "split"):
            f = self.old[n] = getattr(jax.random, n)

            def g(key, *a, _f=f, _n=n, **k):
                if not isinstance(key, jax.core.Tracer):
                    (self.split if _n == "split" else self.drawn).append((_n, kd(key), a, k))
                return _f(key, *a, **k)

            setattr(jax.random, n, g)
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(jax.random, n, f)


def new(r):
    return glass.jax.Generator(int(r.integers(1 << 30)))


def draw(r, g):
    k = r.integers(7)
    if k == 0:
        g.random(3)
    elif k == 1:
        g.normal(jnp.zeros(2), 1.0)
    elif k == 2:
        g.poisson(jnp.asarray([1.0, 2.0]))
    elif k == 3:
        g.standard_normal((2, 1))
    elif k == 4:
        g.uniform(0.0, 2.0)
    else:
        g.multinomial(1, jnp.asarray([0.2, 0.8]))


def t_history(r):
    live = [new(r)]
    out = []          # keys given to the caller
    with Watch() as w:
        for _ in range(int(r.integers(2, 12))):
            g = live[r.integers(len(live))]
            k = r.integers(4)
            if k <= 1:
                draw(r, g)
            elif k == 2:
                size = [None, 1, 2, (2,), (2, 2), 0, ()][r.integers(7)]
                keys = g.split(size)
                want = () if size is None else (size,) if isinstance(size, int) else size
                expect(keys.shape == want, "shape of split", got=keys.shape, want=want)
                out += [kd(q) for q in keys.reshape(-1)]
            else:
                n = int(r.integers(0, 4))
                kids = g.spawn(n)
                expect(len(kids) == n, "number of children", got=len(kids), n=n)
                live += kids
    consumed = [k for _, k, _, _ in w.drawn] + out + [kd(g.key) for g in live]
    split = [k for _, k, _, _ in w.split]
    expect(len(set(consumed)) == len(consumed), "a key is used twice", ops=[n for n, *_ in w.drawn], keys=consumed)
    expect(len(set(split)) == len(split), "a key is split twice", keys=split)
    expect(not set(split) & set(consumed), "a key that was split is used", keys=sorted(set(split) & set(consumed)))


def t_threads(r):
    g = new(r)
    out = []
    ths = [threading.Thread(target=lambda: out.extend([g.random(2) for _ in range(4)])) for _ in range(3)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    s = {tuple(np.asarray(a).tolist()) for a in out}
    expect(len(s) == 12, "equal draws in two threads", got=len(s))


SHAPES = [(), (1,), (3,), (2, 1), (2, 3), (1, 3)]


def t_parameters(r):
    g = new(r)
    a = r.uniform(0.5, 3, SHAPES[r.integers(6)])
    b = r.uniform(3, 5, SHAPES[r.integers(6)])
    bs = np.broadcast_shapes(a.shape, b.shape)
    k = int(r.integers(3))
    use = bs if k != 2 else a.shape
    size = None if r.integers(2) else ((4,) if not use else use)
    want = use if size is None or use else size
    dt = [jnp.float32, jnp.float64][r.integers(2)]
    f = [lambda **q: g.normal(a, b, size, dt), lambda **q: g.uniform(a, b, size, dt), lambda **q: g.poisson(a, size, jnp.int32)][k]
    with Watch() as w:
        x = f()
    info = dict(a=a, b=b, size=size, method=("normal", "uniform", "poisson")[k])
    expect(x.shape == want, "shape of the draw", got=x.shape, want=want, **info)
    expect(x.dtype == (jnp.int32 if k == 2 else dt) or (k == 0 and x.dtype == jnp.float64), "type of the draw", got=str(x.dtype), **info)
    name, key, _, _ = w.drawn[0]
    expect(len(w.drawn) == 1, "one draw", **info)
    key = jax.random.wrap_key_data(jnp.asarray(key, dtype=jnp.uint32))
    ref = [lambda: a + b * np.asarray(jax.random.normal(key, want, dt)), lambda: jax.random.uniform(key, want, dt, jnp.asarray(a), jnp.asarray(b)),
           lambda: jax.random.poisson(key, jnp.asarray(a), want, jnp.int32)][k]()
    expect_close(np.asarray(x), np.asarray(ref), "value of the draw", rtol=1e-5, **info)
    bad = (7,) if not use or use[-1:] != (7,) else (8,)
    if use:
        wrong = [lambda: g.normal(a, b, bad), lambda: g.uniform(a, b, bad), lambda: g.poisson(a, bad)][k]
        expect_raises(ValueError, wrong, "shape that contradicts the parameters accepted")
        if use != (1,) * len(use):
            one = (1,) * len(use)
            wrong = [lambda: g.normal(a, b, one), lambda: g.uniform(a, b, one), lambda: g.poisson(a, one)][k]
            expect_raises(ValueError, wrong, "shape that contradicts the parameters accepted")


def t_multinomial(r):
    g = new(r)
    lead = SHAPES[r.integers(6)]
    p = r.uniform(0.1, 1, (*lead, 3))
    p /= p.sum(axis=-1, keepdims=True)
    n = int(r.integers(1, 5))
    size = lead if r.integers(2) and lead else None
    x = np.asarray(g.multinomial(n, jnp.asarray(p), size))
    expect(x.shape == p.shape, "shape", got=x.shape, p=p, size=size)
    expect((x.sum(axis=-1) == n).all() and (x >= 0).all(), "counts", got=x, n=n)
    s = np.asarray(g.multinomial(n, jnp.asarray([0.0, 1.0]), (2, 2)))
    expect(s.shape == (2, 2, 2) and (s[..., 1] == n).all(), "explicit shape", got=s)


def t_plain(r):
    g = new(r)
    size = [None, 3, (2,), (2, 3), 0, ()][r.integers(6)]
    want = () if size is None else (size,) if isinstance(size, int) else size
    for m in (g.random, g.standard_normal):
        with Watch() as w:
            x = m(size, jnp.float32)
        expect(x.shape == want and x.dtype == jnp.float32, "shape and type", got=(x.shape, str(x.dtype)), size=size)
        key = jax.random.wrap_key_data(jnp.asarray(w.drawn[0][1], dtype=jnp.uint32))
        f = jax.random.uniform if m == g.random else jax.random.normal
        expect_close(np.asarray(x), np.asarray(f(key, want, jnp.float32)), "value", size=size)
    for bad in (jnp.asarray([1, 2]), np.zeros(2)):
        expect_raises(ValueError, lambda bad=bad: glass.jax.Generator.from_key(bad), "not a key accepted")
    k = jax.random.key(int(r.integers(100)))
    expect(kd(glass.jax.Generator.from_key(k).key) == kd(k), "state of from_key")
    s = int(r.integers(100))
    expect(kd(glass.jax.Generator(s).key) == kd(jax.random.key(s)), "state from the seed", seed=s)
    expect(kd(glass.jax.Generator(s, impl="rbg").key) == kd(jax.random.key(s, impl="rbg")), "implementation", seed=s)
