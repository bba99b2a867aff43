"""C15: expected galaxy numbers on the real code (the means handed to the Poisson draw are recorded)."""
import numpy as np
from common import Rng, backend, backends, expect, expect_close

import glass

AREA = 4 * np.pi * (180 * 60 / np.pi) ** 2


def pick(r):
    return backend(backends()[r.integers(3)])


def t_expected(r):
    b = pick(r)
    ns = int(r.choice([1, 2, 4]))
    npix = 12 * ns * ns
    pop = [(), (), (3,), (2, 2), (1,)][r.integers(5)]

    def lead(p=0.5):
        if r.random() > p:
            return ()
        k = int(r.integers(0, len(pop) + 1))
        return tuple(d if r.random() < 0.7 else 1 for d in pop[len(pop) - k:])

    model = ["linear", "loglinear", "custom"][r.integers(3)]
    big = r.random() < 0.5
    delta = r.uniform(-0.95, 3.0, lead() + (npix,)) if not big else np.clip(r.normal(0, 2, lead() + (npix,)), -0.95, None)
    if model != "loglinear" and r.random() < 0.3:
        delta = r.normal(0, 1.5, delta.shape)
    ngal = r.uniform(0, 1e-4, lead())
    bias = None if r.random() < 0.3 else (float(r.uniform(0.3, 3)) if r.random() < 0.5 else r.uniform(0.3, 3, lead()))
    vis = None if r.random() < 0.4 else r.uniform(0, 1, lead() + (npix,)) * (r.uniform(size=npix) < 0.7)
    mono = bool(r.random() < 0.5)
    fs = {"linear": glass.linear_bias, "loglinear": glass.loglinear_bias, "custom": lambda d, c: c * d + 0.1 * d * d}
    A = lambda x: x if x is None or isinstance(x, float) else b.asarray(x)
    rng = Rng(r, poisson=lambda g, lam, size: np.zeros(np.shape(lam), dtype=np.int64))
    kw = dict(bias_model=fs[model]) if model != "linear" or r.random() < 0.5 else {}
    if mono or r.random() < 0.5:
        kw["remove_monopole"] = mono
    ng = float(ngal) if ngal.ndim == 0 and r.random() < 0.5 else A(ngal)
    out = list(glass.positions_from_delta(ng, A(delta), A(bias), A(vis), rng=rng, **kw))
    info = dict(ngal=ngal, delta=delta, bias=bias, vis=vis, model=model, remove_monopole=mono, backend=b.__name__)
    expect(out == [], "positions without any galaxies", **info)
    full = np.broadcast_shapes(ngal.shape, delta.shape[:-1], () if bias is None else np.shape(bias), () if vis is None else vis.shape[:-1])
    G = np.broadcast_to(ngal, full).reshape(-1)
    D = np.broadcast_to(delta, full + (npix,)).reshape(-1, npix)
    B = None if bias is None else np.broadcast_to(np.asarray(bias), full).reshape(-1)
    V = np.ones((G.size, npix)) if vis is None else np.broadcast_to(vis, full + (npix,)).reshape(-1, npix)
    calls = rng.of("poisson")
    expect(len(calls) == G.size, "one draw per population", draws=len(calls), **info)
    for t in range(G.size):
        c = D[t] if B is None else dict(linear=lambda: B[t] * D[t], loglinear=lambda: (1 + D[t]) ** B[t] - 1,
                                        custom=lambda: B[t] * D[t] + 0.1 * D[t] ** 2)[model]()
        if mono:
            c = c - c.mean()
        want = np.maximum(0, G[t] * AREA / npix * (1 + c) * V[t])
        lam = calls[t][1][0]
        expect(lam.shape == (npix,), "one mean per pixel", population=t, **info)
        expect_close(lam, want, "expected galaxy numbers", rtol=1e-9, atol=1e-9 * (G[t] * AREA / npix + 1e-300), population=t, **info)
        if mono and vis is None and np.all(1 + c >= 0):
            expect_close(lam.sum(), G[t] * AREA, "expected total over the sky", rtol=1e-9, population=t, **info)


def t_bias(r):
    b = pick(r)
    d = r.uniform(-0.99, 4, (2, 5))
    if r.random() < 0.3:
        d = d * 1e-9
    c = float(r.uniform(0.1, 3))
    bb = c if r.random() < 0.5 else b.asarray(np.full((2, 5), c))
    expect_close(glass.linear_bias(b.asarray(d), bb), c * d, "linear bias", delta=d, b=c)
    got = np.asarray(glass.loglinear_bias(b.asarray(d), b.asarray(np.full((2, 5), c)))) 
    expect_close(np.log1p(got), c * np.log1p(d), "log-linear bias", rtol=1e-9, atol=1e-15, delta=d, b=c)
