"""C17: sampled redshifts on the real code."""
import numpy as np
from common import Failure, Rng, backend, expect, expect_close

import glass


def grid(r, k=None):
    n = int(r.integers(2, 12))
    shape = (n,) if k is None else (k, n)
    z = np.cumsum(r.uniform(0.05, 0.4, shape), axis=-1) - r.uniform(0, 0.3)
    nz = r.uniform(0.05, 1, shape)
    if r.random() < 0.3:
        nz[..., int(r.integers(n))] = 0.0
    return z, nz


def inverse(z, nz, u):
    cdf = np.concatenate([[0], np.cumsum((nz[1:] + nz[:-1]) / 2 * np.diff(z))])
    cdf /= cdf[-1]
    return np.interp(u, cdf, z)


def uniforms(rng, total):
    us = [c for c in rng.calls if c[0] in ("uniform", "random")]
    if [c for c in rng.calls if c[0] not in ("uniform", "random")] or sum(c[3].size for c in us) != total:
        return None
    for c in us:
        if c[0] == "uniform" and (float(c[1][0]), float(c[1][1])) != (0.0, 1.0):
            return None
    return np.concatenate([np.ravel(c[3]) for c in us]) if us else np.empty(0)


def t_inverse_cdf(r):
    z, nz = grid(r)
    m = int(r.integers(0, 30))
    rng = Rng(r, uniform=lambda g, lo, hi, size: np.where(g.random(size) < 0.15, np.where(g.random(size) < 0.5, 0.0, np.nextafter(1.0, 0)), g.random(size)))
    x = np.asarray(glass.redshifts_from_nz(m, z, nz, rng=rng, warn=False))
    info = dict(count=m, z=z, nz=nz, x=x)
    expect(x.shape == (m,), "number of redshifts", **info)
    expect(((x >= z[0] - 1e-12) & (x <= z[-1] + 1e-12)).all(), "outside the grid", **info)
    u = uniforms(rng, m)
    if u is not None:
        expect_close(x, inverse(z, nz, u), "not the inverse cumulative distribution at the draw", u=u, rtol=1e-8, **info)
    else:
        # drawn in some other way: the grid cell frequencies
        x = np.asarray(glass.redshifts_from_nz(20000, z, nz, rng=np.random.default_rng(5), warn=False))
        w = (nz[1:] + nz[:-1]) / 2 * np.diff(z)
        h = np.histogram(x, z)[0] / 20000
        expect((np.abs(h - w / w.sum()) < 0.03).all(), "wrong distribution", z=z, nz=nz, got=h, want=w / w.sum())


def t_populations(r):
    K = int(r.integers(1, 5))
    kind = r.integers(0, 2, 3)
    if not kind.any():
        kind[0] = 1
    z = grid(r)[0]
    n = z.shape[-1]
    if kind[1]:
        z = z + r.uniform(0, 5, (K, 1))
    nz = r.uniform(0.05, 1, (K, n) if kind[2] else (n,))
    c = r.integers(0, 7, K) if kind[0] else int(r.integers(0, 7))
    rng = Rng(r)
    x = np.asarray(glass.redshifts_from_nz(c, z, nz, rng=rng, warn=False))
    cs, zs, ns = np.broadcast_to(c, (K,)), np.broadcast_to(z, (K, n)), np.broadcast_to(nz, (K, n))
    info = dict(count=c, z=z, nz=nz, x=x)
    expect(x.shape == (int(cs.sum()),), "number of redshifts", **info)
    u = uniforms(rng, x.size)
    lo = np.repeat(zs[:, 0], cs)
    hi = np.repeat(zs[:, -1], cs)
    expect(((x >= lo - 1e-9) & (x <= hi + 1e-9)).all(), "outside the population's grid", **info)
    if u is not None and len(rng.calls) == K:
        o = np.concatenate([[0], np.cumsum(cs)])
        want = np.concatenate([inverse(zs[k], ns[k], u[o[k]:o[k + 1]]) for k in range(K)])
        expect_close(x, want, "population order or distribution", rtol=1e-8, **info)


def t_many_axes(r):
    shape = (2, 3)
    z = np.linspace(0, 1, 5) + 10 * np.arange(6).reshape(2, 3, 1)
    nz = r.uniform(0.1, 1, 5)
    c = r.integers(0, 5, shape)
    x = np.asarray(glass.redshifts_from_nz(c, z, nz, rng=np.random.default_rng(int(r.integers(1000))), warn=False))
    expect(x.shape == (c.sum(),), "number of redshifts", count=c, x=x)
    expect((np.floor(x / 10) == np.repeat(np.arange(6), c.ravel())).all(), "population order", count=c, x=x)


def t_bins(r):
    b = backend(["numpy", "strict", "jax"][r.choice(3, p=[0.6, 0.3, 0.1])])
    z = np.linspace(0, 1, 6)
    K = int(r.integers(1, 7))
    keys = r.permutation(20)[:K] - 5
    # the labels have disjoint supports
    grid = np.linspace(0, 10, 10 * K + 1) if K else None
    d = {}
    for i, k in enumerate(keys):
        nz = np.zeros(grid.size)
        nz[10 * i + 2:10 * i + 8] = r.uniform(0.1, 1, 6)
        d[int(k)] = nz
    shape = [(int(r.integers(1, 40)),), (3, 4), (2, 2, 3), (1, 1), ()][r.integers(5)] if b.__name__ == "numpy" else [(7,), (3, 4)][r.integers(2)]
    use = keys if r.random() < 0.5 else keys[:max(1, K // 2)]
    lab = r.choice(use, shape)
    lab = np.asarray(lab)
    seed = int(r.integers(1000))
    if b.__name__ == "numpy":
        rng = Rng(r) if r.random() < 0.5 else np.random.default_rng(seed)
    else:
        rng = None
    x = np.asarray(glass.redshifts_from_bins(b.asarray(lab), b.asarray(grid), {k: b.asarray(v) for k, v in d.items()}, rng=rng))
    info = dict(bins=lab, z=grid, labels=list(d), x=x, backend=b.__name__)
    expect(x.shape == lab.shape, "shape of the labels", **info)
    w = 10.0 / K
    i = np.vectorize(lambda t: list(d).index(int(t)), otypes=[int])(lab)
    h = grid[1]
    ok = (x >= (10 * i + 1) * h - 1e-9) & (x <= (10 * i + 8) * h + 1e-9)
    expect(ok.all(), "redshift is not from the distribution of its own label", **info)


def t_string_labels(r):
    grid = np.linspace(0, 3, 31)
    d = {k: np.where((grid >= i + 0.2) & (grid <= i + 0.8), 1.0, 0.0) for i, k in enumerate(["b", "c", "a"])}
    lab = r.choice(list(d), (4, 3))
    x = glass.redshifts_from_bins(lab, grid, d, rng=np.random.default_rng(3))
    want = np.vectorize(lambda k: list(d).index(k), otypes=[int])(lab)
    expect((np.floor(x) == want).all(), "redshift is not from the distribution of its own label", bins=lab, x=x)


def t_window(r):
    z, nz = grid(r)
    w = glass.RadialWindow(z, nz, 0.5)
    a, c = Rng(r), int(r.integers(0, 20))
    x = np.asarray(glass.redshifts(c, w, rng=a))
    u = uniforms(a, c)
    expect(x.shape == (c,) and bool(((x >= z[0] - 1e-12) & (x <= z[-1] + 1e-12)).all()), "redshifts of the window", count=c, z=z, x=x)
    if u is not None:
        expect_close(x, inverse(z, nz, u), "redshifts of the window", count=c, z=z, nz=nz, u=u, rtol=1e-8)
