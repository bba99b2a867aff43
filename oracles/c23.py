"""C23: redshift distributions and bins on the real code."""
import math

import numpy as np
from common import backend, expect, expect_close, expect_raises

import glass


def grid(r, lo=0.0):
    n = int(r.integers(2, 60))
    z = np.cumsum(r.uniform(0.01, 0.3, n)) + lo
    if r.random() < 0.4:
        z = z - z[0]
    return z


def backends_for(r):
    return backend(["numpy", "strict", "jax"][r.integers(3)])


def trap(y, x):
    return ((y[..., 1:] + y[..., :-1]) / 2 * np.diff(x)).sum(-1)


def check(out, z, shape, want, norm, info):
    out = np.asarray(out)
    expect(out.shape == (*shape, z.size), "shape of the distribution", got=out.shape, **info)
    expect((out >= 0).all(), "negative distribution", got=out, **info)
    expect_close(trap(out, z), np.full(shape, 1.0 if norm is None else norm), "integral of the distribution", rtol=1e-9, **info)
    c = 1.0 if norm is None else norm
    expect_close(out, c * want / trap(want, z)[..., None], "values of the distribution", rtol=1e-9, atol=1e-12, **info)


def par(r, shape, lo, hi):
    return r.uniform(lo, hi, size=shape) if shape else float(r.uniform(lo, hi))


def t_gaussian(r):
    b = backends_for(r)
    z = grid(r)
    shape = [(), (3,), (2, 3), (1,)][r.integers(4)]
    one = r.random() < 0.3
    mean, sigma = par(r, shape, z[0], z[-1]), par(r, () if one else shape, 0.3, 1.5)
    norm = None if r.random() < 0.5 else float(r.choice([0.0, 1.0, 3.5]))
    m, s = np.asarray(mean)[..., None], np.asarray(sigma)[..., None]
    want = np.broadcast_to(np.exp(-(((z - m) / s) ** 2) / 2), (*shape, z.size))
    conv = lambda a: b.asarray(a) if isinstance(a, np.ndarray) else a
    out = glass.gaussian_nz(b.asarray(z), conv(mean), conv(sigma), **({} if norm is None else {"norm": norm}))
    check(out, z, shape, want, norm, dict(z=z, mean=mean, sigma=sigma, norm=norm, backend=b.__name__))


def t_smail(r):
    b = backends_for(r)
    z = grid(r)
    shape = [(), (3,), (2, 3), (1,)][r.integers(4)]
    zm, al, be = par(r, shape, 0.3, 2.0), par(r, shape, 0.5, 3.0), par(r, shape, 0.5, 2.5)
    norm = None if r.random() < 0.5 else float(r.choice([1.0, 3.5]))
    e = lambda a: np.asarray(a)[..., None]
    want = z ** e(al) * np.exp(-e(al) / e(be) * (z / e(zm)) ** e(be))
    conv = lambda a: b.asarray(a) if isinstance(a, np.ndarray) else a
    out = glass.smail_nz(b.asarray(z), conv(zm), conv(al), conv(be), **({} if norm is None else {"norm": norm}))
    check(out, z, shape, want, norm, dict(z=z, z_mode=zm, alpha=al, beta=be, norm=norm, backend=b.__name__))


def t_fixed(r):
    b = backends_for(r)
    a = float(r.choice([0.0, 0.1, 0.5])) if r.random() < 0.6 else float(r.uniform(0, 2))
    w = float(r.uniform(0.05, 3))
    kw = {} if r.random() < 0.3 else {"xp": b}
    if r.random() < 0.5:
        n = int(r.integers(1, 20))
        q = glass.fixed_zbins(a, a + w, nbins=n, **kw)
        info = dict(zmin=a, zmax=a + w, nbins=n)
        expect(len(q) == n, "number of bins", got=len(q), **info)
        d = w / n
        expect_close(float(q[-1][1]), a + w, "last edge", rtol=1e-12, **info)
    else:
        d = float(r.uniform(0.02, 1.5)) * w
        if r.random() < 0.4:
            d = w / int(r.integers(1, 12))
        info = dict(zmin=a, zmax=a + w, dz=d)
        q = glass.fixed_zbins(a, a + w, dz=d, **kw)
        expect(len(q) >= 1, "no bins", **info)
        # one step more or less is rounding when the width is a multiple of the step
        expect(float(q[-1][1]) >= a + w - 1e-9 * d, "bins do not reach zmax", got=float(q[-1][1]), **info)
        expect(float(q[-1][1]) < a + w + d * (1 + 1e-9), "bins beyond zmax", got=float(q[-1][1]), **info)
    lo, hi = np.array([float(t[0]) for t in q]), np.array([float(t[1]) for t in q])
    expect(lo[0] == a, "first edge", got=lo[0], **info)
    expect((lo[1:] == hi[:-1]).all(), "bins are not contiguous", lo=lo, hi=hi, **info)
    expect_close(hi - lo, np.full(len(q), d), "width of the bins", rtol=1e-7, **info)


def t_fixed_arguments(r):
    expect_raises(ValueError, lambda: glass.fixed_zbins(0.0, 1.0), "neither nbins nor dz accepted")
    expect_raises(ValueError, lambda: glass.fixed_zbins(0.0, 1.0, nbins=int(r.integers(0, 4)), dz=float(r.choice([0.0, 0.1]))), "both nbins and dz accepted")


def t_equal(r):
    b = backend(["numpy", "jax", "strict"][r.integers(3)])
    z = grid(r)
    nz = r.uniform(0.1, 2, z.size)
    if r.random() < 0.5:
        nz = np.exp(-((z - z.mean()) ** 2)) + 1e-3
    nb = int(r.integers(1, 9))
    info = dict(z=z, nz=nz, nbins=nb, backend=b.__name__)
    q = glass.equal_dens_zbins(b.asarray(z), b.asarray(nz), nb)
    expect(len(q) == nb, "number of bins", got=len(q), **info)
    lo, hi = np.array([float(t[0]) for t in q]), np.array([float(t[1]) for t in q])
    expect_close(lo[0], z[0], "first edge", rtol=1e-12, **info)
    expect_close(hi[-1], z[-1], "last edge", rtol=1e-9, **info)
    expect((lo[1:] == hi[:-1]).all(), "bins are not contiguous", lo=lo, hi=hi, **info)
    cum = np.concatenate([[0], np.cumsum((nz[1:] + nz[:-1]) / 2 * np.diff(z))])
    expect_close(np.interp(lo, z, cum / cum[-1]), np.arange(nb) / nb, "cumulative fraction of the edges", rtol=1e-9, atol=1e-9, **info)


def t_tomo(r):
    b = backend(["numpy", "jax"][r.integers(2)])
    z = grid(r)
    nz = r.uniform(0, 2, z.size)
    s0 = float(r.uniform(0.01, 0.5))
    n = int(r.integers(1, 6))
    edges = np.cumsum(r.uniform(0.1, 1, n + 1)) - 0.1
    bins = [(float(x), float(y)) for x, y in zip(edges, edges[1:])]
    if r.random() < 0.4:
        bins = [bins[int(i)] for i in r.integers(0, n, size=int(r.integers(1, 5)))]
    info = dict(z=z, nz=nz, sigma_0=s0, bins=bins, backend=b.__name__)
    out = np.asarray(glass.tomo_nz_gausserr(b.asarray(z), b.asarray(nz), s0, bins))
    expect(out.shape == (len(bins), z.size), "shape", got=out.shape, **info)
    E = np.vectorize(math.erf)
    sz = math.sqrt(2) * s0 * (1 + z)
    want = np.array([(E((z - x) / sz) - E((z - y) / sz)) / (1 + E(z / sz)) * nz for x, y in bins])
    expect_close(out, want, "tomographic distribution", rtol=1e-6 if b.__name__ != "numpy" else 1e-9, atol=1e-9, **info)
