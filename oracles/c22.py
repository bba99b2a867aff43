"""C22: multi-plane convergence on the real code."""
import numpy as np
from common import backend, expect, expect_close, expect_raises
from cosmo import Cosmo

import glass
from glass.lensing import MultiPlaneConvergence


def universe(r):
    return Cosmo(float(r.uniform(0.1, 0.9)), float(r.choice([0.0, 0.0, 0.2, -0.15])))


def redshifts(r, n):
    return np.cumsum(r.uniform(0.05, 0.8, n)) if r.random() < 0.8 else np.cumsum(r.uniform(1e-4, 2.5, n))


def coefficient(c, zj, wj, zs):
    d = lambda *a: c.transverse_comoving_distance(*a) / c.hubble_distance
    return 1.5 * c.Omega_m0 * d(zj) * d(zj, zs) / d(zs) * (1 + zj) / c.H_over_H0(zj) * wj


def line_of_sight(c, planes, zs):
    tot = 0.0
    for zj, wj, dj in planes:
        tot = tot + coefficient(c, zj, wj, zs) * dj
    return tot


def t_planes(r):
    b = backend(["numpy", "jax"][r.integers(2)])
    c = universe(r)
    n = int(r.integers(1, 9))
    zs = redshifts(r, n)
    shape = [(7,), (12,), (2, 3)][r.integers(3)]
    mpc = MultiPlaneConvergence(c)
    planes = []
    info = dict(om=c.Omega_m0, ok=c.ok, redshifts=zs, backend=b.__name__)
    for k, z in enumerate(zs):
        w = float(r.uniform(0.01, 2.0)) if r.random() < 0.8 else 1.0
        delta = r.normal(size=shape)
        if r.random() < 0.3:
            bad = 0.0 if k == 0 else float(planes[-1][0]) * float(r.choice([1.0, 0.5]))
            expect_raises(ValueError, lambda: mpc.add_plane(b.asarray(r.normal(size=shape)), bad, w), "plane that does not increase accepted", z=bad, plane=k, **info)
        args = (b.asarray(delta), float(z))
        mpc.add_plane(*args, w) if w != 1.0 or r.random() < 0.5 else mpc.add_plane(*args)
        want = line_of_sight(c, planes, z)
        got = np.asarray(mpc.kappa)
        expect(got.shape == shape, "shape of the convergence", got=got.shape, plane=k, **info)
        scale = max([1e-3, *[abs(coefficient(c, a, bw, z)) for a, bw, _ in planes]])
        expect_close(got, np.zeros(shape) + want, "convergence", rtol=1e-6, atol=1e-7 * scale, plane=k, weights=[p[1] for p in planes], **info)
        expect(float(mpc.zsrc) == float(z) and np.array_equal(np.asarray(mpc.delta), delta) and float(mpc.wlens) == w, "properties", plane=k, **info)
        planes.append((z, w, delta))


def shells(r, b, n):
    nodes = np.concatenate([[0.0 if r.random() < 0.5 else 0.1], np.zeros(n + 1)])
    nodes[1:] = nodes[0] + np.cumsum(r.uniform(0.05, 0.5, n + 1))
    k = r.integers(3)
    w = None if r.random() < 0.5 else (lambda z: 1 / (1 + z) ** 2)
    f = (glass.tophat_windows, glass.linear_windows, glass.cubic_windows)[k]
    return list(f(b.asarray(nodes), dz=float(r.choice([0.01, 0.03])), weight=w))[:n]


def weight_of(w):
    za, wa = np.asarray(w.za), np.asarray(w.wa)
    return np.trapezoid(wa, za) / np.interp(float(w.zeff), za, wa)


def t_windows(r):
    b = backend(["numpy", "jax"][r.integers(2)])
    c = universe(r)
    ws = shells(r, b, int(r.integers(1, 7)))
    n = len(ws)
    info = dict(om=c.Omega_m0, ok=c.ok, shells=[(float(w.zeff), np.asarray(w.za)[[0, -1]]) for w in ws], backend=b.__name__)
    mpc = MultiPlaneConvergence(c)
    planes = []
    for k, w in enumerate(ws):
        delta = r.normal(size=5)
        mpc.add_window(b.asarray(delta), w)
        z = float(w.zeff)
        expect_close(np.asarray(mpc.kappa), np.zeros(5) + line_of_sight(c, planes, z), "convergence of windows", rtol=1e-6, atol=1e-8, window=k, **info)
        expect_close(float(mpc.wlens), weight_of(w), "lensing weight", rtol=1e-9, window=k, **info)
        expect(float(mpc.zsrc) == z, "source redshift", window=k, **info)
        planes.append((z, weight_of(w), delta))
    mat = np.array([[coefficient(c, planes[j][0], planes[j][1], planes[i][0]) if j < i else 0.0 for j in range(n)] for i in range(n)])
    got = np.asarray(glass.multi_plane_matrix(ws, c))
    expect_close(got, mat, "lensing matrix", rtol=1e-6, atol=1e-8, **info)
    x = r.uniform(0.1, 1, size=(n, *[(), (3,)][r.integers(2)]))
    want = mat.T @ (x / x.sum(axis=0))
    expect_close(np.asarray(glass.multi_plane_weights(b.asarray(x), ws, c)), want, "lensing weights", rtol=1e-6, atol=1e-8, weights=x, **info)
    expect_raises(ValueError, lambda: glass.multi_plane_weights(b.asarray(np.ones(n + 1)), ws, c), "weights of a wrong shape accepted", **info)
