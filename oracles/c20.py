"""C20: sampled shapes on the real code."""
import numpy as np
from common import Rng, backend, expect, expect_close, expect_raises

import glass


def t_ratio(r):
    b = backend(["numpy", "strict", "jax"][r.choice(3, p=[0.7, 0.25, 0.05])])
    shape = [(), (4,), (2, 3)][r.integers(3)]
    zeta = r.uniform(0.01, 1, shape)
    xi = zeta * r.uniform(0.01, 1, shape)
    if r.random() < 0.2:
        xi = r.uniform(0.01, 1.5, shape)
    size = None if r.random() < 0.5 else [(3, *shape), 5][0 if shape else 1]
    q = np.asarray(glass.triaxial_axis_ratio(b.asarray(zeta), b.asarray(xi), size=size, xp=b))
    want = shape if size is None else ((size,) if isinstance(size, int) else size)
    expect(q.shape == tuple(want), "shape", zeta=zeta, xi=xi, size=size, got=q.shape)
    expect(((q >= 0) & (q <= 1 + 1e-12)).all(), "axis ratio outside [0,1]", zeta=zeta, xi=xi, q=q)
    if b.__name__ == "numpy":
        # the projection of the ellipsoid along the drawn direction
        rng = Rng(r)
        q = np.asarray(glass.triaxial_axis_ratio(np.float64(zeta) if not shape else zeta, np.float64(xi) if not shape else xi, rng=rng, xp=np))
        us = [c for c in rng.calls if c[0] == "uniform"]
        if len(us) == 2:
            z, x = np.broadcast_arrays(zeta, xi)
            lo, hi = us[0][1]
            if (float(lo), float(hi)) == (-1.0, 1.0):
                ct = us[0][3]
                ph = us[1][3]
                st = np.sqrt(1 - ct ** 2)
                A = np.stack([st * np.cos(ph), st * np.sin(ph), ct], -1)
                out = np.empty(q.shape)
                for i in np.ndindex(q.shape):
                    S = np.diag([1.0, z[i] ** 2, x[i] ** 2])
                    n = A[i] / np.linalg.norm(A[i])
                    # the projected image has covariance P S P, ratio of its non-zero eigenvalues
                    P = np.eye(3) - np.outer(n, n)
                    ev = np.sort(np.linalg.eigvalsh(P @ S @ P))
                    out[i] = np.sqrt(ev[1] / ev[2])
                alt = np.empty(q.shape)
                for i in np.ndindex(q.shape):
                    S = np.diag([1.0, z[i] ** 2, x[i] ** 2])
                    n = np.array([A[i][1], -A[i][0], A[i][2]])
                    P = np.eye(3) - np.outer(n, n)
                    ev = np.sort(np.linalg.eigvalsh(P @ S @ P))
                    alt[i] = np.sqrt(ev[1] / ev[2])
                ok = np.isclose(q, out, rtol=1e-4, atol=1e-6) | np.isclose(q, alt, rtol=1e-4, atol=1e-6)
                expect(ok.all(), "not the projected axis ratio", zeta=zeta, xi=xi, got=q, expected=out)


def t_ryden(r):
    b = backend(["numpy", "strict"][r.integers(2)])
    n = int(r.integers(1, 30))
    shape, size = [((n,), None), ((), n), ((n,), (n,)), ((2, n), None), ((), (2, n))][r.integers(5)]
    mu, sg, ga, s2 = (np.asarray(x) for x in (r.uniform(-3, 1, shape), r.uniform(0.5, 1.5, shape), r.uniform(-0.3, 1.3, shape), r.uniform(0.2, 0.6, shape)))
    e = np.asarray(glass.ellipticity_ryden04(*(b.asarray(x) for x in (mu, sg, ga, s2)), size=size, xp=b))
    want = shape if size is None else ((size,) if isinstance(size, int) else size)
    info = dict(mu=mu, sigma=sg, gamma=ga, sigma_gamma=s2, size=size, backend=b.__name__)
    expect(e.shape == tuple(want), "shape", got=e.shape, **info)
    expect((np.abs(e) <= 1 + 1e-12).all(), "modulus above one", got=e, **info)


def t_ryden_own(r):
    """every galaxy has its own parameters, redraws included: narrow distributions tell them apart"""
    n = int(r.integers(2, 12))
    shape = (n,) if r.random() < 0.7 else (2, n)
    mu = r.choice([-6.0, -0.05], shape)
    sg = np.where(mu < -1, 1e-3, 0.06)
    ga = r.choice([0.02, 0.5, 0.98], shape)
    s2 = np.where(ga == 0.5, 1e-3, 0.03)
    rec = {}

    orig = glass.shapes.triaxial_axis_ratio

    def spy(zeta, xi, *a, **k):
        rec["zeta"], rec["xi"] = np.asarray(zeta), np.asarray(xi)
        return orig(zeta, xi, *a, **k)
    glass.shapes.triaxial_axis_ratio = spy
    try:
        glass.ellipticity_ryden04(mu, sg, ga, s2, rng=np.random.default_rng(int(r.integers(2 ** 31))))
    finally:
        glass.shapes.triaxial_axis_ratio = orig
    if not rec or rec["zeta"].shape != shape:
        return
    zeta, xi = rec["zeta"], rec["xi"]
    info = dict(mu=mu, sigma=sg, gamma=ga, sigma_gamma=s2, zeta=zeta, xi=xi)
    lo, hi = 1 - np.exp(np.minimum(mu + 8 * sg, 0)), 1 - np.exp(mu - 8 * sg)
    expect(((zeta >= lo - 1e-12) & (zeta <= hi + 1e-12)).all(), "axis ratio is not of the galaxy's own distribution", **info)
    with np.errstate(all="ignore"):
        g = 1 - xi / zeta
    ok = (g >= np.maximum(ga - 8 * s2, 0) - 1e-9) & (g <= np.minimum(ga + 8 * s2, 1) + 1e-9)
    expect((ok | (zeta < 1e-6)).all(), "second axis ratio is not of the galaxy's own distribution", gamma_drawn=g, **info)


def populations(r, hi):
    kind = r.integers(5)
    k = int(r.integers(1, 5))
    if kind == 0:
        return int(r.integers(0, 12)), float(r.uniform(0.01, hi))
    if kind == 1:
        return r.integers(0, 9, k), r.uniform(0.01, hi, k)
    if kind == 2:
        return int(r.integers(0, 6)), r.uniform(0.01, hi, k)
    if kind == 3:
        return r.integers(0, 9, k), float(r.uniform(0.01, hi))
    return r.integers(0, 5, (2, k)), r.uniform(0.01, hi, (k,))


def t_gaussian(r):
    b = backend(["numpy", "strict", "jax"][r.choice(3, p=[0.6, 0.35, 0.05])])
    count, sigma = populations(r, 1.0)
    e = np.asarray(glass.ellipticity_gaussian(b.asarray(count), b.asarray(sigma), xp=b))
    N = int(np.broadcast_arrays(count, sigma)[0].sum())
    expect(e.shape == (N,), "number of galaxies", count=count, sigma=sigma, got=e.shape)
    expect((np.abs(e) <= 1 + 1e-14).all(), "modulus above one", count=count, sigma=sigma, got=e)


def tagged(r):
    """noise of known tiny modulus: the value tells the population's parameter"""
    def std(g, size):
        return g.uniform(0.5, 1, size) * g.choice([-1, 1], size)
    return Rng(r, standard_normal=std)


def own(r, fn, width, hi):
    k = int(r.integers(1, 5))
    shape = (k,) if r.random() < 0.7 else (2, k)
    count = r.integers(0, 7, shape)
    sigma = hi * 4.0 ** -r.permutation(np.arange(count.size)).reshape(shape)
    e = np.asarray(fn(count, sigma, rng=tagged(r)))
    expect(e.shape == (count.sum(),), "number of galaxies", count=count, sigma=sigma, got=e.shape)
    at = 0
    for c, s in zip(count.ravel(), sigma.ravel()):
        part = e[at:at + c]
        at += c
        w = width(s)
        expect((np.abs(part) >= w * 0.5 * np.sqrt(2) * 0.98).all() and (np.abs(part) <= w * np.sqrt(2) * 1.02).all(),
               "population with another parameter or out of order", count=count, sigma=sigma, values=np.abs(e))


def t_gaussian_own(r):
    own(r, glass.ellipticity_gaussian, lambda s: s, 0.3)


def t_intnorm_own(r):
    own(r, glass.ellipticity_intnorm, lambda s: s * np.sqrt((8 + 5 * s * s) / (2 - 4 * s * s)) / 2, 0.05)


def t_gaussian_rejection(r):
    """rejected draws are replaced, the others kept; the sequence of draws is scripted"""
    n = int(r.integers(2, 7))
    s = float(r.uniform(0.3, 0.9))
    stage = {"n": 0}
    first = {}

    def std(g, size):
        stage["n"] += 1
        m = int(np.prod(size))
        x = g.choice([0.1, 0.2, 3.0, -4.0], m) if stage["n"] <= 6 else g.uniform(-0.3, 0.3, m)
        x = x + 1e-3 * g.random(m)
        if stage["n"] <= 2:
            first[stage["n"]] = x.copy()
        return x.reshape(size)
    e = np.asarray(glass.ellipticity_gaussian(n, s, rng=Rng(r, standard_normal=std), xp=np))
    expect(e.shape == (n,) and (np.abs(e) <= 1).all(), "modulus above one", sigma=s, got=e)
    if len(first) == 2 and first[1].size == n == first[2].size:
        z = s * (first[1] + 1j * first[2])
        ok = np.abs(z) <= 1
        expect_close(e[ok], z[ok], "an admissible draw was not kept", sigma=s, got=e, first=z)
        expect((np.abs(e[~ok, None] - z[None, ~ok]) > 1e-6).all(), "a rejected draw was kept", sigma=s, got=e, first=z)
    # later populations of several, with rejections in between
    count = r.integers(0, 5, 3)
    e = np.asarray(glass.ellipticity_gaussian(count, np.array([0.9, 0.01, 0.8]), rng=np.random.default_rng(int(r.integers(2 ** 31)))))
    expect(e.shape == (count.sum(),), "number of galaxies", count=count)
    mid = e[count[0]:count[0] + count[1]]
    expect((np.abs(mid) < 0.1).all() and (np.abs(e) <= 1).all(), "population with another parameter", count=count, got=e)


def t_intnorm(r):
    b = backend(["numpy", "strict", "jax"][r.choice(3, p=[0.6, 0.35, 0.05])])
    count, sigma = populations(r, 0.7)
    if r.random() < 0.2:
        sigma = np.asarray(sigma) * 0
    e = np.asarray(glass.ellipticity_intnorm(b.asarray(count), b.asarray(sigma), xp=b))
    N = int(np.broadcast_arrays(count, sigma)[0].sum())
    expect(e.shape == (N,), "number of galaxies", count=count, sigma=sigma, got=e.shape)
    expect((np.abs(e) < 1).all(), "modulus not below one", count=count, sigma=sigma, got=e)


def t_intnorm_rejects(r):
    bad = float(r.choice([-0.1, -1e-9, 0.5 ** 0.5, 0.75, 2.0]))
    for sigma in (bad, np.array([0.1, bad]), np.array([bad, 0.1, 0.2])):
        expect_raises(ValueError, lambda: glass.ellipticity_intnorm(3, sigma, xp=np), "inadmissible sigma", sigma=sigma)


def t_resample(r):
    b = backend(["numpy", "strict", "jax"][r.choice(3, p=[0.6, 0.35, 0.05])])
    shape = [(int(r.integers(1, 9)),), (2, 3)][r.integers(2)]
    eps = r.uniform(0.01, 0.9, shape) * np.exp(1j * r.uniform(0, 7, shape))
    if r.random() < 0.2:
        eps[(0,) * len(shape)] = 0
        eps = np.concatenate([eps.ravel(), [0.3 + 0.2j]])
    m = (np.abs(eps) ** 2).mean()
    rng = None
    A = b.asarray
    for kw in ({}, dict(vargamma=float(m * r.choice([0, 1e-3, 0.5, 0.99]))), dict(varg=float(m * r.choice([0, 1e-12, 1e-3, 0.3, 0.9])))):
        out = np.asarray(glass.resample_shapes(A(eps), rng=rng, **kw))
        info = dict(epsilon=eps, backend=b.__name__, **kw)
        expect(out.shape == eps.shape, "shape", got=out.shape, **info)
        if "varg" in kw:
            i = np.unravel_index(np.abs(eps).argmax(), eps.shape)
            f = np.abs(out[i]) / np.abs(eps[i])
            expect(np.isfinite(f) and 0 <= f <= 1 + 1e-9, "factor", factor=f, **info)
        elif kw:
            f = np.sqrt(1 - kw["vargamma"] / m)
        else:
            f = 1.0
        expect_close(np.abs(out), f * np.abs(eps), "modulus", rtol=1e-9, atol=1e-12, **info)
    for k in ("varg", "vargamma"):
        expect_raises(ValueError, lambda: glass.resample_shapes(A(eps), **{k: float(m * r.choice([1.001, 1.5, 20]))}), "too large variance", epsilon=eps, which=k)
    expect_raises(ValueError, lambda: glass.resample_shapes(A(eps), varg=0.01 * m, vargamma=0.01 * m), "both variances", epsilon=eps)
