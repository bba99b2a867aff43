"""C05: field generation on the real code."""
import healpy
import numpy as np
import transformcl
from common import Rng, backend, expect, expect_close, expect_raises

import glass
import glass.fields as gf
import glass.harmonics


def spectra(r, n, full=False):
    """positive definite: a random covariance scaled with l"""
    L = int(r.integers(3, 9))
    cov = []
    for l in range(L):
        a = r.normal(size=(n, n + 1))
        cov.append(a @ a.T / (n + 1) + (0.1 if full else 2.5 * n) * np.eye(n))
    cov = np.asarray(cov)
    return [cov[:, i, j].copy() for i in range(n) for j in range(i, -1, -1)], L


def glass_lm(n):
    return [(l, m) for l in range(n) for m in range(l + 1)]


def expected(gls, n, L, ncorr, z):
    """Gaussian coefficients in HEALPix order from the draws z"""
    C = (n - 1 if ncorr is None else ncorr)
    ws = list(gf.iternorm(gf.cls2cov(gls, L, n, C)))
    lm = glass_lm(L)
    out = []
    for k in range(n):
        tot = np.zeros(len(lm), dtype=complex)
        for d in range(0, min(k, C) + 1):
            w = np.asarray(ws[k])[:, C - d]
            tot += z[k - d] * np.asarray([w[l] for l, m in lm])
        alm = np.zeros(len(lm), dtype=complex)
        for p, (l, m) in enumerate(lm):
            alm[healpy.Alm.getidx(L - 1, l, m)] = tot[p].real + tot[p].imag if m == 0 else tot[p]
        out.append(alm)
    return out


def t_sampling(r):
    n = int(r.integers(1, 7))
    ncorr = [None, 0, 1, 2, n + 1][r.integers(5)]
    gls, L = spectra(r, n, full=ncorr is None or ncorr >= n)
    nside = int(r.choice([1, 2]))
    rng = Rng(r)
    lam = float(r.uniform(0.5, 2))
    kinds = [glass.grf.Normal(), glass.grf.Lognormal(lam), glass.grf.SquaredNormal(1.0, lam)]
    fields = [kinds[r.integers(3)] for _ in range(n)]
    maps = list(glass.generate(fields, gls, nside, ncorr=ncorr, rng=rng))
    info = dict(fields=[str(f) for f in fields], gls=gls, nside=nside, ncorr=ncorr)
    expect(len(maps) == n, "one map per field", got=len(maps), **info)
    ds = rng.of("standard_normal")
    if len(ds) != n or len(rng.calls) != n or any(d[3].shape != (L * (L + 1) // 2, 2) for d in ds):
        expect(all(np.asarray(m).shape == (12 * nside ** 2,) and np.isfinite(m).all() for m in maps), "maps", **info)
        return
    z = [d[3][:, 0] + 1j * d[3][:, 1] for d in ds]
    alms = expected(gls, n, L, ncorr, z)
    for i in range(n):
        x = healpy.alm2map(alms[i].copy(), nside, pol=False)
        var = transformcl.cltovar(gls[i * (i + 1) // 2])
        want = fields[i](x, var)
        expect_close(np.asarray(maps[i]), np.asarray(want), f"map {i}", rtol=1e-7, atol=1e-8, **info)


def t_ragged(r):
    n = int(r.integers(1, 5))
    gls, L = spectra(r, n)
    # white auto-spectra, cross-spectra shorter or missing
    gls = [np.full(L, 1.0) * r.uniform(0.5, 2, L) if k in [i * (i + 1) // 2 for i in range(n)] else 0.1 * r.uniform(-1, 1, int(r.integers(0, L + 1))) for k in range(len(gls))]
    rng = Rng(r)
    maps = list(glass.generate([glass.grf.Normal()] * n, gls, 1, rng=rng))
    ds = rng.of("standard_normal")
    expect(len(maps) == n, "one map per field", got=len(maps), gls=gls)
    if len(ds) != n or any(d[3].shape != (L * (L + 1) // 2, 2) for d in ds):
        return
    z = [d[3][:, 0] + 1j * d[3][:, 1] for d in ds]
    for i, alm in enumerate(expected(gls, n, L, None, z)):
        expect_close(np.asarray(maps[i]), healpy.alm2map(alm, 1, pol=False), f"map {i}", rtol=1e-7, atol=1e-8, gls=gls)


def t_mismatch(r):
    n = int(r.integers(1, 5))
    gls, L = spectra(r, n)
    bad = gls + [gls[0]] if r.random() < 0.5 else gls[:-1]
    fields = [glass.grf.Normal()] * n
    expect_raises(ValueError, lambda: list(glass.generate(fields, bad, 1)), "mismatch accepted", n=n, nspectra=len(bad))
    more = [glass.grf.Normal()] * (n + 1)
    expect_raises(ValueError, lambda: list(glass.generate(more, gls, 1)), "mismatch accepted", n=n + 1, nspectra=len(gls))
    expect_raises(ValueError, lambda: list(glass.generate(fields, [np.empty(0)] * len(gls), 1)), "empty spectra accepted", n=n)


def t_strict(r):
    b = backend("strict")
    n = int(r.integers(1, 4))
    gls, L = spectra(r, n)
    s = int(r.integers(1000))
    one = [np.asarray(m) for m in glass.generate([glass.grf.Normal()] * n, [b.asarray(g) for g in gls], 1, rng=np.random.default_rng(s))]
    two = [np.asarray(m) for m in glass.generate([glass.grf.Normal()] * n, gls, 1, rng=np.random.default_rng(s))]
    expect_close(np.asarray(one), np.asarray(two), "backends disagree", gls=gls, rtol=1e-9)
