"""C21: lensing maps from convergence on the real code (data files of HEALPix are replaced by stand-ins)."""
import healpy
import numpy as np
from common import backend, expect, expect_close

import glass

REAL = healpy.map2alm


def window(nside, pol=False, lmax=None, datapath=None):
    n = (3 * nside - 1 if lmax is None else lmax) + 1
    l = np.arange(n)
    w = 1 / (1 + 0.01 * l / nside) + 0.001 * np.sin(l * nside)
    return (w, w * (1 - 0.3 * l / (l + 5))) if pol else w


def analysis(m, *a, use_pixel_weights=False, datapath=None, **k):
    return REAL(m, *a, iter=1, **k)


healpy.pixwin = window
healpy.map2alm = analysis


def setup(r):
    nside = int(2 ** r.integers(0, 5))
    kappa = r.normal(size=12 * nside**2)
    lmax = None if r.random() < 0.4 else int(r.integers(2, 3 * nside))
    L = 3 * nside - 1 if lmax is None else lmax
    return nside, kappa, lmax, L, analysis(kappa, lmax=L, pol=False)


def factors(nside, L, disc):
    l = np.arange(L + 1.0)
    q = np.maximum(l * (l + 1), 1)
    pot = np.where(l > 0, -2 / q, 0)
    dfl = np.where(l > 0, -2 / np.sqrt(q), 0)
    shr = np.where(l > 0, -np.sqrt(np.maximum((l - 1) * (l + 2), 0) / q), 0)
    if disc:
        w0, w2 = window(nside, pol=True, lmax=L)
        shr = shr * w2 / w0
    return pot, dfl, shr


def spin(alm, f, nside, s, L):
    a = healpy.almxfl(alm, f)
    return healpy.alm2map_spin([a, np.zeros_like(a)], nside, s, L)


def t_from_convergence(r):
    nside, kappa, lmax, L, alm = setup(r)
    b = backend(["numpy", "numpy", "jax", "strict"][r.integers(4)])
    which = [bool(x) for x in r.integers(0, 2, 3)]
    disc = bool(r.integers(2))
    pot, dfl, shr = factors(nside, L, disc)
    kw = {} if lmax is None else {"lmax": lmax}
    if not disc or r.random() < 0.5:
        kw["discretized"] = disc
    out = glass.from_convergence(b.asarray(kappa), potential=which[0], deflection=which[1], shear=which[2], **kw)
    info = dict(nside=nside, lmax=lmax, potential=which[0], deflection=which[1], shear=which[2], discretized=disc, backend=b.__name__)
    expect(isinstance(out, tuple) and len(out) == sum(which), "number of maps", got=len(out), **info)
    want = []
    if which[0]:
        want.append(("potential", healpy.alm2map(healpy.almxfl(alm, pot), nside, lmax=L)))
    for name, on, f, s in (("deflection", which[1], dfl, 1), ("shear", which[2], shr, 2)):
        if on:
            g = spin(alm, f, nside, s, L)
            want.append((name, g[0] + 1j * g[1]))
    for (name, w), g in zip(want, out):
        expect_close(np.asarray(g), w, name, rtol=1e-7, atol=1e-9, **info)


def t_older(r):
    nside, kappa, lmax, L, alm = setup(r)
    disc = bool(r.integers(2))
    shr = factors(nside, L, disc)[2]
    kw = {} if lmax is None else {"lmax": lmax}
    out = glass.shear_from_convergence(kappa, discretized=disc, **kw)
    g = spin(alm, shr, nside, 2, L)
    info = dict(nside=nside, lmax=lmax, discretized=disc)
    expect_close(np.asarray(out[0]), g[0], "first component", rtol=1e-7, atol=1e-9, **info)
    expect_close(np.asarray(out[1]), g[1], "second component", rtol=1e-7, atol=1e-9, **info)
