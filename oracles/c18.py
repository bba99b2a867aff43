"""C18: galaxy shear on the real code."""
import healpix
import numpy as np
from common import backend, backends, expect, expect_close

import glass


def cat(r, n):
    lon = r.uniform(-180, 360, n)
    lat = np.degrees(np.arcsin(r.uniform(-1, 1, n)))
    eps = np.sqrt(r.uniform(0, 1, n)) * np.exp(1j * r.uniform(0, 2 * np.pi, n))
    return lon, lat, eps


def run(r, n, b, weak):
    ns = int(r.choice([1, 2, 4, 8]))
    npix = 12 * ns * ns
    lon, lat, eps = cat(r, n)
    ka = r.uniform(-0.5, 0.5, npix) if weak else r.normal(0, 2, npix)
    s = 0.25 if weak else 2.0
    g1, g2 = r.uniform(-s, s, npix), r.uniform(-s, s, npix)
    pix = healpix.ang2pix(ns, lon, lat, lonlat=True)
    info = dict(n=n, nside=ns, backend=b.__name__, weak=weak)
    A = b.asarray
    for red in (None, True, False):
        kw = {} if red is None else dict(reduced_shear=red)
        got = np.asarray(glass.galaxy_shear(A(lon), A(lat), A(eps), A(ka), A(g1), A(g2), **kw))
        g = g1[pix] + 1j * g2[pix]
        if red is False:
            want = eps + g
        else:
            g = g / (1 - ka[pix])
            want = (eps + g) / (1 + np.conj(g) * eps)
        expect(got.shape == (n,), "shape", reduced=red, **info)
        expect_close(got, want, "observed shear", rtol=1e-9, atol=1e-12, reduced=red, **info)
        if weak and red is not False:
            ok = (np.abs(g) < 1)
            expect(np.all(np.abs(got[ok]) <= 1 + 1e-9), "observed shear leaves the unit disk", **info)


def t_small(r):
    run(r, int(r.integers(1, 60)), backend(backends()[r.integers(3)]), bool(r.random() < 0.5))


def t_numpy(r):
    run(r, int(r.integers(1, 400)), backend("numpy"), bool(r.random() < 0.5))


def t_large(r):
    for n in (9999, 10000, 10001, 20000, 20001, int(r.integers(20002, 45000))):
        run(r, n, backend("numpy"), True)


t_large.maxrounds = 2
