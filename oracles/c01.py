"""C01: one standard order for two-point data, on the real code."""
import numpy as np
from common import backend, backends, expect, expect_close, expect_raises

import glass


def spectra(r, n, b, lens=None):
    out = []
    for i in range(n):
        for j in range(i, -1, -1):
            m = int(r.integers(0, 9)) if lens is None else lens
            out.append((i, j, b.asarray(r.normal(size=m))))
    return out


def t_getcl(r):
    b = backend(backends()[r.integers(3)])
    n = int(r.integers(1, 9))
    sp = spectra(r, n, b)
    cls = [c for _, _, c in sp]
    for p, (i, j, cl) in enumerate(sp):
        for a in ((i, j), (j, i)):
            info = dict(pair=a, nfields=n, lengths=[c.shape[0] for c in cls], backend=b.__name__)
            got = glass.getcl(cls, *a)
            expect(got.shape == cl.shape, "length of the entry", **info)
            expect_close(got, np.asarray(cl), "entry of the pair", rtol=0, **info)
            for lmax in (0, 1, int(r.integers(0, 12))):
                got = np.asarray(glass.getcl(cls, *a, lmax=lmax))
                want = np.zeros(lmax + 1)
                m = min(lmax + 1, cl.shape[0])
                want[:m] = np.asarray(cl)[:m]
                expect(got.shape == (lmax + 1,), "length for lmax", lmax=lmax, **info)
                expect_close(got, want, "cut or padded entry", rtol=0, lmax=lmax, **info)
    got = list(glass.enumerate_spectra(cls))
    expect(len(got) == len(cls), "number of enumerated entries", nfields=n)
    for p, (g, w) in enumerate(zip(got, sp)):
        expect((int(g[0]), int(g[1])) == w[:2], "enumerated pair", position=p, nfields=n, got=g[:2])
        expect_close(g[2], np.asarray(w[2]), "enumerated entry", rtol=0, position=p)


def t_indices(r):
    n = int(r.integers(0, 60))
    want = [[i, j] for i in range(n) for j in range(i, -1, -1)]
    for name in backends():
        b = backend(name)
        try:
            got = np.asarray(glass.spectra_indices(n, xp=b))
        except TypeError:
            got = np.asarray(glass.spectra_indices(n))
        expect(got.shape == (len(want), 2), "shape of the table of indices", nfields=n, shape=got.shape)
        expect(np.array_equal(got, np.asarray(want).reshape(-1, 2)), "table of indices", nfields=n)


def t_nfields(r):
    top = int(r.integers(1, 2000))
    tri = {n * (n + 1) // 2: n for n in range(70)}
    for c in {*range(0, 60), top, *(t + d for t in tri for d in (-1, 0, 1) if t + d >= 0)}:
        if c in tri:
            expect(glass.nfields_from_nspectra(c) == tri[c], "number of fields", nspectra=c)
        elif c < 70 * 71 // 2:
            expect_raises(ValueError, lambda: glass.nfields_from_nspectra(c), "count that is not triangular", nspectra=c)
    for n in (int(r.integers(10 ** 3, 10 ** 7)),):
        t = n * (n + 1) // 2
        expect(glass.nfields_from_nspectra(t) == n, "number of fields", nspectra=t)
        for c in (t - 1, t + 1):
            expect_raises(ValueError, lambda: glass.nfields_from_nspectra(c), "count that is not triangular", nspectra=c)
