"""C02: HEALPix order, on the real code."""
import numpy as np
from common import backend, backends, expect, expect_close, expect_raises

import glass
import glass.harmonics
from glass.fields import _glass_to_healpix_alm


def t_spectra(r):
    n = int(r.integers(0, 12))
    # entries are arbitrary objects
    named = {(i, j): ("cl", i, j) for i in range(n) for j in range(i + 1)}
    std = [named[i, j] for i in range(n) for j in range(i, -1, -1)]
    hpx = [named[i + k, i] for k in range(n) for i in range(n - k)]
    expect(list(glass.glass_to_healpix_spectra(std)) == hpx, "diagonal order", nfields=n)
    expect(list(glass.healpix_to_glass_spectra(hpx)) == std, "standard order", nfields=n)
    expect(list(glass.healpix_to_glass_spectra(glass.glass_to_healpix_spectra(std))) == std, "round trip", nfields=n)
    expect(list(glass.glass_to_healpix_spectra(glass.healpix_to_glass_spectra(hpx))) == hpx, "round trip", nfields=n)
    c = int(r.integers(1, 100))
    if int((8 * c + 1) ** 0.5 + 0.5) ** 2 != 8 * c + 1:
        for f in (glass.glass_to_healpix_spectra, glass.healpix_to_glass_spectra):
            expect_raises(ValueError, lambda: f([np.zeros(1)] * c), "count that is not triangular", count=c)


def t_alm(r):
    b = backend(backends()[r.integers(3)])
    n = int(r.integers(1, 20))
    t = n * (n + 1) // 2
    a = r.normal(size=t) + 1j * r.normal(size=t)
    got = np.asarray(_glass_to_healpix_alm(b.asarray(a)))
    want = np.asarray([a[l * (l + 1) // 2 + m] for m in range(n) for l in range(m, n)])
    expect(got.shape == want.shape, "number of coefficients", modes=n)
    expect_close(got, want, "order of coefficients", rtol=0, modes=n, backend=b.__name__)
    bl = r.normal(size=n)
    got = np.asarray(glass.harmonics.multalm(b.asarray(a), b.asarray(bl)))
    want = np.asarray([a[l * (l + 1) // 2 + m] * bl[l] for l in range(n) for m in range(l + 1)])
    expect_close(got, want, "scaled coefficients", rtol=1e-13, modes=n, backend=b.__name__)
