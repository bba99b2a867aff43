"""C09: discretised spectra on the real code (the pixel window data file is replaced by a stand-in)."""
import healpy
import numpy as np
from common import backend, backends, expect, expect_close, expect_raises

import glass


def window(nside, pol=False, lmax=None, datapath=None):
    n = (3 * nside - 1 if lmax is None else lmax) + 1
    l = np.arange(n)
    w = 1 / (1 + 0.01 * l / nside) + 0.001 * np.sin(l * nside)
    return (w, w ** 2) if pol else w


healpy.pixwin = window


def t_discretized(r):
    b = backend(backends()[r.integers(3)])
    n = int(r.integers(1, 8))
    cls, pairs = [], []
    for i in range(n):
        for j in range(i, -1, -1):
            m = int(r.choice([0, 1, 2, 5, 9, 20]))
            cls.append(r.normal(size=m))
            pairs.append((i, j))
    kw = {}
    if r.random() < 0.6:
        kw["lmax"] = int(r.integers(0, 15))
    if r.random() < 0.6:
        kw["nside"] = int(r.choice([1, 2, 4, 8]))
    if r.random() < 0.6:
        kw["ncorr"] = int(r.integers(0, n + 2))
    if "ncorr" not in kw and r.random() < 0.5:
        k = int(r.integers(0, len(cls) + 1))
        cls, pairs = cls[:k], pairs[:k]
    A = [b.asarray(c) for c in cls]
    info = dict(lengths=[c.size for c in cls], options=kw, backend=b.__name__)
    out = glass.discretized_cls(A, **kw)
    expect(len(out) == len(cls), "number of spectra", got=len(out), **info)
    for p, (i, j) in enumerate(pairs):
        want = cls[p]
        if "ncorr" in kw and i - j > kw["ncorr"]:
            want = want[:0]
        if "lmax" in kw:
            want = want[: kw["lmax"] + 1]
        if "nside" in kw:
            w = window(kw["nside"], lmax=kw.get("lmax"))
            m = min(w.size, want.size)
            want = want[:m] * w[:m] ** 2
        got = np.asarray(out[p])
        expect(got.shape == want.shape, "length of a spectrum", pair=(i, j), got=got.shape, want=want.shape, **info)
        expect_close(got, want, "discretised spectrum", rtol=1e-12, pair=(i, j), **info)


def t_rejects(r):
    t = {n * (n + 1) // 2 for n in range(60)}
    c = int(r.integers(1, 120))
    cls = [np.ones(2)] * c
    if c in t:
        expect(len(glass.discretized_cls(cls, ncorr=1)) == c, "number of spectra", count=c)
    else:
        expect_raises(ValueError, lambda: glass.discretized_cls(cls, ncorr=1), "count that is not triangular", count=c)
    expect(glass.discretized_cls([], lmax=3, nside=2, ncorr=1) == [], "empty list")
