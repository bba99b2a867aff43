"""C11: distribution of redshifts over shells, on the real code."""
import numpy as np
from common import backend, backends, expect, expect_close

import glass


def shells(r, b):
    out = []
    for _ in range(int(r.integers(1, 6))):
        n = int(r.integers(2, 7))
        za = np.sort(r.choice(np.round(np.arange(0, 3, 0.125), 3), size=n, replace=False))
        wa = r.uniform(0.1, 2, n)
        wa[r.uniform(size=n) < 0.3] = 0.0
        out.append((za, wa))
    return out, [glass.RadialWindow(b.asarray(za), b.asarray(wa), b.asarray(za.mean())) for za, wa in out]


class Recorder(np.random.Generator):
    pvals = None

    def multinomial(self, n, pvals, size=None):
        self.pvals.append(np.array(pvals))
        return super().multinomial(n, pvals, size=size)


def weights(plain, z):
    return np.array([np.interp(z, za, wa, left=0, right=0) for za, wa in plain])


def shape(r, kind):
    if kind == 0:
        return [(), (0,), (1,), (5,), (2, 3), (3, 0), (1, 2, 4)][r.integers(7)]
    if kind == 1:
        return [(999,), (1000,), (1001,), (1999,), (2000,), (2001,), (3, 700), (1500, 2)][r.integers(8)]
    return (int(r.integers(1, 4000)),)


def t_support(r):
    b = backend(backends()[r.integers(3)])
    plain, ws = shells(r, b)
    sh = shape(r, int(r.integers(3)))
    z = r.uniform(-0.2, 3.2, sh)
    if r.integers(2):
        z = np.round(z * 8) / 8
    out = np.asarray(glass.distribute(b.asarray(z), ws, rng=None))
    info = dict(shells=plain, z=z if z.size < 20 else z.shape, backend=b.__name__)
    expect(out.shape == z.shape, "shape", got=out.shape, **info)
    expect(np.issubdtype(out.dtype, np.integer), "integer result", got=str(out.dtype), **info)
    w = weights(plain, z)
    none = w.sum(axis=0) == 0
    bad = none != (out == -1)
    expect(not bad.any(), "-1 exactly outside of all shells", at=np.argwhere(bad)[:3], got=out[bad][:3], z_there=z[bad][:3], **info)
    expect(((out >= -1) & (out < len(ws))).all(), "range", **info)
    got = np.take_along_axis(w, np.where(none, 0, out)[None], axis=0)[0]
    bad = ~none & (got <= 0)
    expect(not bad.any(), "window is zero at the redshift", at=np.argwhere(bad)[:3], got=out[bad][:3], z_there=z[bad][:3], **info)


def t_probabilities(r):
    b = backend("numpy")
    plain, ws = shells(r, b)
    z = r.uniform(-0.2, 3.2, shape(r, int(r.integers(3))))
    g = Recorder(np.random.PCG64(int(r.integers(1 << 30))))
    g.pvals = []
    glass.distribute(z, ws, rng=g)
    if not z.size or not g.pvals:
        return
    p = np.concatenate([q.reshape(-1, len(ws) + 1) for q in g.pvals])
    w = weights(plain, z.reshape(-1))
    tot = w.sum(axis=0)
    want = np.concatenate([(tot == 0)[None], w / np.where(tot == 0, 1, tot)]).T
    expect_close(p, want, "probabilities", rtol=1e-12, atol=1e-14, shells=plain, shape=z.shape)


def t_frequencies(r):
    b = backend("numpy")
    plain, ws = shells(r, b)
    z0 = float(r.uniform(0, 3))
    n = 20000
    out = glass.distribute(np.full(n, z0), ws, rng=np.random.default_rng(int(r.integers(1 << 30))))
    w = weights(plain, z0)
    if w.sum() == 0:
        expect((out == -1).all(), "outside", z=z0, shells=plain)
        return
    f = np.array([(out == j).mean() for j in range(len(ws))])
    p = w / w.sum()
    expect((abs(f - p) <= 6 * np.sqrt(p * (1 - p) / n) + 1e-12).all(), "frequencies", z=z0, shells=plain, got=f, want=p)
