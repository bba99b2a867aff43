"""C10: shell window functions on the real code."""
import warnings

import numpy as np
from common import backend, backends, expect, expect_close, expect_raises

import glass

warnings.simplefilter("ignore")


def nodes(r, least):
    n = int(r.integers(least, least + 6))
    z = np.unique(np.round(np.cumsum(r.uniform(0.02, 0.7, n)), 3))
    if r.random() < 0.5:
        z = z - z[0]
    if r.random() < 0.2:
        z = np.arange(n) * 0.5
    return z


def dz_of(r):
    return float(r.choice([0.001, 0.01, 0.1, 0.03, 0.25, 1.0, 5.0]))


def t_tophat(r):
    b = backend(backends()[r.integers(3)])
    zb = nodes(r, 2)
    if zb.size < 2:
        return
    wf = None if r.random() < 0.4 else (lambda z: 1 / (1 + z) + 0.1 * z**2)
    kw = {} if r.random() < 0.2 else {"dz": dz_of(r)}
    ws = glass.tophat_windows(b.asarray(zb), weight=wf, **kw)
    info = dict(zbins=zb, options=kw, weight=wf is not None, backend=b.__name__)
    expect(len(ws) == zb.size - 1, "number of windows", got=len(ws), **info)
    for p, w in enumerate(ws):
        za, wa = np.asarray(w.za), np.asarray(w.wa)
        expect(za[0] == zb[p] and za[-1] == zb[p + 1], "window does not span its bin", grid=za, window=p, **info)
        expect(za.shape == wa.shape and np.all(np.diff(za) > 0), "grid is not increasing", grid=za, window=p, **info)
        expect_close(wa, np.ones_like(za) if wf is None else wf(za), "window values", rtol=1e-12, window=p, **info)
        m = np.trapezoid(wa * za, za) / np.trapezoid(wa, za)
        expect_close(float(w.zeff), m, "effective redshift", rtol=1e-12, window=p, **info)
        expect(za[0] <= float(w.zeff) <= za[-1], "effective redshift outside the bin", window=p, **info)


def t_nodes(r):
    b = backend(backends()[r.integers(3)])
    zb = nodes(r, 3)
    if zb.size < 3:
        return
    cubic = bool(r.integers(2))
    wf = None if r.random() < 0.5 else (lambda z: 1 / (1 + z) + 0.1 * z**2)
    kw = {} if r.random() < 0.2 else {"dz": dz_of(r)}
    ws = (glass.cubic_windows if cubic else glass.linear_windows)(b.asarray(zb), weight=wf, **kw)
    info = dict(nodes=zb, options=kw, cubic=cubic, weight=wf is not None, backend=b.__name__)
    expect(len(ws) == zb.size - 2, "number of windows", got=len(ws), **info)
    shape = (lambda t: t * t * (3 - 2 * t)) if cubic else (lambda t: t)
    f = (lambda z: np.ones_like(z)) if wf is None else wf
    prev = None
    for p, w in enumerate(ws):
        a, m, c = zb[p:p + 3]
        za, wa = np.asarray(w.za), np.asarray(w.wa)
        expect(za[0] == a and za[-1] == c, "window does not span its nodes", grid=za, window=p, **info)
        expect(za.shape == wa.shape and np.all(np.diff(za) > 0), "grid is not increasing", grid=za, window=p, **info)
        expect(np.any(za == m), "middle node is not on the grid", grid=za, window=p, **info)
        expect(float(w.zeff) == m, "effective redshift", got=float(w.zeff), window=p, **info)
        t = np.where(za <= m, (za - a) / (m - a), (c - za) / (c - m))
        expect_close(wa, shape(t) * f(za), "window values", rtol=1e-9, atol=1e-12, window=p, **info)
        x = wa / f(za)
        expect(x.min() >= -1e-12 and x.max() <= 1 + 1e-12 and abs(wa[0]) < 1e-12 and abs(wa[-1]) < 1e-12, "range of the window", window=p, **info)
        expect_close(x[za == m], [1.0], "value at the middle node", window=p, **info)
        if prev is not None:
            zp, xp = prev
            g1, g2 = zp[zp >= a + (m - a) * 0], za[za <= m]
            g1, y1 = zp[zp >= a], xp[zp >= a]
            expect(g1.shape == g2.shape, "adjacent windows do not share grid points", window=p, **info)
            expect_close(g1, g2, "adjacent windows do not share grid points", window=p, **info)
            expect_close(y1 + x[za <= m], np.ones_like(g2), "adjacent windows do not add up to one", atol=1e-9, window=p, **info)
        prev = (za[za >= m], x[za >= m])


def t_rejects(r):
    for f, least in ((glass.tophat_windows, 2), (glass.linear_windows, 3), (glass.cubic_windows, 3)):
        for n in range(least):
            expect_raises(ValueError, lambda: f(np.linspace(0, 1, n)), "too few nodes", function=f.__name__, nodes=n)
        expect_raises(ValueError, lambda: f(np.linspace(0, 1, 4).reshape(2, 2)), "nodes of two dimensions", function=f.__name__)
        expect_raises(ValueError, lambda: f(np.linspace(0, 1, 8).reshape(4, 2)), "nodes of two dimensions", function=f.__name__)
        expect_raises(ValueError, lambda: f(np.asarray(1.0)), "scalar node", function=f.__name__)
