"""C07: the Gaussian spectrum solver on the real code."""
import warnings

import numpy as np
from common import backend, expect, expect_close, expect_raises
from transformcl import cltocorr, corrtocl

import glass
import glass.grf as G


def relerr(dx, x):
    with np.errstate(all="ignore"):
        q = np.where(dx != 0, dx / x, 0)
    return np.abs(q).max()


def transformation(r):
    k = r.integers(3)
    if k == 0:
        return G.Normal()
    if k == 1:
        return G.Lognormal(float(r.choice([0.5, 1.0, 2.0])))
    return G.SquaredNormal(float(r.uniform(1, 2)), float(r.uniform(0.5, 2)))


def target(r, n):
    ell = np.arange(n)
    return r.uniform(1e-6, 2e-3) * (1 + ell) ** (-r.uniform(1.2, 3)) * np.exp(-ell / n * r.uniform(0, 2))


def pair(r):
    while True:
        t1 = transformation(r)
        t2 = type(t1)(*[getattr(t1, f) for f in t1.__dataclass_fields__]) if r.random() < 0.5 else transformation(r)
        if r.random() < 0.3:
            return t1, None
        try:
            G.corr(t1, t2, np.zeros(2))
            G.icorr(t1, t2, np.zeros(2))
            G.dcorr(t1, t2, np.zeros(2))
        except NotImplementedError:
            continue
        return t1, t2


def case(r):
    n = int(r.choice([1, 2, 3, 5, 20, 60]))
    cl = target(r, n)
    kw = dict(pad=int(r.choice([0, 1, n, 2 * n])), maxiter=int(r.choice([0, 1, 2, 5, 20])),
              cltol=float(r.choice([1e-12, 1e-5, 1e-2, 1.0])), gltol=float(r.choice([1e-14, 1e-5, 1e-2, 1.0])))
    if r.random() < 0.4:
        kw["monopole"] = float(r.choice([0.0, cl[0], cl[0] * 1.5]))
        if r.random() < 0.5:
            cl[0] = 0
    if r.random() < 0.4:
        m = int(r.integers(0, n + 3))
        kw["initial"] = target(r, max(m, 1))[:m]
    return n, cl, *pair(r), kw


def run(b, cl, t1, t2, kw):
    kw = dict(kw)
    if "initial" in kw:
        kw["initial"] = b.asarray(kw["initial"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gl, rl, info = G.solve(b.asarray(cl), t1, t2, **kw)
    return np.asarray(gl), np.asarray(rl), info


def t_solve(r):
    b = backend(["numpy", "numpy", "jax"][r.integers(3)])
    n, cl, t1, t2, kw = case(r)
    info_ = dict(cl=cl, t1=t1, t2=t2, backend=b.__name__, **kw)
    before = cl.copy()
    gl0, rl0, f0 = run(b, cl, t1, t2, {**kw, "maxiter": 0})
    expect(f0 == 0 and gl0.shape == (n,), "no iterations", flags=f0, **info_)
    if "initial" in kw:
        start = np.zeros(n)
        start[:len(kw["initial"][:n])] = kw["initial"][:n]
    else:
        start = corrtocl(G.icorr(t1, t2 or t1, cltocorr(cl)))
    if kw.get("monopole") is not None:
        start[0] = kw["monopole"]
    expect_close(gl0, start, "starting point", rtol=1e-12, atol=1e-300, **info_)
    m = kw.get("monopole")

    def err(rl):
        d = rl[:n] - cl
        if m is not None:
            d[0] = 0
        return relerr(d, cl)
    if not np.isfinite(err(rl0)):
        return
    gl, rl, flags = run(b, cl, t1, t2, kw)
    expect((cl == before).all(), "target was modified", **info_)
    expect(gl.shape == (n,) and rl.shape == (n + kw["pad"],), "lengths", gl=gl.shape, rl=rl.shape, **info_)
    full = corrtocl(G.corr(t1, t2 or t1, cltocorr(np.pad(gl, (0, kw["pad"])))))
    expect_close(rl, full, "realised spectrum", rtol=1e-9, atol=1e-13 * np.abs(full).max(), **info_)
    expect(err(rl) <= err(rl0) * (1 + 1e-12), "error grew", start=err(rl0), end=err(rl), **info_)
    expect(flags in (0, 1, 2, 3), "flags", flags=flags, **info_)
    if m is not None:
        expect(gl[0] == m, "monopole", gl=gl, **info_)
    if flags & 1:
        expect(err(rl) <= kw["cltol"] * (1 + 1e-12), "flag without convergence", error=err(rl), flags=flags, **info_)
    if flags & 2:
        prev = gl0
        for k in range(1, kw["maxiter"] + 1):
            cur, _, f = run(b, cl, t1, t2, {**kw, "maxiter": k})
            if f & 2:
                step = relerr(cur - prev, prev)
                expect(step <= kw["gltol"] * (1 + 1e-6) + 1e-15, "flag without a small step", step=step, flags=flags, **info_)
                break
            prev = cur
    if kw["maxiter"] > 0 and err(rl0) <= kw["cltol"]:
        expect(flags & 1, "converged but not flagged", flags=flags, **info_)
        expect_close(gl, gl0, "stops at once", rtol=1e-12, atol=1e-300, **info_)


def t_rejects(r):
    n, cl, t1, t2, kw = case(r)
    kw["pad"] = -int(r.integers(1, 5))
    expect_raises(ValueError, lambda: G.solve(cl, t1, t2, **kw), "negative padding", cl=cl, t1=t1, t2=t2, **kw)


def fields(r):
    n = int(r.integers(0, 4))
    kind = r.integers(3)
    if kind == 0:
        return [G.Normal() for _ in range(n)]
    if kind == 1:
        return [G.Lognormal(float(r.choice([0.5, 1.0, 2.0]))) for _ in range(n)]
    return [[G.Normal(), G.Lognormal(0.5)][r.integers(2)] for _ in range(n)]


def t_spectra(r):
    ts = fields(r)
    n = len(ts)
    N = n * (n + 1) // 2
    cls = []
    for _ in range(N):
        c = target(r, int(r.choice([1, 4, 12])))
        if r.random() < 0.3:
            c = c[:0]
        elif r.random() < 0.4:
            c[0] = 0
        cls.append(c)
    info = dict(fields=ts, spectra=cls)
    pairs = [(i, j) for i in range(n) for j in range(i, -1, -1)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = glass.solve_gaussian_spectra(ts, cls)
        expect(len(got) == N, "number of spectra", got=len(got), **info)
        for (i, j), c, g in zip(pairs, cls, got):
            expect(g.shape == c.shape, "length", pair=(i, j), got=g.shape, **info)
            if len(c):
                want, _, _ = G.solve(c, ts[i], ts[j], pad=2 * len(c), monopole=0.0 if c[0] == 0 else None)
                expect_close(g, want, "solution", rtol=1e-12, atol=1e-300, pair=(i, j), **info)
                if c[0] == 0:
                    expect(g[0] == 0, "monopole", pair=(i, j), got=g, **info)
        got = glass.compute_gaussian_spectra(ts, cls)
        expect(len(got) == N, "number of spectra", got=len(got), **info)
        for (i, j), c, g in zip(pairs, cls, got):
            expect(g.shape == c.shape, "length", pair=(i, j), got=g.shape, **info)
            if len(c):
                want = corrtocl(G.icorr(ts[i], ts[j], cltocorr(c)))
                expect_close(g, want, "inverse transform", rtol=1e-9, atol=1e-14 * np.abs(want).max(), pair=(i, j), **info)
    bad = cls + [target(r, 3)] if r.random() < 0.5 or not cls else cls[:-1]
    expect_raises(ValueError, lambda: glass.solve_gaussian_spectra(ts, bad), "mismatch", **info)
    expect_raises(ValueError, lambda: glass.compute_gaussian_spectra(ts, bad), "mismatch", **info)
