"""C12: restriction, combination, partition on the real code."""
import numpy as np
from common import backend, backends, expect, expect_close, expect_raises
from scipy.optimize import nnls as scipy_nnls

import glass
import glass.shells


def grid(r, lo=0.0, n=None):
    n = n or int(r.integers(3, 30))
    return lo + np.unique(np.round(np.cumsum(r.uniform(0.01, 0.3, n)), 3))


def windows(r, b, count=None):
    count = count or int(r.integers(1, 6))
    kind = r.integers(3)
    if kind < 2:
        nodes = grid(r, 0.0, count + 2)
        while nodes.size < count + 2:
            nodes = grid(r, 0.0, count + 2)
        f = glass.tophat_windows if kind == 0 else glass.linear_windows
        ws = f(b.asarray(nodes), dz=float(r.choice([0.01, 0.05, 0.1])))
        return list(ws)[:count]
    out = []
    for _ in range(count):
        za = grid(r, float(r.uniform(0, 2)), int(r.integers(2, 9)))
        while za.size < 2:
            za = grid(r, 0.0, 9)
        wa = r.uniform(0.1, 1, za.size)
        out.append(glass.RadialWindow(b.asarray(za), b.asarray(wa), b.asarray(za.mean())))
    return out


def plain(ws):
    return [(np.asarray(w.za), np.asarray(w.wa)) for w in ws]


def lead(r):
    return [(), (1,), (3,), (2, 3), (2, 1, 2)][r.integers(5)]


def t_restrict(r):
    b = backend(backends()[r.integers(3)])
    z = grid(r, float(r.choice([0.0, 0.5, 2.0])))
    f = r.normal(size=(*lead(r), z.size))
    w = windows(r, b, 1)[0]
    (za, wa), = plain([w])
    zr, fr = (np.asarray(a) for a in glass.restrict(b.asarray(z), b.asarray(f), w))
    info = dict(z=z, f=f, za=za, wa=wa, backend=b.__name__)
    want = np.union1d(za, z[(z > za[0]) & (z < za[-1])])
    expect(zr.shape == want.shape and np.array_equal(zr, want), "grid of the restriction", got=zr, **info)
    expect(fr.shape == (*f.shape[:-1], zr.size), "shape of the restriction", got=fr.shape, **info)
    for i in np.ndindex(f.shape[:-1]):
        expect_close(fr[i], np.interp(want, z, f[i], left=0, right=0) * np.interp(want, za, wa), "restriction", rtol=1e-9, atol=1e-12, **info)
    expect_raises(ValueError, lambda: glass.restrict(b.asarray(z[None, :]), b.asarray(f), w), "2d z accepted")


def t_combine(r):
    b = backend(backends()[r.integers(3)])
    ws = windows(r, b)
    z = grid(r, float(r.choice([0.0, 0.2])))
    extra = () if b.__name__ == "array_api_strict" else lead(r)[:1]     # iterating over N-d arrays is not possible there
    x = r.normal(size=(len(ws), *extra))
    got = np.asarray(glass.combine(b.asarray(z), b.asarray(x), ws))
    want = sum(x[s][..., None] * np.interp(z, za, wa / np.trapezoid(wa, za), left=0, right=0) for s, (za, wa) in enumerate(plain(ws)))
    expect_close(got, want, "combination", rtol=1e-9, atol=1e-12, z=z, x=x, shells=plain(ws), backend=b.__name__)


def system(z, f, ws, tol):
    zp = z
    for za, wa in ws:
        zp = np.union1d(zp, za)
    dz = np.gradient(zp)
    a = np.stack([np.interp(zp, za, wa, left=0, right=0) for za, wa in ws])
    a = a / np.trapezoid(a, zp)[:, None] * dz
    m = 1 / max(tol, 1e-4)
    A = np.concatenate([a, m * np.ones((len(ws), 1))], axis=1).T
    rhs = lambda y: np.concatenate([np.interp(zp, z, y, left=0, right=0) * dz, [m * np.trapezoid(y, z)]])
    return A, rhs


def t_partition(r):
    method = ["restrict", "lstsq", "nnls"][r.integers(3)]
    b = backend("numpy" if method == "nnls" else backends()[r.integers(3)])
    ws = windows(r, b)
    z = grid(r, float(r.choice([0.0, 0.2])), int(r.integers(12, 40)))
    f = np.abs(r.normal(size=(*lead(r), z.size))) + 0.1
    if r.random() < 0.3:
        f = r.normal(size=f.shape)
    args = (b.asarray(z), b.asarray(f), ws)
    info = dict(z=z, f=f, shells=plain(ws), method=method, backend=b.__name__)
    tol = None
    if method != "restrict" and r.random() < 0.4:
        tol = float(r.choice([1.0, 0.1, 1e-3, 1e-7]))
        got = getattr(glass.shells, "partition_" + method)(*args, sumtol=tol)
        info["sumtol"] = tol
    elif method == "nnls" and r.random() < 0.5:
        got = glass.partition(*args)
    else:
        got = glass.partition(*args, method=method)
    got = np.asarray(got)
    expect(got.shape == (len(ws), *f.shape[:-1]), "shape of the partition", got=got.shape, **info)
    A, rhs = system(z, f, plain(ws), 0.01 if tol is None else tol)
    if method != "restrict" and np.linalg.cond(A) > 1e6:
        return
    for i in np.ndindex(f.shape[:-1]):
        x = got[(slice(None), *i)]
        if method == "restrict":
            want = []
            for za, wa in plain(ws):
                zr = np.union1d(za, z[(z > za[0]) & (z < za[-1])])
                want.append(np.trapezoid(np.interp(zr, z, f[i], left=0, right=0) * np.interp(zr, za, wa), zr))
            want = np.array(want)
        elif method == "lstsq":
            want = np.linalg.lstsq(A, rhs(f[i]), rcond=None)[0]
        else:
            want = scipy_nnls(A, rhs(f[i]))[0]
            if np.linalg.norm(A @ x - rhs(f[i])) <= np.linalg.norm(A @ want - rhs(f[i])) * (1 + 1e-9) + 1e-12 and np.all(x >= 0):
                continue
        expect_close(x, want, "partition", rtol=1e-6, atol=1e-8, axis=i, **info)


def t_unknown_method(r):
    b = backend("numpy")
    ws = windows(r, b)
    z = grid(r)
    for m in ("", "NNLS", "least", "restrict "):
        expect_raises(ValueError, lambda m=m: glass.partition(b.asarray(z), b.asarray(z), ws, method=m), "unknown partition method accepted", method=m)
