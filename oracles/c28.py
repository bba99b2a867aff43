"""C28: integration, averaging and broadcasting helpers on the real code."""
import numpy as np
from common import backend, backends, expect, expect_close

import glass
import glass.arraytools as A


def pick(r):
    return backend(backends()[r.integers(3)])


def grid(r, lo=0.0, hi=2.0):
    n = int(r.integers(2, 12))
    g = np.sort(r.uniform(lo, hi, n))
    if r.random() < 0.5:
        g = np.round(g * 8) / 8
    return np.unique(g)


def t_cumulative(r):
    b = pick(r)
    lead = [(), (3,), (2, 3)][r.integers(3)]
    n = int(r.integers(1, 9))
    if r.random() < 0.3:
        f, x = r.integers(-5, 9, (*lead, n)), np.cumsum(r.integers(1, 4, n))
    else:
        f, x = r.normal(size=(*lead, n)), np.cumsum(r.uniform(0.1, 2, n))
    got = np.asarray(A.cumulative_trapezoid(b.asarray(f), b.asarray(x)))
    want = np.zeros((*lead, n))
    for k in range(1, n):
        want[..., k] = want[..., k - 1] + (f[..., k] + f[..., k - 1]) / 2 * (x[k] - x[k - 1])
    info = dict(f=f, x=x, backend=b.__name__)
    expect(got.shape == want.shape, "shape of the cumulative integral", got=got.shape, **info)
    expect_close(got, want, "cumulative integral", **info)


def t_product(r):
    b = pick(r)
    m = int(r.integers(1, 5))
    fs = []
    for t in range(m):
        x = grid(r, *[(0, 2), (0.5, 3), (-1, 1.5)][r.integers(3)])
        while x.size < 2:
            x = grid(r)
        fs.append((x, r.normal(size=x.size)))
    lo, hi = max(x[0] for x, _ in fs), min(x[-1] for x, _ in fs)
    if m > 2 and lo > hi:
        return
    X = np.unique(np.concatenate([x[(x >= lo) & (x <= hi)] for x, _ in fs]))
    Y = np.ones(X.size)
    for x, f in fs:
        Y = Y * np.interp(X, x, f)
    want = float(np.sum((Y[1:] + Y[:-1]) / 2 * np.diff(X)))
    got = A.trapezoid_product(*[(b.asarray(x), b.asarray(f)) for x, f in fs])
    expect_close(got, want, "integral of a product", rtol=1e-9, atol=1e-12, functions=fs, backend=b.__name__)


def t_leading(r):
    b = pick(r)
    dims = tuple(int(d) for d in r.integers(1, 4, int(r.integers(0, 3))))
    args, want = [], []
    for t in range(int(r.integers(1, 5))):
        k = int(r.integers(0, len(dims) + 1))
        lead = tuple(d if r.random() < 0.7 else 1 for d in dims[len(dims) - k:])
        trail = tuple(int(d) for d in r.integers(1, 5, int(r.integers(0, 3))))
        a = r.normal(size=lead + trail)
        args.append((b.asarray(a), len(trail)))
        want.append((a, trail))
    full = np.broadcast_shapes(*[a.shape[:a.ndim - len(t)] for a, t in want])
    out = A.broadcast_leading_axes(*args)
    info = dict(shapes=[(np.asarray(a).shape, n) for a, n in args], backend=b.__name__)
    expect(tuple(out[0]) == full, "common leading shape", got=out[0], want=full, **info)
    expect(len(out) == 1 + len(args), "number of arrays", **info)
    for o, (a, t) in zip(out[1:], want):
        expect(tuple(o.shape) == full + t, "broadcast shape", got=o.shape, **info)
        expect(np.array_equal(np.asarray(o), np.broadcast_to(a, full + t)), "broadcast values", **info)
    dims2, x, y = A.broadcast_leading_axes((1.5, 0), (b.asarray(np.arange(4.0)), 1))
    expect(tuple(dims2) == () and float(x) == 1.5 and np.array_equal(np.asarray(y), np.arange(4.0)), "scalar broadcast")


def t_first(r):
    b = pick(r)
    n = int(r.integers(1, 4))
    rest = tuple(int(d) for d in r.integers(1, 4, int(r.integers(0, 3))))
    arrs = []
    for t in range(int(r.integers(1, 4))):
        k = int(r.integers(0, len(rest) + 1))
        sh = (n if r.random() < 0.8 else 1,) + tuple(d if r.random() < 0.7 else 1 for d in rest[len(rest) - k:])
        arrs.append(r.normal(size=sh))
    if r.random() < 0.2:
        arrs.append(np.asarray(r.normal()))
    roll = [np.moveaxis(a, 0, -1) if a.ndim else a for a in arrs]
    want = np.broadcast_arrays(*roll)
    out = A.broadcast_first(*map(b.asarray, arrs))
    for o, w in zip(out, want):
        w = np.moveaxis(w, -1, 0) if w.ndim else w
        expect(o.shape == w.shape and np.array_equal(np.asarray(o), w), "broadcast along the first axis",
               shapes=[a.shape for a in arrs], got=o.shape, backend=b.__name__)


def t_bias(r):
    b = pick(r)
    z, za = grid(r), grid(r, 0.1, 1.5)
    while z.size < 2 or za.size < 2:
        z, za = grid(r), grid(r, 0.1, 1.5)
    bz, wa = r.uniform(0.5, 2, z.size), r.uniform(0.1, 2, za.size)
    w = glass.RadialWindow(b.asarray(za), b.asarray(wa), 0.5)
    got = glass.effective_bias(b.asarray(z), b.asarray(bz), w)
    lo, hi = max(z[0], za[0]), min(z[-1], za[-1])
    X = np.union1d(z[(z >= lo) & (z <= hi)], za[(za >= lo) & (za <= hi)])
    Y = np.interp(X, z, bz) * np.interp(X, za, wa)
    want = np.sum((Y[1:] + Y[:-1]) / 2 * np.diff(X)) / np.sum((wa[1:] + wa[:-1]) / 2 * np.diff(za))
    expect_close(got, want, "effective bias", z=z, bz=bz, za=za, wa=wa, backend=b.__name__)
    # a constant bias over the whole window is returned unchanged
    z1 = np.union1d(za, np.array([za[0] - 0.1, za[-1] + 0.1]))
    expect_close(glass.effective_bias(b.asarray(z1), b.asarray(np.full(z1.size, 1.7)), w), 1.7, "constant bias", za=za, wa=wa)


def t_weights(r):
    b = pick(r)
    n, m = int(r.integers(1, 5)), int(r.integers(1, 5))
    ds = [(n,), (n, m)][r.integers(2)]
    d = r.uniform(0.1, 3, ds)
    bias = [None, float(r.uniform(0.5, 2)), r.uniform(0.5, 2, n), r.uniform(0.5, 2, (n, m))][r.integers(4)]
    got = np.asarray(glass.position_weights(b.asarray(d), bias if bias is None or isinstance(bias, float) else b.asarray(bias)))
    info = dict(densities=d, bias=bias, backend=b.__name__)
    if not isinstance(bias, np.ndarray):
        want = d / d.sum(axis=0) * (1.0 if bias is None else bias)
    else:
        D, B = np.broadcast_arrays(d if d.ndim == max(d.ndim, bias.ndim) else d[:, None],
                                   bias if bias.ndim == max(d.ndim, bias.ndim) else bias[:, None])
        want = D / D.sum(axis=0) * B
    expect(got.shape == want.shape, "shape of the weights", got=got.shape, **info)
    expect_close(got, want, "position weights", **info)
