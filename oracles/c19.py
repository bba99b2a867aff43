"""C19: photometric redshifts on the real code."""
import numpy as np
from common import Rng, backend, expect, expect_raises

import glass


def noisy(r):
    made = []

    def normal(g, loc, scale, size):
        shape = np.broadcast_shapes(loc.shape, scale.shape) if size is None else size
        e = g.normal(size=shape)
        made.append(np.atleast_1d(e))
        return loc + scale * e

    def standard(g, size):
        e = g.normal(size=size)
        made.append(np.atleast_1d(e))
        return e
    rng = Rng(r, normal=normal, standard_normal=standard)
    rng.made = made
    return rng


def setup(r):
    a, b = int(r.integers(1, 6)), int(r.integers(1, 6))
    zs, ss = [((), ()), ((a,), ()), ((), (a,)), ((a,), (a,)), ((a, 1), (b,)), ((a, b), (b,)), ((a, b), ())][r.integers(7)]
    z = r.uniform(0.1, 3, zs)
    s = r.uniform(0.05, 0.6, ss)
    return z, s, np.broadcast_shapes(zs, ss)


def bounds(r, z, shape):
    """kinds of bounds, near the galaxies so that redraws do not last"""
    zb = np.broadcast_to(z, shape)
    mk = {"none": lambda d: None, "scalar": lambda d: float(zb.max() + 0.3 * d) if d > 0 else float(max(zb.min() - 0.3, 0)),
          "array": lambda d: zb + d * r.uniform(0.1, 0.5, shape)}
    kinds = ["none", "scalar"] + (["array"] if shape else [])
    lo, up = mk[kinds[r.integers(len(kinds))]](-1), mk[kinds[r.integers(len(kinds))]](1)
    return lo, up


def t_phz(r):
    b = backend(["numpy", "strict", "jax"][r.choice(3, p=[0.6, 0.35, 0.05])])
    z, s, shape = setup(r)
    lo, up = bounds(r, z, shape)
    kw = {k: x if np.ndim(x) == 0 else b.asarray(x) for k, x in (("lower", lo), ("upper", up)) if x is not None}
    info = dict(z=z, sigma_0=s, lower=lo, upper=up, backend=b.__name__)
    rng = noisy(r)
    if b.__name__ != "numpy":
        kw["xp"] = b
        use = None
    else:
        use = rng
    out = np.asarray(glass.gaussian_phz(b.asarray(z), b.asarray(s), rng=use, **kw))
    expect(out.shape == shape, "shape", got=out.shape, **info)
    L = 0.0 if lo is None else lo
    U = np.inf if up is None else up
    expect(((out >= L) & (out <= U)).all(), "outside the bounds", got=out, **info)
    if use is None:
        return
    sig = (1 + z) * s
    eps = ((out - z) / sig).ravel()
    pool = np.concatenate([e.ravel() for e in rng.made])
    expect((np.abs(eps[:, None] - pool).min(-1) < 1e-8).all(), "not a normal draw with the galaxy's own mean and deviation",
           got=out, noise=eps, draws=rng.made, **info)
    if eps.size > 1:
        expect(np.diff(np.sort(eps)).min() > 1e-12, "draws are shared between galaxies", got=out, **info)
    first = rng.made[0].reshape(shape) if rng.made[0].size == out.size else None
    if first is not None:
        x = z + sig * first
        ok = (x >= L) & (x <= U)
        expect(np.allclose(out[ok], x[ok], rtol=1e-9), "a value within bounds was redrawn", first=x, got=out, **info)


def t_tails(r):
    """many redraws: one unlucky galaxy among lucky ones"""
    n = int(r.integers(2, 8))
    z = np.full(n, 2.0)
    lo = np.zeros(n)
    up = np.full(n, 9.0)
    k = int(r.integers(n))
    lo[k], up[k] = [(2.4, 3.0), (1.0, 1.5), (0.0, 1.7), (2.2, 9.0)][r.integers(4)]
    rng = noisy(r)
    out = glass.gaussian_phz(z, 0.1, lower=lo, upper=up, rng=rng)
    info = dict(z=z, lower=lo, upper=up)
    expect(out.shape == (n,) and ((out >= lo) & (out <= up)).all(), "outside the bounds", got=out, **info)
    first = z + 0.3 * rng.made[0]
    ok = (first >= lo) & (first <= up)
    expect(np.allclose(out[ok], first[ok], rtol=1e-9), "a value within bounds was redrawn", first=first, got=out, **info)


def t_rejects(r):
    b = backend(["numpy", "strict"][r.integers(2)])
    n = int(r.integers(2, 5))
    m = n + int(r.integers(1, 3))
    z = r.uniform(0.5, 2, n)
    A = b.asarray
    bad = [dict(lower=A(np.zeros(m)), upper=A(np.ones(m) * 9)), dict(lower=A(np.zeros(m))), dict(upper=A(np.ones(m) * 9)),
           dict(lower=A(np.zeros((2, n))), upper=9.0), dict(lower=0.0, upper=A(np.ones((2, n)) * 9)),
           dict(lower=A(np.zeros(n)), upper=A(np.ones((2, n)) * 9)), dict(lower=A(np.zeros((2, n))), upper=A(np.ones(n) * 9)),
           dict(lower=2.0, upper=1.0), dict(lower=1.0, upper=1.0), dict(upper=-1.0), dict(upper=0.0)]
    lo, up = np.zeros(n), np.ones(n) * 9
    k = int(r.integers(n))
    lo[k], up[k] = [(1.0, 1.0), (2.0, 1.0)][r.integers(2)]
    bad += [dict(lower=A(lo), upper=A(up)), dict(lower=A(lo), upper=float(lo[k])), dict(lower=float(up[k]), upper=A(up))]
    for kw in bad:
        expect_raises(ValueError, lambda: glass.gaussian_phz(A(z), A(np.full(n, 0.2)), xp=b, **kw), "invalid bounds", z=z, **kw)
    expect_raises(ValueError, lambda: glass.gaussian_phz(A(1.0), A(0.1), lower=A(np.zeros(m)), xp=b), "bounds for a scalar", m=m)
