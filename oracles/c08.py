"""C08: effective spectra on the real code."""
import numpy as np
from common import backend, backends, expect, expect_close, expect_raises

import glass


def t_effective(r):
    b = backend(backends()[r.integers(3)])
    n = int(r.integers(1, 6))
    cls, mat = [], {}
    for i in range(n):
        for j in range(i, -1, -1):
            c = r.normal(size=int(r.choice([0, 1, 2, 5, 9])) if r.random() < 0.7 else 6)
            cls.append(c)
            mat[i, j] = mat[j, i] = c
    lmax = None if r.random() < 0.4 else int(r.integers(0, 12))
    L = (max(c.size for c in cls) - 1 if lmax is None else lmax) + 1
    shp = lambda: tuple(int(r.integers(1, 4)) for _ in range(int(r.integers(0, 3))))
    s1, s2 = shp(), shp()
    w1 = r.normal(size=(n, *s1))
    kind = int(r.integers(3))
    w2 = None if kind == 0 else w1.copy() if kind == 1 else r.normal(size=(n, *s2))
    A = [b.asarray(c) for c in cls]
    W1 = b.asarray(w1)
    W2 = None if w2 is None else (W1 if kind == 1 and r.random() < 0.5 else b.asarray(w2))
    info = dict(lengths=[c.size for c in cls], lmax=lmax, w1=w1, w2=w2, backend=b.__name__)
    if L == 0:
        return
    out = np.asarray(glass.effective_cls(A, W1, *([] if W2 is None else [W2]), **({} if lmax is None else {"lmax": lmax})))
    x, y = w1, w1 if w2 is None else w2
    C = np.zeros((n, n, L))
    for (i, j), c in mat.items():
        m = min(L, c.size)
        C[i, j, :m] = c[:m]
    want = np.tensordot(np.tensordot(x, C, axes=(0, 0)).reshape(x.shape[1:] + (n, L)), y, axes=(-2, 0))
    want = np.moveaxis(want, x.ndim - 1, -1)
    expect(out.shape == want.shape, "shape", got=out.shape, want=want.shape, **info)
    expect_close(out, want, "effective spectra", rtol=1e-9, atol=1e-10, **info)


def t_rejects(r):
    t = {n * (n + 1) // 2: n for n in range(60)}
    c = int(r.integers(1, 60))
    cls = [np.ones(3)] * c
    n = t.get(c)
    if n is None:
        k = int(np.sqrt(2 * c))
        expect_raises(ValueError, lambda: glass.effective_cls(cls, np.ones(k)), "count that is not triangular", count=c)
        return
    m = int(r.choice([1, n - 1, n + 1, c, 2 * n]))
    m = m if m != n and m > 0 else n + 2
    info = dict(nfields=n, first_axis=m)
    extra = (n,) if r.random() < 0.5 else ()
    expect_raises(ValueError, lambda: glass.effective_cls(cls, np.ones((m, *extra))), "first set has a wrong first axis", **info)
    expect_raises(ValueError, lambda: glass.effective_cls(cls, np.ones(n), np.ones((m, *extra))), "second set has a wrong first axis", **info)
    expect_raises(ValueError, lambda: glass.effective_cls(cls, np.asarray(1.0)), "scalar weights", **info)
    expect_raises(ValueError, lambda: glass.effective_cls(cls, np.ones(n), np.asarray(1.0)), "scalar weights in the second set", **info)
