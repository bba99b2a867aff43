"""C04: iterative normal sampling on the real code."""
import numpy as np
from common import backend, expect, expect_close, expect_raises

import glass
from glass.fields import cls2cov, iternorm


def covariance(r, n, k, shape):
    """a positive definite covariance with zero correlation beyond k, and its banded factor"""
    A = r.normal(size=(*shape, n, n)) * 0.4
    A = np.tril(A, -1)
    i, j = np.indices((n, n))
    A = np.where(i - j <= k, A, 0)
    A[..., range(n), range(n)] = r.uniform(0.3, 2, size=(*shape, n))
    return A @ np.swapaxes(A, -1, -2)


def t_iternorm(r):
    b = backend(["numpy", "strict", "jax"][r.integers(3)])
    n = int(r.integers(1, 8))
    k = int(r.integers(0, n + 2))
    shape = [(), (3,), (2, 2)][r.integers(3)]
    cov = covariance(r, n, n, shape) + 2 * n * np.eye(n)
    growing = r.random() < 0.3
    rows, ks = [], []
    for i in range(n):
        q = min(i, k) if growing else k
        row = np.zeros((*shape, q + 1))
        for d in range(min(i, q) + 1):
            row[..., d] = cov[..., i, i - d]
        if not growing and r.random() < 0.5:
            row[..., min(i, q) + 1:] = r.normal(size=row[..., min(i, q) + 1:].shape)        # no such field: not used
        rows.append(row)
        ks.append(q)
    info = dict(rows=rows, backend=b.__name__)
    out = [np.asarray(w) for w in iternorm(iter([b.asarray(x) for x in rows]))]
    expect(len(out) == n, "number of weights", got=len(out), **info)
    W = np.zeros((*shape, n, n))
    for i, (w, q) in enumerate(zip(out, ks)):
        expect(w.shape == (*shape, q + 1), "shape of the weights", got=w.shape, **info)
        for t in range(q + 1):
            f = i - q + t
            if f >= 0:
                W[..., i, f] = w[..., t]
            else:
                expect((w[..., t] == 0).all(), "weight of a draw that does not exist", i=i, t=t, weights=w, **info)
    for i, q in enumerate(ks):
        for d in range(min(i, q) + 1):
            # the draws of the window of the last k
            lo = max(0, i - q)
            got = (W[..., i, lo:i + 1] * W[..., i - d, lo:i + 1]).sum(-1)
            expect_close(got, cov[..., i, i - d], "covariance of the variates", rtol=1e-8, atol=1e-10, i=i, d=d, **info)


def t_rejects(r):
    shape = [(), (3,)][r.integers(2)]
    n, k = int(r.integers(1, 6)), int(r.integers(1, 4))
    cov = covariance(r, n, n, shape) + 2 * n * np.eye(n)
    rows = []
    for i in range(n):
        row = np.zeros((*shape, k + 1))
        for d in range(min(i, k) + 1):
            row[..., d] = cov[..., i, i - d]
        rows.append(row)
    bad = int(r.integers(n))
    what = r.integers(3)
    if what == 0:
        at = tuple(int(r.integers(s)) for s in shape)
        rows[bad][(*at, 0)] = -1e-3 if bad == 0 else float((rows[bad][(*at, slice(1, None))] ** 2).sum() / 200 - 0.01)
    elif what == 1:
        rows[bad] = rows[bad][..., :0]
    else:
        if bad == 0:
            return
        rows[bad] = np.zeros((*shape, 2, k + 1)) + 1 if r.random() < 0.5 else np.ones((5, k + 1))
    got = []
    def run():
        for w in iternorm(rows):
            got.append(w)
    expect_raises(ValueError, run, "row accepted", rows=rows, bad=bad, kind=["negative", "empty", "shape"][what])
    expect(len(got) == bad, "rows yielded before the one that is rejected", got=len(got), rows=rows, bad=bad)


def t_semidefinite_first(r):
    """a first row with zero variance is positive semi-definite"""
    out = list(iternorm([np.zeros((2, 2))]))
    expect(len(out) == 1 and (np.asarray(out[0]) == 0).all(), "zero variance", got=out)


def t_cls2cov(r):
    b = backend(["numpy", "strict", "jax"][r.integers(3)])
    nf = int(r.integers(1, 7))
    nl, nc = int(r.integers(1, 9)), int(r.integers(0, 8))
    cls, S = [], {}
    for i in range(nf):
        for j in range(i, -1, -1):
            cl = r.normal(size=int(r.integers(0, nl + 1)))
            if i == j:
                cl = abs(cl)
            S[i, j] = cl
            cls.append(cl)
    info = dict(cls=cls, nl=nl, nf=nf, nc=nc, backend=b.__name__)
    out = [np.array(np.asarray(c)) for c in cls2cov([b.asarray(c) for c in cls], nl, nf, nc)]
    expect(len(out) == nf, "number of rows", got=len(out), **info)
    for j, c in enumerate(out):
        want = np.zeros((nl, nc + 1))
        for d in range(min(j, nc) + 1):
            want[: S[j, j - d].size, d] = S[j, j - d] / 2
        expect_close(c, want, "row of the covariance", rtol=1e-12, j=j, **info)


def t_negative_auto(r):
    nf = int(r.integers(1, 6))
    nl, nc = int(r.integers(1, 6)), int(r.integers(0, 4))
    bad = int(r.integers(nf))
    cls = []
    for i in range(nf):
        for j in range(i, -1, -1):
            cl = r.normal(size=nl)
            if i == j:
                cl = abs(cl)
                if i == bad:
                    cl[int(r.integers(nl))] = -0.1
            cls.append(cl)
    got = []
    def run():
        for c in cls2cov(cls, nl, nf, nc):
            got.append(1)
    expect_raises(ValueError, run, "negative auto-spectrum accepted", cls=cls, nl=nl, nf=nf, nc=nc, bad=bad)
    expect(len(got) == bad, "rows before the negative spectrum", got=len(got), cls=cls, bad=bad)
