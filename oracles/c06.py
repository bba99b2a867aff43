"""C06: transformations on the real code."""
import itertools

import numpy as np
from common import backend, backends, expect, expect_close, expect_raises

import glass.grf as grf
from glass.grf import _core as core


def make(r, kind):
    lam = float(np.exp(r.uniform(-2, 2))) if r.random() < 0.8 else 1.0
    if kind == "N":
        return grf.Normal()
    if kind == "L":
        return grf.Lognormal(lam)
    return grf.SquaredNormal(float(r.uniform(-2, 2)), lam)


def t_pairs(r):
    for k1, k2 in itertools.product("NLS", repeat=2):
        t1, t2 = make(r, k1), make(r, k2)
        b = backend(backends()[r.integers(3)])
        x0 = r.uniform(-0.9, 0.9, int(r.integers(1, 30)))
        if (k1, k2) == ("S", "S"):
            x0 = np.maximum(x0, -t1.a * t2.a + 1e-6)
        x = b.asarray(x0)
        info = dict(t1=t1, t2=t2, x=x0)
        if "S" in (k1, k2) and k1 != k2:
            for f in (core.corr, core.icorr, core.dcorr):
                expect_raises(NotImplementedError, lambda: f(t1, t2, x), "unsupported pair", **info)
            continue
        y = core.corr(t1, t2, x)
        # documented relations
        l1, l2 = getattr(t1, "lamda", 1.0), getattr(t2, "lamda", 1.0)
        want = {"NN": x0, "LL": l1 * l2 * np.expm1(x0), "LN": l1 * x0, "NL": l2 * x0}.get(k1 + k2)
        if want is None:
            want = 2 * l1 * l2 * x0 * (x0 + 2 * t1.a * t2.a)
        expect_close(y, want, "forward transform", **info)
        expect_close(core.corr(t2, t1, x), y, "order of the pair", **info)
        expect_close(core.icorr(t1, t2, y), x0, "inverse transform", rtol=1e-6, atol=1e-7, **info)
        expect_close(core.icorr(t2, t1, y), x0, "inverse transform (other order)", rtol=1e-6, atol=1e-7, **info)
        h = 1e-6
        num = (np.asarray(core.corr(t1, t2, b.asarray(x0 + h))) - np.asarray(core.corr(t1, t2, b.asarray(x0 - h)))) / (2 * h)
        expect_close(core.dcorr(t1, t2, x), num, "derivative", rtol=1e-5, atol=1e-6, **info)
        expect_close(core.dcorr(t2, t1, x), num, "derivative (other order)", rtol=1e-5, atol=1e-6, **info)


class Sub(grf.Normal):
    pass


class Other:
    def corr(self, o, x):
        return NotImplemented

    icorr = dcorr = corr


class Knows:
    """Supports everything itself."""

    def corr(self, o, x):
        return 3 * x

    def icorr(self, o, x):
        return x / 3

    def dcorr(self, o, x):
        return 3 + 0 * x


def t_dispatch(r):
    x = r.normal(size=4)
    for k in "NLS":
        t = make(r, k)
        for a, b in ((t, Other()), (Other(), t), (t, Sub()), (Sub(), t)):
            if isinstance(b, Sub) or isinstance(a, Sub):
                continue
            for f in (core.corr, core.icorr, core.dcorr):
                expect_raises(NotImplementedError, lambda: f(a, b, x), "unsupported pair", t=t)
        for a, b in ((t, Knows()), (Knows(), t)):
            expect_close(core.corr(a, b, x), 3 * x, "reversed dispatch", t=t)
            expect_close(core.icorr(a, b, x), x / 3, "reversed dispatch", t=t)
            expect_close(core.dcorr(a, b, x), 3 + 0 * x, "reversed dispatch", t=t)


def t_fields(r):
    b = backend(backends()[r.integers(3)])
    x0 = r.normal(size=(200,)) * 4
    x = b.asarray(x0)
    var = float(r.uniform(0, 3))
    for k in "NLS":
        t = make(r, k)
        y = np.asarray(t(x, var))
        lam = getattr(t, "lamda", 1.0)
        if k == "N":
            expect_close(y, x0, "normal field unchanged", rtol=0, atol=0, t=t)
        elif k == "L":
            expect_close(y, lam * (np.exp(x0 - var / 2) - 1), "lognormal field", t=t, x=x0, var=var)
            expect(y >= -lam, "lognormal bound", t=t, x=x0, var=var)
            o = np.argsort(x0)
            expect(np.diff(y[o]) >= 0, "lognormal monotonic", t=t)
        else:
            expect_close(y, lam * ((x0 - t.a) ** 2 - 1), "squared normal field", t=t, x=x0)
            expect(y >= -lam * (1 + 1e-12), "squared normal bound", t=t, x=x0)


def t_compute(r):
    import transformcl
    for k1, k2 in (("N", "N"), ("L", "L"), ("L", "N"), ("N", "L"), ("S", "S")):
        t1, t2 = make(r, k1), make(r, k2)
        n = int(r.integers(3, 30))
        cl = 1e-4 / (np.arange(n) + 1.0) ** 2
        want = transformcl.corrtocl(core.icorr(t1, t2, transformcl.cltocorr(cl)))
        expect_close(grf.compute(cl, t1, t2), want, "compute", t1=t1, t2=t2, cl=cl)
        if k1 == k2:
            expect_close(grf.compute(cl, t1), grf.compute(cl, t1, t1), "compute with one transformation", t1=t1, cl=cl)
