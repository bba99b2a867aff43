"""C29: redshift and distance grids; weight functions of shells."""
import z3

from pv import cosmo as C
from pv.harness import harness
from pv.vals import F, PI, Sc

S = "glass.shells."
FUN = [S + "redshift_grid", S + "distance_grid", S + "_uniform_grid"]


def num_grid(v, pre, out, start, stop, num, val=lambda t: t):
    """num + 1 points, uniform, exact end points."""
    v.dims(pre + ".shape", out, (Sc("i", num.re + 1),))
    i = v.ix("i", num.re)
    d = (stop - start) / z3.ToReal(num.re)
    v.prove(pre + ".first", val(out.at(z3.IntVal(0)).re) == start)
    v.prove(pre + ".last", val(out.at(num.re).re) == stop)
    v.prove(pre + ".uniform", val(out.at(i + 1).re) - val(out.at(i).re) == d)
    v.prove(pre + ".position", val(out.at(i).re) == start + z3.ToReal(i) * d)


def step_grid(v, pre, out, start, stop, dz, val=lambda t: t):
    n = out.shape[0]
    if len(out.shape) != 1:
        v.c.fail(pre + ".rank", "grid is not one-dimensional")
        return
    from pv.core import z3i
    n = z3i(n)
    v.prove(pre + ".nonempty", n >= 1)
    v.prove(pre + ".first", val(out.at(z3.IntVal(0)).re) == start)
    i = z3.Int("ix!i")
    v.assume(z3.And(i >= 0, i < n))
    v.prove(pre + ".position", val(out.at(i).re) == start + z3.ToReal(i) * dz)
    last = val(out.at(n - 1).re)
    v.prove(pre + ".reaches", last >= stop)
    v.prove(pre + ".not-beyond-one-step", last < stop + dz)


@harness("redshift_grid[num]", funcs=FUN)
def rnum(v):
    zmin = v.real("zmin", lo=0)
    zmax = v.real("zmax")
    v.assume(zmax.re > zmin.re)
    num = v.int("num", lo=1)
    v.cover()
    z = v.call(v.fn(S + "redshift_grid"), zmin, zmax, num=num)
    num_grid(v, "grid", z, zmin.re, zmax.re, num)


@harness("redshift_grid[dz]", funcs=FUN)
def rdz(v):
    zmin = v.real("zmin", lo=0)
    zmax = v.real("zmax")
    dz = v.real("dz", gt=0)
    v.assume(zmax.re > zmin.re)
    v.cover()
    z = v.call(v.fn(S + "redshift_grid"), zmin, zmax, dz=dz)
    step_grid(v, "grid", z, zmin.re, zmax.re, dz.re)


@harness("redshift_grid[args]", funcs=FUN)
def rargs(v):
    from pv import xp as X
    zmin, zmax, dz = v.real("zmin", lo=0, xp=X.NUMPY), v.real("zmax", xp=X.NUMPY), v.real("dz", gt=0)
    v.assume(zmax.re > zmin.re)
    num = v.int("num", lo=1)
    cosmo = C.SymCosmo()
    v.cover()
    for nm, kw in (("both", dict(dz=dz, num=num)), ("neither", {})):
        k, e = v.attempt(v.fn(S + "redshift_grid"), zmin, zmax, **kw)
        v.prove(f"redshift.{nm}-rejected", k == "exc" and isinstance(e, ValueError))
        kw = {("dx" if a == "dz" else a): b for a, b in kw.items()}
        k, e = v.attempt(v.fn(S + "distance_grid"), cosmo, zmin, zmax, **kw)
        v.prove(f"distance.{nm}-rejected", k == "exc" and isinstance(e, ValueError))


def dist(form):
    @harness(f"distance_grid[{form}]", funcs=FUN)
    def h(v):
        from pv import xp as X
        zmin = v.real("zmin", lo=0, xp=X.NUMPY)
        zmax = v.real("zmax", xp=X.NUMPY)
        v.assume(zmax.re > zmin.re)
        cosmo = C.SymCosmo()
        x0, x1 = C.f_dc(zmin.re), C.f_dc(zmax.re)
        v.lemma("distances-ordered", x0 < x1)
        v.cover()
        f = v.fn(S + "distance_grid")
        val = lambda t: C.f_dc(t)
        if form == "num":
            num = v.int("num", lo=1)
            z = v.call(f, cosmo, zmin, zmax, num=num)
            num_grid(v, "grid", z, x0, x1, num, val)
            v.prove("starts-at-zmin", z.at(z3.IntVal(0)).re == zmin.re)
            v.prove("ends-at-zmax", z.at(num.re).re == zmax.re)
        else:
            dx = v.real("dx", gt=0)
            z = v.call(f, cosmo, zmin, zmax, dx=dx)
            step_grid(v, "grid", z, x0, x1, dx.re, val)
            v.prove("starts-at-zmin", z.at(z3.IntVal(0)).re == zmin.re)


dist("num")
dist("dx")


@harness("weights", funcs=[S + "DistanceWeight.__call__", S + "VolumeWeight.__call__", S + "DensityWeight.__call__"])
def weights(v):
    sh = v.mod("glass.shells")
    cosmo = C.SymCosmo()
    n = v.int("n", lo=1)
    z = v.arr("z", (n,))
    i = v.ix("i", n)
    t = z.at(i).re
    v.cover()
    E, dm = C.f_E(t), C.f_dm(t)
    for nm, cls, want in (("distance", sh.DistanceWeight, 1 / E),
                          ("volume", sh.VolumeWeight, dm / cosmo.dh * (dm / cosmo.dh) / E),
                          ("density", sh.DensityWeight, cosmo.rho * C.f_om(t) * (dm / cosmo.dh) * (dm / cosmo.dh) / E)):
        w = v.call(cls(cosmo), z)
        v.dims(nm + ".shape", w, (n,))
        v.prove(nm, w.at(i).re == want)
