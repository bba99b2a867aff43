"""C29: grids and weights on the real code."""
import numpy as np
from common import backend, backends, expect, expect_close, expect_raises

import glass
from cosmo import Cosmo


def check_num(x, start, stop, num, /, **info):
    x = np.asarray(x)
    expect(x.shape == (num + 1,), "number of grid points", got=x, **info)
    expect_close(x, start + (stop - start) * np.arange(num + 1) / num, "uniform grid", rtol=1e-9, atol=1e-9 * abs(stop), **info)
    expect_close(x[-1], stop, "grid reaches the end", rtol=1e-12, atol=1e-12, **info)


def check_step(x, start, stop, dz, /, *, tol=1e-9, **info):
    x = np.asarray(x)
    expect(len(x) >= 1, "grid is not empty", **info)
    expect_close(x, start + dz * np.arange(len(x)), "uniform grid with the given step", rtol=1e-8, atol=tol, **info)
    expect(bool(x[-1] >= stop - 1e-6 * dz - tol), "grid reaches the end", grid=x, **info)
    expect(bool(x[-1] < stop + dz * (1 + 1e-6) + tol), "grid ends within one step", grid=x, **info)


def t_redshift(r):
    zmin = float(r.choice([0.0, r.uniform(0, 2)]))
    zmax = zmin + float(r.uniform(0.01, 5))
    num = int(r.choice([1, 2, 3, 10, 500]))
    b = backend(backends()[r.integers(3)])
    check_num(glass.redshift_grid(zmin, zmax, num=num, xp=b), zmin, zmax, num, zmin=zmin, zmax=zmax, num=num)
    check_num(glass.redshift_grid(zmin, zmax, num=num), zmin, zmax, num, zmin=zmin, zmax=zmax, num=num)
    dz = float(r.uniform(0.003, 1.5)) * (zmax - zmin)
    check_step(glass.redshift_grid(zmin, zmax, dz=dz, xp=b), zmin, zmax, dz, zmin=zmin, zmax=zmax, dz=dz)
    dz = (zmax - zmin) / int(r.integers(1, 40))      # a step that divides the range
    check_step(glass.redshift_grid(zmin, zmax, dz=dz, xp=b), zmin, zmax, dz, zmin=zmin, zmax=zmax, dz=dz)
    for kw in (dict(dz=dz, num=num), {}):
        expect_raises(ValueError, lambda: glass.redshift_grid(zmin, zmax, **kw), "both or neither of step and number", **kw)
        kw = {("dx" if k == "dz" else k): v for k, v in kw.items()}
        expect_raises(ValueError, lambda: glass.distance_grid(Cosmo(), zmin, zmax, **kw), "both or neither of step and number", **kw)


def t_distance(r):
    c = Cosmo(om=float(r.uniform(0.2, 0.5)))
    zmin = float(r.choice([0.0, r.uniform(0, 1)]))
    zmax = zmin + float(r.uniform(0.05, 2))
    x0, x1 = float(c.comoving_distance(zmin)), float(c.comoving_distance(zmax))
    num = int(r.choice([1, 2, 3, 50]))
    info = dict(zmin=zmin, zmax=zmax, x0=x0, x1=x1, Omega_m=c.Omega_m0)
    z = np.asarray(glass.distance_grid(c, zmin, zmax, num=num))
    check_num(c.comoving_distance(z), x0, x1, num, num=num, **info)
    expect_close([z[0], z[-1]], [zmin, zmax], "grid ends", rtol=1e-6, atol=1e-6, **info)
    dx = float(r.uniform(0.01, 1.2)) * (x1 - x0)
    z = np.asarray(glass.distance_grid(c, zmin, zmax, dx=dx))
    check_step(c.comoving_distance(z), x0, x1, dx, tol=1e-5 * x1, dx=dx, **info)


def t_weights(r):
    c = Cosmo(om=float(r.uniform(0.2, 0.5)), ok=float(r.choice([0, r.uniform(-0.2, 0.2)])))
    z = r.uniform(0, 3, 6)
    e, d = c.H_over_H0(z), c.transverse_comoving_distance(z) / c.hubble_distance
    expect_close(glass.DistanceWeight(c)(z), 1 / e, "distance weight", z=z)
    expect_close(glass.VolumeWeight(c)(z), d ** 2 / e, "volume weight", z=z)
    expect_close(glass.DensityWeight(c)(z), c.critical_density0 * c.Omega_m(z) * d ** 2 / e, "density weight", z=z)
