"""Contract (assumed) of a cosmology: element-wise functions of redshift."""
import z3

from . import arr, core, vals as V
from .arr import SArr, elementwise
from .core import ctx
from .vals import Sc, cast, sc

R = z3.RealSort()
f_E = z3.Function("E_of_z", R, R)
f_dc = z3.Function("dC_of_z", R, R)
f_dci = z3.Function("dC_inverse", R, R)
f_dm = z3.Function("dM_of_z", R, R)
f_dm2 = z3.Function("dM_of_z_z", R, R, R)
f_om = z3.Function("Om_of_z", R, R)
f_gf = z3.Function("growth_of_z", R, R)
core.unary_facts("E_of_z", lambda a: [a > 0, z3.Implies(a.arg(0) == 0, a == 1)])
core.unary_facts("dC_of_z", lambda a: [f_dci(a) == a.arg(0), z3.Implies(a.arg(0) >= 0, a >= 0), z3.Implies(a.arg(0) == 0, a == 0)]
                 if not (z3.is_app(a.arg(0)) and a.arg(0).decl().name() == "dC_inverse") else [a == a.arg(0).arg(0)])
core.unary_facts("dC_inverse", lambda a: [] if z3.is_app(a.arg(0)) and a.arg(0).decl().name() == "dC_of_z" else [f_dc(a) == a.arg(0)])
core.pair_facts("dC_of_z", lambda a, b: [z3.Implies(a.arg(0) < b.arg(0), a < b)])
core.pair_facts("dC_inverse", lambda a, b: [z3.Implies(a.arg(0) < b.arg(0), a < b)])
core.unary_facts("growth_of_z", lambda a: [a > 0])


def app(f):
    def m(z):
        return elementwise(lambda a: Sc("r", f(cast(a, "r").re), xp=a.xp), z) if isinstance(z, SArr) else \
            Sc("r", f(cast(sc(z), "r").re), xp=sc(z).xp)
    return m


class SymCosmo:
    """dC and its inverse are increasing; E > 0; the transverse distance is unconstrained unless `flat`."""

    def __init__(self, flat=False):
        c = ctx()
        self.flat = flat
        self.dh = z3.Real("d_H")
        self.om0 = z3.Real("Omega_m0")
        self.rho = z3.Real("rho_crit0")
        self.h_ = z3.Real("little_h")
        for t in (self.dh, self.om0, self.rho, self.h_):
            c.assume(t > 0)
        self.hubble_distance = Sc("r", self.dh)
        self.Omega_m0 = Sc("r", self.om0)
        self.critical_density0 = Sc("r", self.rho)
        self.h = Sc("r", self.h_)

    def H_over_H0(self, z):
        return app(f_E)(z)

    def Omega_m(self, z):
        return app(f_om)(z)

    def growth_factor(self, z):
        return app(f_gf)(z)

    def comoving_distance(self, z, z2=None):
        if z2 is not None:
            raise core.Unsupported("comoving_distance of two redshifts")
        return app(f_dc)(z)

    def inv_comoving_distance(self, x):
        return app(f_dci)(x)

    def _dm(self, z1, z2):
        """transverse distance between two redshifts (terms)"""
        if self.flat:
            return f_dc(z2) - f_dc(z1)
        return f_dm2(z1, z2)

    def transverse_comoving_distance(self, z, z2=None):
        if z2 is None:
            return app(f_dc if self.flat else f_dm)(z)
        if isinstance(z, (list, tuple)):
            from .xp import NUMPY
            xs = [cast(sc(a), "r").re for a in z]
            b = cast(sc(z2), "r").re
            return SArr((len(xs),), "r", lambda i: Sc("r", pick(i, [self._dm(a, b) for a in xs])), NUMPY)
        return elementwise(lambda a, b: Sc("r", self._dm(cast(a, "r").re, cast(b, "r").re)), z, z2)


def pick(i, xs):
    i = z3.simplify(i) if not isinstance(i, int) else z3.IntVal(i)
    if z3.is_int_value(i):
        return xs[i.as_long()]
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = z3.If(i == k, xs[k], r)
    return r
