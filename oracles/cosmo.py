"""A small cosmology with matter, curvature and a constant, used to exercise the real code."""
import numpy as np

_X, _W = np.polynomial.legendre.leggauss(64)


class Cosmo:
    h = 0.7
    hubble_distance = 4282.7
    critical_density0 = 1.36e11

    def __init__(self, om=0.3, ok=0.0):
        self.Omega_m0, self.ok = om, ok

    def _e(self, z):
        z = np.asarray(z, dtype=float)
        return np.sqrt(self.Omega_m0 * (1 + z) ** 3 + self.ok * (1 + z) ** 2 + (1 - self.Omega_m0 - self.ok))

    def H_over_H0(self, z):
        return self._e(z)

    def Omega_m(self, z):
        return self.Omega_m0 * (1 + np.asarray(z)) ** 3 / self._e(z) ** 2

    def growth_factor(self, z):
        return 1 / (1 + np.asarray(z))

    def comoving_distance(self, z, z2=None):
        a, b = (np.zeros_like(np.asarray(z, dtype=float)), np.asarray(z, dtype=float)) if z2 is None else \
            np.broadcast_arrays(np.asarray(z, dtype=float), np.asarray(z2, dtype=float))
        t = 0.5 * (b - a)[..., None] * (_X + 1) + a[..., None]
        return self.hubble_distance * np.sum(_W / self._e(t), axis=-1) * 0.5 * (b - a)

    def transverse_comoving_distance(self, z, z2=None):
        x = self.comoving_distance(z, z2) / self.hubble_distance
        if self.ok == 0:
            return self.hubble_distance * x
        s = np.sqrt(abs(self.ok))
        return self.hubble_distance * (np.sinh(s * x) if self.ok > 0 else np.sin(s * x)) / s

    def inv_comoving_distance(self, x):
        x = np.asarray(x, dtype=float)
        z = x / self.hubble_distance
        for _ in range(50):
            z = z - (self.comoving_distance(z) - x) * self._e(z) / self.hubble_distance
        return z
