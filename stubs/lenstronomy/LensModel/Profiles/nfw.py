import numpy as np
from lenstronomy.LensModel.Profiles._base import RadialProfile


def _F(x):
    x = np.asarray(x, dtype=float)
    out = np.ones_like(x)
    lo, hi = x < 1 - 1e-9, x > 1 + 1e-9
    out[lo] = np.arccosh(1 / x[lo]) / np.sqrt(1 - x[lo] ** 2)
    out[hi] = np.arccos(1 / x[hi]) / np.sqrt(x[hi] ** 2 - 1)
    return out


class NFW(RadialProfile):
    profile_name = 'NFW'
    param_names = ["Rs", "alpha_Rs", "center_x", "center_y"]

    def _scale(self, Rs, rho0):
        return Rs

    def _to_3d(self, Rs, alpha_Rs):
        return Rs, self.alpha2rho0(alpha_Rs, Rs)

    @staticmethod
    def alpha2rho0(alpha_Rs, Rs):
        return alpha_Rs / (4.0 * Rs ** 2 * (1.0 + np.log(1.0 / 2.0)))

    @staticmethod
    def rho02alpha(rho0, Rs):
        return rho0 * (4 * Rs ** 2 * (1 + np.log(1.0 / 2.0)))

    @staticmethod
    def density(R, Rs, rho0):
        return rho0 / (R / Rs * (1 + R / Rs) ** 2)

    def mass_3d(self, r, Rs, rho0):
        return 4.0 * np.pi * rho0 * Rs ** 3 * (np.log((Rs + r) / Rs) - r / (Rs + r))

    def mass_3d_lens(self, r, Rs, alpha_Rs, center_x=0, center_y=0):
        return self.mass_3d(r, Rs, self.alpha2rho0(alpha_Rs, Rs))

    def mass_2d(self, R, Rs, rho0):
        x = np.maximum(np.atleast_1d(np.asarray(R, dtype=float)) / Rs, 1e-9)
        out = 4 * rho0 * Rs ** 3 * np.pi * (np.log(x / 2) + _F(x))
        return float(out[0]) if np.ndim(R) == 0 else out

    def _alpha_radial(self, R, Rs, rho0):
        return self.mass_2d(R, Rs, rho0) / np.pi / R
