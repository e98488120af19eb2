import numpy as np
from lenstronomy.LensModel.Profiles._base import RadialProfile
from lenstronomy.LensModel.Profiles.nfw import _F


class TNFW(RadialProfile):
    profile_name = 'TNFW'
    param_names = ["Rs", "alpha_Rs", "r_trunc", "center_x", "center_y"]

    def _scale(self, Rs, rho0, r_trunc):
        return Rs

    def _to_3d(self, Rs, alpha_Rs, r_trunc):
        return Rs, self.alpha2rho0(alpha_Rs, Rs), r_trunc

    @staticmethod
    def alpha2rho0(alpha_Rs, Rs):
        return alpha_Rs / (4.0 * Rs ** 2 * (1.0 + np.log(1.0 / 2.0)))

    @staticmethod
    def rho02alpha(rho0, Rs):
        return rho0 * (4 * Rs ** 2 * (1 + np.log(1.0 / 2.0)))

    @staticmethod
    def density(r, Rs, rho0, r_trunc, center_x=0, center_y=0):
        return (r_trunc ** 2 / (r_trunc ** 2 + r ** 2)) * rho0 / (r / Rs * (1 + r / Rs) ** 2)

    def mass_3d(self, r, Rs, rho0, r_trunc):
        # r_trunc in units of Rs, as in lenstronomy
        x = r * Rs ** -1
        func = (r_trunc ** 2 * (-2 * x * (1 + r_trunc ** 2)
                                + 4 * (1 + x) * r_trunc * np.arctan(x / r_trunc)
                                - 2 * (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs)
                                + 2 * (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs * (1 + x))
                                + 2 * (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs * r_trunc)
                                - (1 + x) * (-1 + r_trunc ** 2) * np.log(Rs ** 2 * (x ** 2 + r_trunc ** 2)))
                ) / (2.0 * (1 + x) * (1 + r_trunc ** 2) ** 2)
        return 4 * np.pi * Rs ** 3 * rho0 * func

    def mass_2d(self, R, Rs, rho0, r_trunc):
        x = np.maximum(np.atleast_1d(np.asarray(R, dtype=float)) / Rs, 1e-6)
        t = r_trunc / Rs
        s = np.sqrt(t ** 2 + x ** 2)
        L = np.log(x / (s + t))
        out = 4 * np.pi * rho0 * Rs ** 3 * t ** 2 / (t ** 2 + 1) ** 2 * (
            (t ** 2 + 1 + 2 * (x ** 2 - 1)) * _F(x) + t * np.pi + (t ** 2 - 1) * np.log(t)
            + s * (-np.pi + (t ** 2 - 1) / t * L))
        return float(out[0]) if np.ndim(R) == 0 else out

    def _alpha_radial(self, R, *p3):
        return self.mass_2d(R, *p3) / np.pi / R

    def density_2d(self, x, y, Rs, rho0, r_trunc, center_x=0, center_y=0):
        R = np.sqrt((np.asarray(x, dtype=float) - center_x) ** 2 + (np.asarray(y, dtype=float) - center_y) ** 2)
        xx = np.maximum(np.atleast_1d(R) / Rs, 1e-6)
        xx = np.where(np.abs(xx - 1) < 1e-6, 1 + 1e-6, xx)
        t = r_trunc / Rs
        s = np.sqrt(t ** 2 + xx ** 2)
        L = np.log(xx / (s + t))
        F = _F(xx)
        out = 2 * rho0 * Rs * t ** 2 / (t ** 2 + 1) ** 2 * (
            (t ** 2 + 1) / (xx ** 2 - 1) * (1 - F) + 2 * F - np.pi / s + (t ** 2 - 1) / t / s * L)
        return float(out[0]) if np.ndim(R) == 0 else out
