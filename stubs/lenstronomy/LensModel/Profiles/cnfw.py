import numpy as np
from lenstronomy.LensModel.Profiles._base import RadialProfile


class CNFW(RadialProfile):
    profile_name = 'CNFW'
    param_names = ["Rs", "alpha_Rs", "r_core", "center_x", "center_y"]

    def _scale(self, Rs, rho0, r_core):
        return Rs

    def alpha2rho0(self, alpha_Rs, Rs, r_core):
        return alpha_Rs / (self.mass_2d(Rs, Rs, 1.0, r_core) / np.pi / Rs)

    _alpha2rho0 = alpha2rho0

    def _to_3d(self, Rs, alpha_Rs, r_core):
        return Rs, self.alpha2rho0(alpha_Rs, Rs, r_core), r_core

    def density(self, R, Rs, rho0, r_core, center_x=0, center_y=0):
        return rho0 * Rs ** 3 * ((r_core + R) * (R + Rs) ** 2) ** -1

    def mass_3d(self, R, Rs, rho0, r_core):
        b = r_core * Rs ** -1
        x = R * Rs ** -1
        M0 = 4 * np.pi * rho0 * Rs ** 3
        return M0 * (x * (1 + x) ** -1 * (-1 + b) ** -1
                     + (-1 + b) ** -2 * ((2 * b - 1) * np.log(1 / (1 + x)) + b ** 2 * np.log(x / b + 1)))
