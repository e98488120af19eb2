import numpy as np
from lenstronomy.LensModel.Profiles._base import RadialProfile


class SIS(RadialProfile):
    profile_name = 'SIS'
    param_names = ["theta_E", "center_x", "center_y"]

    def _scale(self, rho0):
        return 1.0

    def _to_3d(self, theta_E):
        return (theta_E / 2 / np.pi,)

    def density(self, r, rho0):
        return rho0 / r ** 2

    def mass_3d(self, r, rho0):
        return 4 * np.pi * rho0 * r

    def mass_2d(self, r, rho0):
        return 2 * np.pi ** 2 * rho0 * r

    def density_2d(self, x, y, rho0, center_x=0, center_y=0):
        return np.pi * rho0 / np.maximum(np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2), 1e-9)
