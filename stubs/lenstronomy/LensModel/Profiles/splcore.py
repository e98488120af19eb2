import numpy as np
from scipy.special import hyp2f1, gamma as _G
from lenstronomy.LensModel.Profiles._base import RadialProfile


class SPLCORE(RadialProfile):
    profile_name = 'SPL_CORE'
    param_names = ["sigma0", "r_core", "gamma", "center_x", "center_y"]

    def _scale(self, rho0, r_core, gamma):
        return r_core

    def _to_3d(self, sigma0, r_core, gamma):
        return sigma0 / r_core, r_core, gamma

    def density(self, r, rho0, r_core, gamma):
        return rho0 * r_core ** gamma / (r_core ** 2 + r ** 2) ** (gamma / 2)

    def mass_3d(self, r, rho0, r_core, gamma):
        return 4 * np.pi * rho0 * r ** 3 / 3 * hyp2f1(1.5, gamma / 2, 2.5, -(r / r_core) ** 2)

    def density_2d(self, x, y, rho0, r_core, gamma):
        s = np.sqrt(np.pi) * _G((gamma - 1) / 2) / _G(gamma / 2) * rho0 * r_core ** gamma
        R2 = np.asarray(x) ** 2 + np.asarray(y) ** 2
        return s / (r_core ** 2 + R2) ** ((gamma - 1) / 2)
