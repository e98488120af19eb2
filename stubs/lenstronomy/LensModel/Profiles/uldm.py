import numpy as np
from scipy.special import gamma as _G
from lenstronomy.LensModel.Profiles._base import RadialProfile


class Uldm(RadialProfile):
    profile_name = 'ULDM'
    param_names = ["kappa_0", "theta_c", "slope", "center_x", "center_y"]

    def _scale(self, rho0, theta_c, slope=8):
        return theta_c

    @staticmethod
    def rhotilde(kappa_0, theta_c, slope=8):
        a = np.sqrt(0.5 ** (-1.0 / slope) - 1)
        return kappa_0 * _G(slope) / _G(slope - 0.5) * a / (np.sqrt(np.pi) * theta_c)

    def _to_3d(self, kappa_0, theta_c, slope=8):
        return self.rhotilde(kappa_0, theta_c, slope), theta_c, slope

    def density(self, R, rho0, theta_c, slope=8):
        a2 = 0.5 ** (-1.0 / slope) - 1
        return rho0 / (1 + a2 * (R / theta_c) ** 2) ** slope
