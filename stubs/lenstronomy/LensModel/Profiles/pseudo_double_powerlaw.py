import numpy as np
from scipy.special import hyp2f1
from lenstronomy.LensModel.Profiles._base import RadialProfile


class PseudoDoublePowerlaw(RadialProfile):
    profile_name = 'PSEUDO_DPL'
    param_names = ["Rs", "alpha_Rs", "gamma_inner", "gamma_outer", "center_x", "center_y"]

    def _scale(self, Rs, *a):
        return Rs

    def density(self, r, Rs, rho0, gamma_inner, gamma_outer):
        x = r / Rs
        return rho0 / (x ** gamma_inner * (1 + x ** 2) ** ((gamma_outer - gamma_inner) / 2))

    def mass_3d(self, r, Rs, rho0, gamma_inner, gamma_outer):
        x = r / Rs
        gi, go = gamma_inner, gamma_outer
        return 4 * np.pi * rho0 * Rs ** 3 * x ** (3 - gi) / (3 - gi) * hyp2f1(
            (3 - gi) / 2, (go - gi) / 2, (5 - gi) / 2, -x ** 2)

    def alpha2rho0(self, alpha_Rs, Rs, gamma_inner, gamma_outer):
        return alpha_Rs / self.rho02alpha(1.0, Rs, gamma_inner, gamma_outer)

    def rho02alpha(self, rho0, Rs, gamma_inner, gamma_outer):
        return rho0 * self.mass_2d(Rs, Rs, 1.0, gamma_inner, gamma_outer) / np.pi / Rs

    def _to_3d(self, Rs, alpha_Rs, gamma_inner, gamma_outer):
        return Rs, self.alpha2rho0(alpha_Rs, Rs, gamma_inner, gamma_outer), gamma_inner, gamma_outer
