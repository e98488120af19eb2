import numpy as np
from lenstronomy.LensModel.Profiles._base import RadialProfile


class PseudoJaffe(RadialProfile):
    profile_name = 'PJAFFE'
    param_names = ["sigma0", "Ra", "Rs", "center_x", "center_y"]

    def _scale(self, rho0, Ra, Rs):
        return Rs

    def _to_3d(self, sigma0, Ra, Rs):
        return self.sigma2rho(sigma0, Ra, Rs), Ra, Rs

    def density(self, r, rho0, Ra, Rs):
        return rho0 / ((1 + (r / Ra) ** 2) * (1 + (r / Rs) ** 2))

    @staticmethod
    def rho2sigma(rho0, Ra, Rs):
        return np.pi * rho0 * Ra * Rs / (Rs + Ra)

    @staticmethod
    def sigma2rho(sigma0, Ra, Rs):
        return (Ra + Rs) / Ra / Rs / np.pi * sigma0

    def mass_3d(self, r, rho0, Ra, Rs):
        return 4 * np.pi * rho0 * Ra ** 2 * Rs ** 2 / (Rs ** 2 - Ra ** 2) * (
            Rs * np.arctan(r / Rs) - Ra * np.arctan(r / Ra))

    def mass_2d(self, r, rho0, Ra, Rs):
        sigma0 = self.rho2sigma(rho0, Ra, Rs)
        return 2 * np.pi * sigma0 * Ra * Rs / (Rs - Ra) * (
            np.sqrt(Ra ** 2 + r ** 2) - Ra - np.sqrt(Rs ** 2 + r ** 2) + Rs)
