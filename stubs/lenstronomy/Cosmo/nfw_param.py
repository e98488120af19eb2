import numpy as np


class NFWParam(object):
    """M_sun/h and h^2 Msun / Mpc^3 units, as in lenstronomy."""

    def __init__(self, cosmo=None):
        if cosmo is None:
            from astropy.cosmology import default_cosmology
            cosmo = default_cosmology.get()
        self.cosmo = cosmo
        self.rhoc = 2.77536627e11  # h^2 Msun / Mpc^3

    def rhoc_z(self, z):
        return self.rhoc * (self.cosmo.efunc(z)) ** 2

    def M200(self, rs, rho0, c):
        return 4 * np.pi * rho0 * rs ** 3 * (np.log(1.0 + c) - c / (1.0 + c))

    def r200_M(self, M, z):
        return (3 * M / (4 * np.pi * self.rhoc_z(z) * 200)) ** (1.0 / 3.0)

    def rN_M(self, M, z, N):
        return (3 * M / (4 * np.pi * self.rhoc_z(z) * N)) ** (1.0 / 3.0)

    def M_r200(self, r200, z):
        return self.rhoc_z(z) * 200 * r200 ** 3 * 4 * np.pi / 3.0

    def rho0_c(self, c, z):
        return 200.0 / 3 * self.rhoc_z(z) * c ** 3 / (np.log(1 + c) - c / (1 + c))
