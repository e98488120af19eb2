import numpy as np
from lenstronomy.Cosmo.nfw_param import NFWParam
from lenstronomy.Util import constants as const


class LensCosmo(object):
    def __init__(self, z_lens, z_source, cosmo=None):
        if cosmo is None:
            from astropy.cosmology import default_cosmology
            cosmo = default_cosmology.get()
        self.z_lens, self.z_source = z_lens, z_source
        self.background = type("B", (), {"cosmo": cosmo})()
        self._cosmo = cosmo
        self.nfw_param = NFWParam(cosmo)
        self.h = cosmo.H(0).value / 100.0

    def _D(self, a, b):
        return float(self._cosmo.angular_diameter_distance_z1z2(a, b).value)

    @property
    def dd(self):
        return self._D(0, self.z_lens)

    @property
    def ds(self):
        return self._D(0, self.z_source)

    @property
    def dds(self):
        return self._D(self.z_lens, self.z_source)

    @property
    def sigma_crit(self):
        factor = const.c ** 2 / (4 * np.pi * const.G) * const.Mpc / const.M_sun
        return self.ds / (self.dd * self.dds) * factor

    @property
    def sigma_crit_angle(self):
        return self.sigma_crit * (self.dd * const.arcsec) ** 2

    def sis_sigma_v2theta_E(self, v_sigma):
        return 4 * np.pi * (v_sigma * 1000.0 / const.c) ** 2 * self.dds / self.ds / const.arcsec

    def nfwParam_physical(self, M, c):
        r200 = self.nfw_param.r200_M(M * self.h, self.z_lens) / self.h
        rho0 = self.nfw_param.rho0_c(c, self.z_lens) * self.h ** 2
        return rho0, r200 / c, r200

    def nfw_physical2angle(self, M, c):
        rho0, Rs, r200 = self.nfwParam_physical(M, c)
        Rs_angle = Rs / self.dd / const.arcsec
        alpha_Rs = rho0 * (4 * Rs ** 2 * (1.0 + np.log(1.0 / 2.0)))
        return Rs_angle, alpha_Rs / self.sigma_crit / self.dd / const.arcsec

    def nfw_angle2physical(self, Rs_angle, alpha_Rs):
        Rs = Rs_angle * const.arcsec * self.dd
        theta_scaled = alpha_Rs * self.sigma_crit * self.dd * const.arcsec
        rho0 = theta_scaled / (4 * Rs ** 2 * (1 + np.log(1.0 / 2.0)))
        # invert rho0_c numerically
        from scipy.optimize import brentq
        c = brentq(lambda lc: self.nfw_param.rho0_c(np.exp(lc), self.z_lens) * self.h ** 2 - rho0,
                   np.log(0.01), np.log(1e4))
        c = np.exp(c)
        r200 = c * Rs
        M200 = 4 * np.pi * rho0 * Rs ** 3 * (np.log(1.0 + c) - c / (1.0 + c))
        return rho0, Rs, c, r200, M200
