import numpy as np
from lenstronomy.LensModel.Profiles._base import RadialProfile


class TNFWC(RadialProfile):
    """rho = rho0 / ( sqrt(x^2+b^2) (1+x^2) ) * t^2/(t^2+x^2), x=r/Rs"""
    profile_name = 'TNFWC'
    param_names = ["Rs", "alpha_Rs", "r_core", "r_trunc", "center_x", "center_y"]
    _cache = {}

    def _scale(self, Rs, rho0, r_core, r_trunc):
        return Rs

    def alpha2rho0(self, alpha_Rs, Rs, r_core, r_trunc):
        # x = R/Rs scaling: alpha(Rs) for rho0=1 equals Rs^2 * f(b, t)
        b, t = float(r_core / Rs), float(r_trunc / Rs)
        y = np.logspace(-4, 0, 60)
        u = np.linspace(np.log(1e-5), np.log(1e4), 240)
        z = np.exp(u)
        rr = np.sqrt(y[:, None] ** 2 + z ** 2)
        rho = 1.0 / (np.sqrt(rr ** 2 + b ** 2) * (1 + rr ** 2)) * t ** 2 / (t ** 2 + rr ** 2)
        s = 2 * np.trapezoid(z * rho, u, axis=1) + 2 * z[0] * rho[:, 0]
        m = np.trapezoid(2 * np.pi * y ** 2 * s, np.log(y)) + np.pi * y[0] ** 2 * s[0]
        return alpha_Rs / (m / np.pi * Rs ** 2)

    def _to_3d(self, Rs, alpha_Rs, r_core, r_trunc):
        return Rs, self.alpha2rho0(alpha_Rs, Rs, r_core, r_trunc), r_core, r_trunc

    @staticmethod
    def density(r, Rs, rho0, r_core, r_trunc):
        x, b, t = r / Rs, r_core / Rs, r_trunc / Rs
        return rho0 / (np.sqrt(x ** 2 + b ** 2) * (1 + x ** 2)) * t ** 2 / (t ** 2 + x ** 2)
