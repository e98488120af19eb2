import numpy as np
from lenstronomy.LensModel.Profiles.tnfw import TNFW


class CoreCollapsedHaloBH(object):
    param_names = ["Rs_outer", "theta_E_inner", "alpha_Rs_outer", "r_trunc", "center_x", "center_y"]

    def __init__(self):
        self._tnfw = TNFW()

    def derivatives(self, x, y, Rs_outer, theta_E_inner, alpha_Rs_outer, r_trunc, center_x=0, center_y=0):
        a, b = self._tnfw.derivatives(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x=center_x, center_y=center_y)
        dx, dy = np.asarray(x) - center_x, np.asarray(y) - center_y
        R2 = np.maximum(dx ** 2 + dy ** 2, 1e-18)
        return a + theta_E_inner ** 2 * dx / R2, b + theta_E_inner ** 2 * dy / R2
