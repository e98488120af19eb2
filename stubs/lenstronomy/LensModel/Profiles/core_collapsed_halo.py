from lenstronomy.LensModel.Profiles.tnfw import TNFW
from lenstronomy.LensModel.Profiles.pseudo_double_powerlaw import PseudoDoublePowerlaw


class CoreCollapsedHalo(object):
    param_names = ["Rs_inner", "Rs_outer", "alpha_Rs_inner", "alpha_Rs_outer", "r_trunc", "gamma_inner",
                   "gamma_outer", "center_x", "center_y"]

    def __init__(self):
        self._tnfw, self._gnfw = TNFW(), PseudoDoublePowerlaw()

    def derivatives(self, x, y, Rs_inner, Rs_outer, alpha_Rs_inner, alpha_Rs_outer, r_trunc, gamma_inner,
                    gamma_outer, center_x=0, center_y=0):
        a, b = self._tnfw.derivatives(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x=center_x, center_y=center_y)
        c, d = self._gnfw.derivatives(x, y, Rs_inner, alpha_Rs_inner, gamma_inner, gamma_outer,
                                      center_x=center_x, center_y=center_y)
        return a + c, b + d

    def hessian(self, x, y, Rs_inner, Rs_outer, alpha_Rs_inner, alpha_Rs_outer, r_trunc, gamma_inner,
                gamma_outer, center_x=0, center_y=0):
        a = self._tnfw.hessian(x, y, Rs_outer, alpha_Rs_outer, r_trunc, center_x=center_x, center_y=center_y)
        c = self._gnfw.hessian(x, y, Rs_inner, alpha_Rs_inner, gamma_inner, gamma_outer,
                               center_x=center_x, center_y=center_y)
        return tuple(i + j for i, j in zip(a, c))
