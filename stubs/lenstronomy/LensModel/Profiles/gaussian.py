import numpy as np
from lenstronomy.LensModel.Profiles._base import RadialProfile


class Gaussian(RadialProfile):
    profile_name = 'GAUSSIAN'
    param_names = ["amp", "sigma", "center_x", "center_y"]

    def _scale(self, amp, sigma):
        return sigma

    def _to_3d(self, amp, sigma):
        return amp / np.sqrt(2 * np.pi) / sigma, sigma

    def density(self, r, amp, sigma):
        return amp / (2 * np.pi * sigma ** 2) * np.exp(-np.asarray(r) ** 2 / 2.0 / sigma ** 2)

    def density_2d(self, x, y, amp, sigma, center_x=0, center_y=0):
        R2 = (np.asarray(x) - center_x) ** 2 + (np.asarray(y) - center_y) ** 2
        return amp * np.sqrt(2 * np.pi) * sigma / (2 * np.pi * sigma ** 2) * np.exp(-R2 / 2.0 / sigma ** 2)
