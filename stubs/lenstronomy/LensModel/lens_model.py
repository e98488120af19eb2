import numpy as np


class _Shear(object):
    def derivatives(self, x, y, gamma1, gamma2, ra_0=0, dec_0=0):
        x, y = x - ra_0, y - dec_0
        return gamma1 * x + gamma2 * y, gamma2 * x - gamma1 * y

    def hessian(self, x, y, gamma1, gamma2, ra_0=0, dec_0=0):
        o = np.ones_like(x)
        return gamma1 * o, gamma2 * o, gamma2 * o, -gamma1 * o


class _Convergence(object):
    def derivatives(self, x, y, kappa, ra_0=0, dec_0=0, **kw):
        return kappa * (x - ra_0), kappa * (y - dec_0)

    def hessian(self, x, y, kappa, ra_0=0, dec_0=0, **kw):
        o = np.ones_like(x)
        return kappa * o, 0 * o, 0 * o, kappa * o


class _PointMass(object):
    def derivatives(self, x, y, theta_E, center_x=0, center_y=0):
        dx, dy = x - center_x, y - center_y
        r2 = np.maximum(dx ** 2 + dy ** 2, 1e-18)
        return theta_E ** 2 * dx / r2, theta_E ** 2 * dy / r2

    def hessian(self, x, y, theta_E, center_x=0, center_y=0):
        dx, dy = x - center_x, y - center_y
        r2 = np.maximum(dx ** 2 + dy ** 2, 1e-18)
        a = theta_E ** 2 * (dy ** 2 - dx ** 2) / r2 ** 2
        b = -2 * theta_E ** 2 * dx * dy / r2 ** 2
        return a, b, b, -a


class _EPL(object):
    """elliptical power law (Tessore & Metcalf 2015)."""

    def derivatives(self, x, y, theta_E, gamma, e1, e2, center_x=0, center_y=0):
        phi = np.arctan2(e2, e1) / 2
        c = min(np.sqrt(e1 ** 2 + e2 ** 2), 0.9999)
        q = (1 - c) / (1 + c)
        t = gamma - 1
        b = theta_E * np.sqrt(q)
        dx, dy = x - center_x, y - center_y
        xr, yr = np.cos(phi) * dx + np.sin(phi) * dy, -np.sin(phi) * dx + np.cos(phi) * dy
        R = np.maximum(np.sqrt((q * xr) ** 2 + yr ** 2), 1e-9)
        ph = np.arctan2(yr, q * xr)
        f = (1 - q) / (1 + q)
        om = np.exp(1j * ph)
        tot, term = om.copy(), om.copy()
        for n in range(1, 60):
            term = -f * (2 * n - (2 - t)) / (2 * n + (2 - t)) * np.exp(2j * ph) * term
            tot = tot + term
        al = 2 * b / (1 + q) * (b / R) ** (t - 1) * tot * np.exp(1j * phi)
        return al.real, al.imag

    hessian = None


def _profiles():
    from lenstronomy.LensModel.Profiles import (nfw, tnfw, cnfw, nfw_core_truncated, pseudo_double_powerlaw, splcore,
                                                uldm, gaussian, pseudo_jaffe, sis, core_collapsed_halo,
                                                core_collapsed_halo_bh)
    return {'NFW': nfw.NFW, 'TNFW': tnfw.TNFW, 'CNFW': cnfw.CNFW, 'TNFWC': nfw_core_truncated.TNFWC,
            'PSEUDO_DPL': pseudo_double_powerlaw.PseudoDoublePowerlaw, 'SPL_CORE': splcore.SPLCORE,
            'ULDM': uldm.Uldm, 'GAUSSIAN': gaussian.Gaussian, 'PJAFFE': pseudo_jaffe.PseudoJaffe, 'SIS': sis.SIS,
            'CORE_COLLAPSED_HALO': core_collapsed_halo.CoreCollapsedHalo,
            'CORE_COLLAPSED_HALO_BH': core_collapsed_halo_bh.CoreCollapsedHaloBH,
            'SHEAR': _Shear, 'CONVERGENCE': _Convergence, 'POINT_MASS': _PointMass, 'EPL': _EPL}


class LensModel(object):
    def __init__(self, lens_model_list, z_lens=None, z_source=None, lens_redshift_list=None, cosmo=None,
                 multi_plane=False, **kwargs):
        profs = _profiles()
        for name in lens_model_list:
            if name not in profs:
                raise ValueError('%s is not a valid lens model!' % name)
        self.lens_model_list = list(lens_model_list)
        self._p = [profs[n]() for n in lens_model_list]
        self.lens_model = self  # lenstronomy nests the implementation object
        if cosmo is None and multi_plane:
            from astropy.cosmology import default_cosmology
            cosmo = default_cosmology.get()
        self.multi_plane = multi_plane
        self.redshift_list = lens_redshift_list
        self.z_source = z_source
        self._cosmo = cosmo
        if multi_plane:
            zs = np.unique(np.round(np.asarray(lens_redshift_list, dtype=float), 8))
            self._zs = zs
            D = lambda a, b: cosmo.angular_diameter_distance_z1z2(a, b).value
            grid = list(zs) + [z_source]
            self._T = [cosmo.comoving_transverse_distance(z).value for z in grid]
            self._Ts = self._T[-1]
            self._red = [float(D(0, z_source) / D(z, z_source)) for z in zs]
            self._cosmo = cosmo
            self._idx = [np.where(np.isclose(np.asarray(lens_redshift_list, dtype=float), z, atol=1e-7))[0] for z in zs]

    @staticmethod
    def _kw(prof, kw):
        return kw

    def _alpha(self, x, y, kwargs, which=None):
        ax, ay = np.zeros_like(x, dtype=float), np.zeros_like(y, dtype=float)
        for i in (range(len(self._p)) if which is None else which):
            names = getattr(self._p[i], 'param_names', None)
            kw = dict(kwargs[i])
            if names is not None:
                cen = {k: kw.pop(k) for k in ('center_x', 'center_y') if k in kw}
                a, b = self._p[i].derivatives(x, y, *[kw[n] for n in names if n in kw], **cen)
            else:
                a, b = self._p[i].derivatives(x, y, **kw)
            ax, ay = ax + a, ay + b
        return ax, ay

    def alpha(self, x, y, kwargs):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        if not self.multi_plane:
            return self._alpha(x, y, kwargs)
        bx, by = self.ray_shooting(x, y, kwargs)
        return x - bx, y - by

    def ray_shooting(self, x, y, kwargs):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        if not self.multi_plane:
            a, b = self._alpha(x, y, kwargs)
            return x - a, y - b
        px, py = np.zeros_like(x), np.zeros_like(y)
        ax, ay = x.copy(), y.copy()
        T0 = 0.0
        for j, z in enumerate(self._zs):
            T = self._T[j]
            px, py = px + ax * (T - T0), py + ay * (T - T0)
            T0 = T
            a, b = self._alpha(px / T, py / T, kwargs, self._idx[j])
            ax, ay = ax - a * self._red[j], ay - b * self._red[j]
        px, py = px + ax * (self._Ts - T0), py + ay * (self._Ts - T0)
        return px / self._Ts, py / self._Ts

    def ray_shooting_partial_comoving(self, x, y, alpha_x, alpha_y, z_start, z_stop, kwargs_lens, **kw):
        """comoving position and angle after propagating from z_start (0) to z_stop; deflectors at z<z_stop only"""
        px, py = np.asarray(x, dtype=float) + 0.0, np.asarray(y, dtype=float) + 0.0
        ax, ay = np.asarray(alpha_x, dtype=float) + 0.0, np.asarray(alpha_y, dtype=float) + 0.0
        Tc = lambda z: 0.0 if z <= 0 else self._cosmo.comoving_transverse_distance(z).value
        T0 = Tc(z_start)
        for j, z in enumerate(self._zs):
            if z < z_start or z >= z_stop:
                continue
            T = self._T[j]
            px, py = px + ax * (T - T0), py + ay * (T - T0)
            T0 = T
            a, b = self._alpha(px / T, py / T, kwargs_lens, self._idx[j])
            ax, ay = ax - a * self._red[j], ay - b * self._red[j]
        T = Tc(z_stop)
        return px + ax * (T - T0), py + ay * (T - T0), ax, ay

    def hessian(self, x, y, kwargs, diff=None):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        if not self.multi_plane and all(getattr(p, "hessian", None) is not None for p in self._p) and diff is None:
            out = [np.zeros_like(x) for _ in range(4)]
            for i, p in enumerate(self._p):
                kw = dict(kwargs[i])
                names = getattr(p, 'param_names', None)
                if names is not None:
                    cen = {k: kw.pop(k) for k in ('center_x', 'center_y') if k in kw}
                    h = p.hessian(x, y, *[kw[n] for n in names if n in kw], **cen)
                else:
                    h = p.hessian(x, y, **kw)
                out = [a + b for a, b in zip(out, h)]
            return tuple(out)
        d = diff or 1e-5
        a1, b1 = self.alpha(x + d, y, kwargs)
        a0, b0 = self.alpha(x - d, y, kwargs)
        c1, e1 = self.alpha(x, y + d, kwargs)
        c0, e0 = self.alpha(x, y - d, kwargs)
        return (a1 - a0) / 2 / d, (c1 - c0) / 2 / d, (b1 - b0) / 2 / d, (e1 - e0) / 2 / d

    def kappa(self, x, y, kwargs, diff=None):
        fxx, _, _, fyy = self.hessian(x, y, kwargs, diff)
        return 0.5 * (fxx + fyy)
