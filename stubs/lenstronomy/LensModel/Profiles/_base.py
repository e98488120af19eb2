import numpy as np

# log-spaced nodes for the numerical projections
_M2D = {}      # values of a pure function, kept for speed
_U = np.linspace(np.log(1e-7), np.log(1e5), 700)


class RadialProfile(object):
    """Spherical profile with a 3-D density; projections are numerical unless overridden.
    Subclasses define density(r, *p3) and _to_3d(*lens) -> p3, and the index of the scale radius."""

    def _scale(self, *p3):
        raise NotImplementedError

    def density(self, r, *p3):
        raise NotImplementedError

    def mass_3d(self, r, *p3):
        r = np.asarray(r, dtype=float)
        rr = np.atleast_1d(r)
        t = np.logspace(-7, 0, 900)
        out = []
        for ri in rr.ravel():
            x = t * ri
            out.append(np.trapezoid(4 * np.pi * x ** 3 * self.density(x, *p3), np.log(x)))
        out = np.array(out).reshape(rr.shape)
        return float(out[0]) if r.ndim == 0 else out

    def _sigma(self, R, *p3):
        R = np.asarray(R, dtype=float)
        z = np.exp(_U) * self._scale(*p3)
        rr = np.sqrt(R[..., None] ** 2 + z ** 2)
        val = 2 * np.trapezoid(z * self.density(rr, *p3), _U, axis=-1)
        return val + 2 * z[0] * self.density(rr[..., 0], *p3)

    def density_2d(self, x, y, *p3, center_x=0, center_y=0):
        R = np.sqrt((np.asarray(x, dtype=float) - center_x) ** 2 + (np.asarray(y, dtype=float) - center_y) ** 2)
        R = np.maximum(R, 1e-9)
        out = self._sigma(np.atleast_1d(R), *p3)
        return float(out[0]) if R.ndim == 0 else out

    def mass_2d(self, R, *p3):
        R = np.asarray(R, dtype=float)
        if R.ndim == 0 and all(np.ndim(p) == 0 for p in p3):
            key = (type(self).__name__, float(R)) + tuple(float(p) for p in p3)
            if key not in _M2D:
                if len(_M2D) > 4096:
                    _M2D.clear()
                _M2D[key] = self._mass_2d(R, *p3)
            return _M2D[key]
        return self._mass_2d(R, *p3)

    def _mass_2d(self, R, *p3):
        R = np.asarray(R, dtype=float)
        Ra = np.atleast_1d(R)
        t = np.logspace(-5, 0, 300)
        out = []
        for ri in Ra.ravel():
            x = t * ri
            s = self._sigma(x, *p3)
            out.append(np.trapezoid(2 * np.pi * x ** 2 * s, np.log(x)) + np.pi * x[0] ** 2 * s[0])
        out = np.array(out).reshape(Ra.shape)
        return float(out[0]) if R.ndim == 0 else out

    # ---- lensing conventions -------------------------------------------
    def _to_3d(self, *lens):
        raise NotImplementedError

    def density_lens(self, r, *lens, **kw):
        return self.density(r, *self._to_3d(*lens, **kw))

    def mass_3d_lens(self, r, *lens, **kw):
        return self.mass_3d(r, *self._to_3d(*lens, **kw))

    def mass_2d_lens(self, r, *lens, **kw):
        return self.mass_2d(r, *self._to_3d(*lens, **kw))

    def _alpha_radial(self, R, *p3):
        if np.size(R) > 30:
            # smooth function: evaluate on a log grid and interpolate
            Rf = np.asarray(R, dtype=float)
            g = np.logspace(np.log10(max(Rf.min(), 1e-9)), np.log10(Rf.max() * 1.0001 + 1e-9), 60)
            return np.interp(np.log(np.maximum(Rf, 1e-9)), np.log(g), self.mass_2d(g, *p3) / np.pi / g)
        return self.mass_2d(R, *p3) / np.pi / R

    def derivatives(self, x, y, *lens, center_x=0, center_y=0, **kw):
        p3 = self._to_3d(*lens, **kw)
        x = np.asarray(x, dtype=float) - center_x
        y = np.asarray(y, dtype=float) - center_y
        R = np.maximum(np.sqrt(x ** 2 + y ** 2), 1e-9)
        a = self._alpha_radial(R, *p3)
        return a * x / R, a * y / R

    def hessian(self, x, y, *lens, center_x=0, center_y=0, **kw):
        p3 = self._to_3d(*lens, **kw)
        x = np.asarray(x, dtype=float) - center_x
        y = np.asarray(y, dtype=float) - center_y
        R = np.maximum(np.sqrt(x ** 2 + y ** 2), 1e-9)
        kappa = self.density_2d(R, np.zeros_like(R), *p3)
        mean = self._alpha_radial(R, *p3) / R
        gam = mean - kappa
        c2 = (x ** 2 - y ** 2) / R ** 2
        s2 = 2 * x * y / R ** 2
        fxx = kappa - gam * c2
        fyy = kappa + gam * c2
        fxy = -gam * s2
        return fxx, fxy, fxy, fyy
