"""A simulated user session on realizations: worlds built from JSON, operations applied one at a time."""
import copy, pickle
import numpy as np
from scipy.interpolate import interp1d
from sim import worlds as W
from sim import rng
from sim.core import plain, same, Violation, INJECTED

GEO = {}


def gen_world(r, nmin=3, nmax=14, mdefs=('TNFW',), **kw):
    zl, zs = r.choice([(0.5, 1.5), (0.3, 1.2), (0.8, 2.0)])
    w = dict(zl=zl, zs=zs, cosmo=r.choice([0, 0, 0, 1]), tsub=r.choice([0, 0, 1, 2, 4, 5]), tfield=r.choice([0, 0, 1, 2, 5]),
             csub=r.choice([0, 1]), cfield=r.choice([0, 1]), scatter=r.random() < 0.7,
             rc=r.random() < 0.5, norm=0.3, sheets=r.random() < 0.7, angle=r.choice([3.0, 4.0, 6.0]))
    w['halos'] = W.gen_halos(r, r.randint(nmin, nmax), zl, zs, list(mdefs))
    w.update(kw)
    return w


class Session:
    """pool of realizations built from one world; operations append to it"""
    def __init__(self, w):
        self.w = w
        self.lc = W.lens_cosmo(w['zl'], w['zs'], w['cosmo'])
        self.geo = W.geometry(self.lc, w.get('angle', 4.0))
        self.model = W.halo_model(self.lc, w['tsub'], w['tfield'], w['csub'], w['cfield'], w['scatter'])
        self.rc = W.rendering_classes(self.lc, self.geo, w['zl'], w['zs'], w.get('norm', 0.3)) if w.get('rc') else None
        self.pool = [W.realization(self.lc, w['halos'], self.model, self.geo, self.rc, w.get('sheets', True) and self.rc is not None)]
        self.shifted = [None]          # ray applied to the members of the pool
        self.dmax = self.lc.cosmo.D_C_z(w['zs'])

    def ray(self, spec):
        """angular path: spec = [ax, bx, ay, by]; angle = a + b * (D / Dsource)"""
        ax, bx, ay, by = spec
        d = np.linspace(0.0, self.dmax * 1.001, 60)
        return interp1d(d, ax + bx * d / self.dmax), interp1d(d, ay + by * d / self.dmax)

    @staticmethod
    def ray_at(spec, t):
        ax, bx, ay, by = spec
        return ax + bx * t, ay + by * t

    def pick(self, i):
        return self.pool[i % len(self.pool)]

    def thresh(self, real, logm):
        return logm


def gen_ray(r, scale=1.0):
    return [round(r.uniform(-scale, scale), 3) if r.random() < 0.7 else 0.0 for _ in range(4)]


# ------------------------------------------------------------------ realization extensions
def gen_ext(r, w, kinds=None):
    """JSON description of one extension call"""
    k = r.choice(kinds or ['collapse', 'collapse', 'collapse_by_mass', 'sidm_list', 'sidm_timescale', 'sidm_xsec', 'cored', 'sis', 'bh', 'gc',
                           'uldm', 'pbh', 'corr'])
    e = dict(ext=k)
    n = max(1, len(w['halos']))
    idx = sorted(r.sample(range(n), r.randint(0, min(n, 5))))
    if k == 'collapse':
        e.update(idx=idx, profile=r.choice(['TNFWC', 'SPL_CORE', 'GNFW', 'CC_COMPOSITE', 'CC_BH']))
    elif k == 'collapse_by_mass':
        ranges = r.choice([[[6, 8], [8, 10]], [[5, 11]], [[7, 9]], [[8.0, 9.0], [6.0, 8.0]], [[6, 9], [7.5, 10]], [[5, 11], [7, 11]], []])
        rf = r.choice([[[6, 8], [8, 10]], [[5, 11]], [[6, 9], [7.5, 10]], [[5, 11], [7, 11]], []])
        e.update(rs=ranges, rf=rf, ps=[r.choice([0.0, 0.5, 1.0]) for _ in ranges], pf=[r.choice([0.0, 0.5, 1.0]) for _ in rf],
                 fn=r.random() < 0.3, profile=r.choice(['TNFWC', 'SPL_CORE', 'GNFW']))
    elif k == 'sidm_list':
        e.update(mode=r.choice(['tc', 'tovertc', 'xcore', 'xcore_cc']), tc=10 ** r.uniform(-2, 3), scaling=r.choice([1.0, 5.0]), x=r.choice([0.02, 0.1]),
                 evolving=r.random() < 0.6, prob=r.choice([0.0, 0.5, 1.0]), profile=r.choice(['TNFWC', 'TNFWC', 'CC_COMPOSITE']), tovertc=r.choice([0.05, 0.5, 2.0]),
                 gamma=r.choice([2.6, 2.6, -1.0]))
    elif k == 'sidm_timescale':
        e.update(tc=[round(r.uniform(-2, 3), 2), round(r.uniform(-2, 3), 2)], sig=r.choice([None, [0.2, 0.3], [0.0, 0.0]]), scaling=r.choice([0.0, 1.0]),
                 evolving=r.random() < 0.6, prob=r.choice([0.0, 0.5, 1.0]), profile=r.choice(['TNFWC', 'TNFWC', 'CC_COMPOSITE']), x=0.05)
    elif k == 'sidm_xsec':
        e.update(xs=[round(r.uniform(-1, 3), 2), round(r.uniform(-1, 3), 2)], scaling=r.choice([0.0, 1.0]), evolving=r.random() < 0.6,
                 prob=r.choice([0.0, 0.5, 1.0]), profile=r.choice(['TNFWC', 'TNFWC', 'CC_COMPOSITE']), x=0.05, fn=r.random() < 0.3)
    elif k == 'cored':
        e.update(idx=idx, profile=r.choice(['CNFW', 'TNFWC']), beta=r.choice([0.05, 0.3]))
    elif k == 'sis':
        e.update(thr=10 ** r.choice([7.0, 8.0, 9.0, 12.0]), model=r.choice(['GNFW', 'SIS']))
    elif k == 'bh':
        e.update(ratio=r.choice([-2.0, -3.0, -0.5]), f=r.choice([0.0, 0.3, 1.0]), subres=5.5, minbh=r.choice([3.0, 4.5, 5.5]), maxbh=r.choice([5.0, 6.7]),
                 los=r.choice([0.0, 0.3]))
    elif k == 'gc':
        e.update(mean=r.choice([4.5, 5.3]), sig=r.choice([0.0, 0.3, 0.6]), rad=r.choice([0.05, 0.15]), profile=r.choice(['SPL_CORE', 'PTMASS']),
                 cx=r.choice([0, 0.3, [0.1, -0.4], [0.5]]), rho=r.choice([5.6, 4.0]))
    elif k == 'uldm':
        e.update(lam=0.3, amp=0.02, size=0.1, var=0.02, ncut=r.choice([3, 1000]), scale=r.choice([0.002, 0.01, 0.0, 0.00001]),
                 shape=r.choice(['ring', 'ellipse', 'aperture', 'aperture']), rescale=r.random() < 0.6)
    elif k in ('pbh', 'corr'):
        e.update(frac=r.choice([0.0, 0.005, 0.03]) if k == 'pbh' else r.choice([0.0, 0.05, 0.3, 1.0]), logm=r.choice([5.0, 6.0]), inhalos=r.choice([0.0, 0.3, 1.0]), rays=[gen_ray(r, 0.5) for _ in range(r.randint(1, 2))],
                 rmax=r.choice([0.1, 0.25]), mf=r.choice(['DELTA', 'GAUSSIAN']), rescale=r.random() < 0.5, pois=r.random() < 0.7)
    return e


TRANSFORMS = ('collapse', 'collapse_by_mass', 'sidm_list', 'sidm_timescale', 'sidm_xsec', 'cored', 'sis')
ADDERS = ('gc', 'uldm', 'pbh', 'corr')


def uldm_args(e, s=None):
    if e['shape'] == 'ring': return dict(rmin=0.9, rmax=1.1)
    if e['shape'] == 'ellipse': return dict(amin=0.6, amax=1.0, bmin=0.4, bmax=0.7, angle=0.4)
    return dict(x_images=[0.5, -0.7], y_images=[0.1, 0.6], aperture=0.2)


def _prob(halo):
    return 1.0 if halo.mass > 1e8 else 0.0


def _tc(rhos, rs, sigma):
    return 1e3 / sigma


def applicable(real, e):
    """calls the documentation restricts to TNFW halos are only made on those"""
    if e['ext'] in ('sidm_list', 'sidm_timescale', 'sidm_xsec', 'sis'):
        return all(h.mdef == 'TNFW' and type(h).__name__ in ('TNFWSubhalo', 'TNFWFieldHalo') for h in real.halos)
    if e['ext'] == 'bh':
        return all(type(h)._pseudo_nfw is not None and type(h).__name__ not in ('BlackHole', 'GlobularCluster', 'GaussianHalo', 'Hybrid') for h in real.halos)
    if e['ext'] in ('pbh', 'corr'):
        return all(h.mass > 0 for h in real.halos)
    return True


def indices(real, e):
    """the indices an extension with an explicit list acts on (only TNFW halos can be transformed)"""
    return [i for i in e['idx'] if i < len(real.halos) and type(real.halos[i]).__name__ in ('TNFWSubhalo', 'TNFWFieldHalo')]


def build_ext(s, real, e):
    """(method name, args, kwargs) of an extension call, with argument objects made for this call only"""
    k = e['ext']
    if k == 'collapse':
        p = e['profile']
        kw = {'TNFWC': dict(x_core_halo=0.05), 'SPL_CORE': dict(log_slope_halo=-2.3, x_core_halo=0.1), 'GNFW': dict(gamma_inner=2.2, gamma_outer=3.2),
              'CC_COMPOSITE': dict(gamma_inner=2.6, scale_match_r=1.6, log_slope_match=-1.9),
              'CC_BH': dict(gamma_inner=-1.0, scale_match_r=1.6, log_slope_match=-1.9)}[p]
        return 'add_core_collapsed_halos', [indices(real, e), 'CC_COMPOSITE' if p == 'CC_BH' else p], kw
    if k == 'collapse_by_mass':
        ps, pf = list(e['ps']), list(e['pf'])
        if e['fn']: ps, pf = [_prob] * len(ps), [_prob] * len(pf)
        return 'core_collapse_by_mass', [[list(q) for q in e['rs']], [list(q) for q in e['rf']], ps, pf], {}
    if k == 'sidm_list':
        kw = dict(subhalo_evolution_scaling=e['scaling'], collapse_probability=e['prob'], evolving_profile=e['evolving'], gamma_inner=e['gamma'])
        if e['mode'] == 'tc': kw.update(t_c=e['tc'], halo_profile=e['profile'], x_core_halo=e['x'])
        elif e['mode'] == 'tovertc': kw.update(t_over_tc=e['tovertc'], evolving_profile=True)
        elif e['mode'] == 'xcore': kw.update(x_core_halo=e['x'])
        else: kw.update(halo_profile='CC_COMPOSITE')
        return 'toSIDM_halo_list', [list(real.halos)], kw
    if k == 'sidm_timescale':
        return 'toSIDM_from_timescale', [[[3, 8], [8, 14]], list(e['tc']), None if e['sig'] is None else list(e['sig']), e['scaling']], dict(
            evolving_SIDM_profile=e['evolving'], x_core_halo=e['x'], collapse_probability=e['prob'], halo_profile=e['profile'])
    if k == 'sidm_xsec':
        return 'toSIDM_from_cross_section', [[[3, 8], [8, 14]], list(e['xs']), e['scaling']], dict(
            evolving_SIDM_profile=e['evolving'], x_core_halo=e['x'], collapse_probability=e['prob'], halo_profile=e['profile'],
            sidm_timescale_function=_tc if e['fn'] else None)
    if k == 'cored':
        return 'add_cored_halos', [indices(real, e), e['beta'], e['profile']], {}
    if k == 'sis':
        return 'SIS_injection', [e['thr'], e['model']], {}
    if k == 'bh':
        return 'add_black_holes', [e['ratio'], e['f'], e['subres'], e['minbh'], 6.0, e['maxbh'], e['los']], {}
    if k == 'gc':
        cx = e['cx']
        return 'add_globular_clusters', [e['mean'], e['sig'], e['rad'], e['profile']], dict(
            gc_surface_mass_density=10 ** e['rho'], center_x=list(cx) if isinstance(cx, list) else cx, center_y=[-c for c in cx] if isinstance(cx, list) else -cx)
    if k == 'uldm':
        return 'add_ULDM_fluctuations', [e['lam'], e['amp'], e['size'], e['var'], e['ncut'], e['scale'], e['shape'], uldm_args(e), e['rescale']], {}
    rays = [s.ray(q) for q in e['rays']]
    rx, ry = [a for a, b in rays], [b for a, b in rays]
    if k == 'pbh':
        return 'add_primordial_black_holes', [e['frac'], e['logm'], e['inhalos'], rx, ry, [e['rmax']] * len(rx), 0.02, e['rescale'], e['mf'], 0.2], {}
    from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
    from pyHalo.Rendering.MassFunctions.gaussian import Gaussian
    kw = dict(mass_fraction=e['frac'], logM=e['logm'], logM_sigma=0.2, draw_poisson=e['pois'], mass_function_type=e['mf'])
    return 'add_correlated_structure', [DeltaFunction if e['mf'] == 'DELTA' else Gaussian, kw, 'PT_MASS', rx, ry, 0.02, e['rmax'], e['rescale']], {}


def apply_ext(s, real, e):
    """result of the extension call (for collapse_by_mass: (indexes, realization))"""
    from pyHalo.realization_extensions import RealizationExtensions
    name, args, kw = build_ext(s, real, e)
    out = getattr(RealizationExtensions(real), name)(*args, **kw)
    if e['ext'] == 'collapse_by_mass':
        return out, apply_ext(s, real, dict(ext='collapse', idx=list(out), profile=e['profile']))
    return out
