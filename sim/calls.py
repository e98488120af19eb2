"""Catalogue of public calls as JSON specifications: build(spec) makes fresh argument objects, run(call) makes the call, observe(result)
turns what it returned into plain data.  Used by the checks about whole calls (reproducibility, arguments, isolation, interruption)."""
import copy, importlib, json, os, subprocess, sys, tempfile
import numpy as np
from sim import ops as O, worlds as W, rng, galfile
from sim.core import plain, VERIF

PRESETS = ['CDM', 'CDM', 'CDM', 'CDMBinned', 'CDMCorrelatedStructure', 'WDM', 'WDM', 'WDMGeneral', 'WDM_mixed', 'ULDM', 'SIDM_core_collapse',
           'SIDM_parametric', 'SIDM_parametric_fixedbins', 'CDM_plus_BH', 'DMGalacticus', 'DMEmulator', 'JointLOSWithEmulator']
FULL = dict(H0=69.7, Ob0=0.0464, Om0=0.2814, sigma8=0.82, flat=True, ns=0.9608, power_law=False)
COSMO_KW = [None, None, None, dict(FULL, H0=73.0, Om0=0.25), dict(FULL, H0=68.0, Om0=0.32, Ob0=0.05, sigma8=0.75, ns=0.97), dict(FULL, sigma8=0.9)]
PART_KW = [{}, {'H0': 73.0, 'Om0': 0.25}, {'H0': 68.0, 'Om0': 0.32, 'Ob0': 0.05, 'sigma8': 0.75, 'ns': 0.97}, {'sigma8': 0.9}]
GC = [dict(log10_mgc_mean=5.3, log10_mgc_sigma=0.5, rendering_radius_arcsec=0.1),
      dict(log10_mgc_mean=4.8, log10_mgc_sigma=0.3, rendering_radius_arcsec=0.08, gc_density_profile='PTMASS', center_x=[0.5, -0.4], center_y=[0.1, 0.2])]
TR_SUB = W.TRUNC_SUB[:10]
CALLABLES = {}


def fn(name):
    def deco(f):
        CALLABLES[name] = f
        return f
    return deco


@fn('mlow_z')
def mlow_z(z): return 7.2 + 0.3 * z


@fn('half')
def half(halo): return 0.5


@fn('emulator')
def emulator():
    n = 5
    return [10 ** np.linspace(7, 9, n), np.linspace(8, 14, n), 10 ** np.linspace(6.5, 8.8, n), np.linspace(0.8, 3.0, n),
            np.linspace(1e-3, 4e-3, n), np.linspace(-5e-3, 5e-3, n), np.linspace(4e-3, -4e-3, n)]


@fn('custom_timescale')
def custom_timescale(rhos, rs, sigma): return 1e3 / sigma


MEMO = None          # when a dictionary: equal JSON values become one shared argument object


def resolve(v, top=False):
    """JSON value -> argument object (fresh, unless MEMO is in use)"""
    if MEMO is None or top or not isinstance(v, (dict, list)) or '$fn' in v or '$cls' in v:
        return _resolve(v)
    key = json.dumps(v, sort_keys=True)
    if key not in MEMO: MEMO[key] = _resolve(v)
    return MEMO[key]


def _resolve(v):
    if isinstance(v, dict):
        if '$fn' in v: return CALLABLES[v['$fn']]
        if '$arr' in v: return np.array(v['$arr'], dtype=float)
        if '$cls' in v:
            m, c = v['$cls'].rsplit('.', 1)
            return getattr(importlib.import_module(m), c)
        if '$gal' in v: return galfile.nodedata(v['$gal'])
        if '$galpath' in v: return galfile.path(v['$galpath'])
        return {k: resolve(x) for k, x in v.items()}
    if isinstance(v, list):
        return [resolve(x) for x in v]
    return v


# ------------------------------------------------------------------ generation
def _opt(r, kw, p, name, vals):
    if r.random() < p:
        kw[name] = copy.deepcopy(r.choice(vals))


def gen_preset(r, names=PRESETS):
    n = r.choice(names)
    zl, zs = r.choice([(0.5, 1.5), (0.5, 1.5), (0.3, 0.9), (0.7, 2.0)])
    kw = dict(z_lens=zl, z_source=zs, log_mlow=r.choice([7.0, 7.3, 7.7]), log_mhigh=r.choice([9.0, 10.0]), cone_opening_angle_arcsec=r.choice([2.0, 3.0, 4.0]),
              LOS_normalization=r.choice([0.2, 0.3, 0.0]))
    if n not in ('CDMCorrelatedStructure', 'CDM_plus_BH', 'DMGalacticus'):
        kw['sigma_sub'] = r.choice([0.0, 0.02, 0.05])
    big = n not in ('CDMCorrelatedStructure', 'CDM_plus_BH')
    _opt(r, kw, 0.4, 'log_m_host', [12.8, 13.3, 13.6])
    _opt(r, kw, 0.3, 'geometry_type', ['DOUBLE_CONE', 'CONE', 'CYLINDER'])
    if n != 'CDM_plus_BH':
        _opt(r, kw, 0.4, 'kwargs_cosmo', COSMO_KW)
    lens_spacing = [0.1, 0.1, 0.05]
    if n in ('CDM', 'CDMBinned', 'WDM'):
        _opt(r, kw, 0.6, 'lens_plane_spacing', lens_spacing)
    if n in ('CDM', 'CDMBinned', 'WDM', 'WDMGeneral', 'WDM_mixed', 'ULDM', 'SIDM_core_collapse', 'SIDM_parametric', 'SIDM_parametric_fixedbins'):
        if r.random() < 0.6 and n not in ('ULDM', 'WDM_mixed'):
            t, k = r.choice([q for q in TR_SUB if q[0] not in ('TRUNCATION_GALACTICUS_CDM_APPROX',)])
            kw['truncation_model_subhalos'] = t
            if k: kw['kwargs_truncation_model_subhalos'] = dict(k)
            elif r.random() < 0.5: kw['kwargs_truncation_model_subhalos'] = {}
        if r.random() < 0.5:
            t, k = r.choice(W.TRUNC_FIELD)
            kw['truncation_model_fieldhalos'] = t
            if k: kw['kwargs_truncation_model_fieldhalos'] = dict(k)
            elif t == 'TRUNCATION_RN' and r.random() < 0.5: kw['kwargs_truncation_model_fieldhalos'] = {'LOS_truncation_factor': 40}
            elif r.random() < 0.5: kw['kwargs_truncation_model_fieldhalos'] = {}
    if n in ('CDM', 'CDMBinned', 'WDM', 'WDMGeneral', 'SIDM_core_collapse', 'SIDM_parametric', 'SIDM_parametric_fixedbins'):
        if r.random() < 0.5:
            kw['infall_redshift_model'] = r.choice(['HYBRID_INFALL', 'INFALL_ZLENS', 'GALACTICUS_2024', 'DIRECT_INFALL'])
            kw['kwargs_infall_model'] = {'log_m_host': 13.2} if kw['infall_redshift_model'] == 'DIRECT_INFALL' else {}
    if n in ('CDM', 'SIDM_core_collapse', 'SIDM_parametric', 'SIDM_parametric_fixedbins') and r.random() < 0.5:
        for side in ('subhalos', 'fieldhalos'):
            m, k = r.choice([('DIEMERJOYCE19', {}), ('DIEMERJOYCE19', {'scatter': False}), ('PEAK_HEIGHT_POWERLAW', dict(c0=18., beta=0.8, zeta=-0.2)),
                             ('LUDLOW2016', {}), ('LUDLOW2016', {'scatter_dex': 0.1})])
            kw['concentration_model_' + side] = m
            if k or r.random() < 0.5: kw['kwargs_concentration_model_' + side] = dict(k)
    if n in ('CDM', 'CDMBinned', 'WDM', 'WDMGeneral', 'CDM_plus_BH', 'SIDM_core_collapse', 'SIDM_parametric', 'SIDM_parametric_fixedbins') and r.random() < 0.2:
        kw['add_globular_clusters'] = True
        kw['kwargs_globular_clusters'] = copy.deepcopy(r.choice(GC))
    if n in ('CDM', 'WDM'):
        _opt(r, kw, 0.5, 'subhalo_spatial_distribution', ['UNIFORM', 'PROJECTED_NFW'])
        _opt(r, kw, 0.3, 'two_halo_contribution', [True, False])
        _opt(r, kw, 0.2, 'draw_poisson', [False])
        _opt(r, kw, 0.3, 'c_host', [4.0, 8.0])
        _opt(r, kw, 0.2, 'mass_threshold_sis', [3e8])
        _opt(r, kw, 0.2, 'two_halo_Lazar_correction', [False])
    if n == 'CDM':
        _opt(r, kw, 0.2, 'log10_dNdA', [-2.0])
    if n == 'WDM':
        _opt(r, kw, 0.3, 'kwargs_density_profile', [{}, {'log_slope_halo': -2.0, 'x_core_halo': 0.1}])
        _opt(r, kw, 0.3, 'mass_function_model_subhalos', ['SHMF_LOVELL2014', 'SHMF_LOVELL2020'])
        if r.random() < 0.3:
            kw['mass_function_model_fieldhalos'] = 'POWER_LAW_TURNOVER'
            kw['kwargs_mass_function_fieldhalos'] = dict(a_wdm=1.2, b_wdm=0.9, c_wdm=-1.0)
    if kw.get('truncation_model_subhalos', '').startswith('TRUNCATION_ROCHE'):
        if n in ('CDM', 'WDM'): kw['subhalo_spatial_distribution'] = 'PROJECTED_NFW'     # these need a 3-D position
        else: kw.pop('truncation_model_subhalos'); kw.pop('kwargs_truncation_model_subhalos', None)
    if n == 'CDMBinned':
        kw.pop('log_mlow'); kw.pop('log_mhigh')
        _opt(r, kw, 0.5, 'log10_mc_low', [1.2, 1.4])
        _opt(r, kw, 0.5, 'scale_mass_function_high', [2.0, 0.5])
    if n == 'CDMCorrelatedStructure':
        kw.pop('LOS_normalization'); kw['LOS_normalization'] = 0.3
        _opt(r, kw, 0.5, 'kwargs_concentration_model', [{}, {'scatter_dex': 0.1}])
        _opt(r, kw, 0.5, 'scale_2halo_boost_factor', [0.0, 2.0])
    if n in ('WDM', 'WDMGeneral', 'WDM_mixed'):
        kw['log_mc'] = r.choice([7.0, 7.8, 8.5])
    if n == 'WDMGeneral': kw['dlogT_dlogk'] = r.choice([-1.5, -2.2])
    if n == 'WDM_mixed': kw['mixed_DM_frac'] = r.choice([0.2, 0.6])
    if n == 'ULDM':
        kw['log10_m_uldm'] = r.choice([-22.0, -21.5])
        kw.update(flucs=r.random() < 0.5, flucs_args={'x_images': [0.4, -0.5], 'y_images': [0.3, 0.2], 'aperture': 0.1}, n_cut=r.choice([20, 500]))
        if kw['flucs'] and r.random() < 0.4:
            kw.update(flucs_shape='ring', flucs_args={'rmin': 0.95, 'rmax': 1.05})
        _opt(r, kw, 0.3, 'mdef_halos', ['TNFW', 'ULDM'])
    if n == 'SIDM_core_collapse':
        kw.update(mass_ranges_subhalos=[[6, 8], [8, 10]], mass_ranges_field_halos=[[6, 8], [8, 10]], probabilities_subhalos=[0.5, {'$fn': 'half'}],
                  probabilities_field_halos=[0.3, 1.0])
        kw.update(r.choice([dict(x_core_halo=0.05), dict(collapsed_halo_profile='SPL_CORE', log_slope_halo=-2.2, x_core_halo=0.1),
                            dict(collapsed_halo_profile='GNFW', gamma_inner=2.2, gamma_outer=3.2)]))
    if n == 'SIDM_parametric':
        kw.update(log10_mass_ranges=[[6.0, 8.0], [8.0, 10.0]], log10_effective_cross_section_list=[r.choice([0.5, 2.0]), r.choice([0.5, 2.0])])
        _opt(r, kw, 0.5, 'evolving_SIDM_profile', [True, False])
        if kw.get('evolving_SIDM_profile') is False: kw['x_core_halo'] = 0.05
    if n == 'SIDM_parametric_fixedbins':
        kw.update(log10_sigma_eff_mlow_8=r.choice([0.5, 2.0]), log10_sigma_eff_8_mhigh=r.choice([0.5, 2.0]))
    if n in ('SIDM_core_collapse', 'SIDM_parametric', 'SIDM_parametric_fixedbins'):
        # the transforms refuse halos of other classes
        kw.pop('add_globular_clusters', None); kw.pop('kwargs_globular_clusters', None)
        if n == 'SIDM_core_collapse': kw['mass_threshold_sis'] = None
    if n == 'CDM_plus_BH':
        kw.update(log10_mass_ratio=r.choice([-2.0, -3.0]), log10_occupation_frac=r.choice([-1.0, 0.0]), LOS_normalization=0.2)
    if n == 'DMGalacticus':
        lkw = {k: v for k, v in kw.items() if k in ('log_mlow', 'log_mhigh', 'LOS_normalization', 'kwargs_cosmo', 'log_m_host')}
        kw = dict(z_source=r.choice([1.5, 2.0]), cone_opening_angle_arcsec=r.choice([4.0, 8.0]), tree_index=r.choice([1, 2]), log_mlow_galacticus=6.0,
                  log_mhigh_galacticus=10.0, mass_range_is_bound=r.random() < 0.5, proj_angle_theta=r.choice([0.0, 0.7]), proj_angle_phi=r.choice([0.0, 1.1]), **lkw)
        kw['galacticus_hdf5'] = {r.choice(['$gal', '$galpath']): dict(seed=r.randint(0, 99), trees=r.choice([1, 2, 3]), nodes=r.choice([4, 9]))}
        _opt(r, kw, 0.3, 'galacticus_params_additional', [['satellitePositionX'], []])
        _opt(r, kw, 0.3, 'preset_model_los', ['CDM', 'WDM'])
        if kw.get('preset_model_los') == 'WDM': kw['log_mc'] = 7.5
    if n == 'DMEmulator':
        kw = dict(z_lens=zl, z_source=zs, emulator_data_function={'$fn': 'emulator'}, cone_opening_angle_arcsec=8.0)
    if n == 'JointLOSWithEmulator':
        lkw = {k: v for k, v in kw.items() if k in ('log_mlow', 'log_mhigh', 'LOS_normalization', 'kwargs_cosmo', 'log_m_host')}
        kw = dict(z_lens=zl, z_source=zs, emulator_data_function={'$fn': 'emulator'}, cone_opening_angle_arcsec=6.0, preset_model_name_LOS='CDM', **lkw)
    return dict(c='preset', name=n, kw=kw, seed=r.randint(0, 2 ** 31))


def gen_render(r):
    pops = r.choice([['SUBHALOS', 'LINE_OF_SIGHT', 'TWO_HALO'], ['LINE_OF_SIGHT'], ['SUBHALOS'], ['LINE_OF_SIGHT_NOSHEET', 'SUBHALOS']])
    return dict(c='render', zl=r.choice([0.5, 0.4]), zs=r.choice([1.5, 1.2]), cosmo=r.choice(COSMO_KW), pops=pops, mlow=r.choice([7.0, 7.5, {'$fn': 'mlow_z'}]),
                norm=r.choice([0.0, 0.2]), sigma=r.choice([0.0, 0.03]), wdm=r.random() < 0.3, spatial=r.choice(['U', 'N']), angle=r.choice([2.0, 3.0]),
                nreal=r.choice([1, 1, 2]), spacing=0.1, lazar=r.random() < 0.7, pois=r.random() < 0.8, boost=r.choice([1.0, 0.0, 2.0]),
                mdef=r.choice(['TNFW', 'TNFW', 'NFW', 'ULDM', 'SPL_CORE']), geo=r.choice(['DOUBLE_CONE', 'CONE', 'CYLINDER']), seed=r.randint(0, 2 ** 31),
                order=r.random() < 0.5)


def gen_extcall(r):
    w = O.gen_world(r, 2, 8)
    return dict(c='ext', world=w, e=O.gen_ext(r, w), seed=r.randint(0, 2 ** 31), pre=r.random() < 0.4)


HELPERS = ['realization', 'filter', 'lensing', 'shift', 'from_halos', 'cosmology', 'lens_cosmo', 'infall', 'conc', 'preset_conc', 'preset_mf', 'massfn', 'population', 'rays',
           'batch', 'geometry', 'halo', 'trunc', 'corr', 'split', 'sampling', 'massfunc', 'spatial', 'util', 'simple', 'single', 'wdmutil']


CHEAP = ['sampling', 'sampling', 'massfunc', 'massfunc', 'spatial', 'util', 'simple', 'single', 'wdmutil', 'infall', 'conc', 'massfn', 'batch', 'batch']


def gen_helper(r, kinds=HELPERS):
    k = r.choice(kinds)
    w = O.gen_world(r, 2, 6)
    return dict(c='helper', k=k, world=w, a=r.randint(0, 5), b=round(r.uniform(0.1, 1.4), 3), ray=O.gen_ray(r, 0.5), ray2=O.gen_ray(r, 0.5), cosmo=r.choice(COSMO_KW),
                seed=r.randint(0, 2 ** 31))


def gen_call(r, kinds=('preset', 'preset', 'render', 'ext', 'helper')):
    k = r.choice(kinds)
    return dict(preset=gen_preset, render=gen_render, ext=gen_extcall, helper=gen_helper)[k](r)


# ------------------------------------------------------------------ building
class Call:
    def __init__(self, f, args=(), kwargs=None, post=None, world=None):
        self.f, self.args, self.kwargs, self.post, self.world = f, list(args), dict(kwargs or {}), post, world

    def __call__(self):
        out = self.f(*self.args, **self.kwargs)
        return self.post(out) if self.post else out


def preset_fn(name):
    if name in ('CDMBinned', 'CDMCorrelatedStructure'):
        import pyHalo.PresetModels.cdm as m
        return getattr(m, name)
    from pyHalo.preset_models import preset_model_from_name
    return preset_model_from_name(name)


def build(spec, memo=None):
    """a Call on argument objects made for it alone, or with memo on objects shared by the calls built with the same memo"""
    global MEMO
    MEMO = memo
    try:
        return _build(spec)
    finally:
        MEMO = None


def _build(spec):
    c = spec['c']
    if c == 'preset':
        return Call(preset_fn(spec['name']), (), resolve(spec['kw'], True))
    if c == 'render':
        return build_render(spec)
    if c == 'ext':
        s = O.Session(spec['world'])
        real = s.pool[0]
        if spec.get('pre'):
            for h in real.halos: W.read(h, 'lenstronomy_params')
        from pyHalo.realization_extensions import RealizationExtensions
        if not O.applicable(real, spec['e']):
            return Call(lambda: None)
        name, a, k = O.build_ext(s, real, spec['e'])
        return Call(getattr(RealizationExtensions(real), name), a, k, world=s)
    return build_helper(spec)


def build_render(sp):
    from pyHalo.pyhalo import pyHalo
    from pyHalo.Cosmology.geometry import Geometry
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw, WDMPowerLaw
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen, ShethTormenTurnover
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform, Uniform
    from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
    kc = resolve(sp['cosmo'])
    p = pyHalo(sp['zl'], sp['zs'], kc)
    geo = Geometry(p.cosmology, sp['zl'], sp['zs'], sp['angle'], sp['geo'])
    p.lens_cosmo.setup_infall_model('HYBRID_INFALL', {'log_m_host': 13.2})
    model = W.halo_model(p.lens_cosmo, 0, 0, 0, 0, True)
    wdm = dict(log_mc=7.8, a_wdm=1.9, b_wdm=0.8, c_wdm=-1.0) if sp['wdm'] else {}
    mf, kmf, sd, ksd = [], [], [], []
    for pop in sp['pops']:
        if pop == 'SUBHALOS':
            mf.append(WDMPowerLaw if sp['wdm'] else CDMPowerLaw)
            k = dict(log_mlow=resolve(sp['mlow']) if not isinstance(sp['mlow'], dict) else 7.2, log_mhigh=10., m_pivot=1e8, power_law_index=-1.9, log_m_host=13.2, delta_power_law_index=0.0,
                     host_scaling_factor=0.55, redshift_scaling_factor=0.37, sigma_sub=sp['sigma'], **wdm)
            if sp['spatial'] == 'U':
                sd.append(Uniform); ksd.append(dict(rmax2d_arcsec=sp['angle'] / 2, geometry=geo))
            else:
                sd.append(ProjectedNFW)
                ksd.append(dict(m_host=10 ** 13.2, zlens=sp['zl'], rmax2d_arcsec=sp['angle'] / 2, r_core_units_rs=0.25, lens_cosmo=p.lens_cosmo, c_host=5.0))
        else:
            mf.append(ShethTormenTurnover if sp['wdm'] else ShethTormen)
            k = dict(log_mlow=resolve(sp['mlow']), log_mhigh=10., LOS_normalization=resolve(sp['norm']) if pop != 'TWO_HALO' else 0.3, m_pivot=1e8, delta_power_law_index=0.0, log_m_host=13.2, **wdm)
            sd.append(LensConeUniform); ksd.append(dict(cone_opening_angle=sp['angle'], geometry=geo))
        if not sp['pois']: k['draw_poisson'] = False
        kmf.append(k)
    return Call(p.render, [list(sp['pops']), mf, kmf, sd, ksd, geo, sp['mdef'], sp['mdef'], model, sp['lazar'], sp['boost'], sp['nreal'], sp['spacing']], {})


class StraightLens:
    """multi-plane lens model stand-in for interpolate_ray_paths: rays bend by a fixed angle at each redshift"""
    class _L:
        def __init__(self, cosmo): self.cosmo = cosmo

        def ray_shooting_partial_comoving(self, x, y, ax, ay, z0, z1, kw):
            d = self.cosmo.D_C_transverse(z1) - (self.cosmo.D_C_transverse(z0) if z0 > 0 else 0.0)
            return x + ax * d, y + ay * d, ax * 0.97, ay * 0.98 - 0.001

    def __init__(self, zs, cosmo):
        self.redshift_list = list(zs)
        self.lens_model = StraightLens._L(cosmo)


def build_helper(sp):
    k, w = sp['k'], sp['world']
    if k == 'cosmology':
        from pyHalo.Cosmology.cosmology import Cosmology
        z = np.array([0.1, sp['b'], 1.5])

        def post(c):
            return [c.D_A_z(sp['b']), c.D_A(0.1, sp['b'] + 0.2), c.D_C_z(z), c.kpc_proper_per_asec(sp['b']), c.halo_age(sp['b']), c.halo_age(z), c.rho_crit(z),
                    c.E_z(z), c.D_C_transverse(sp['b'])]
        return Call(Cosmology, [None, resolve(PART_KW[sp['a'] % 4])] if sp['a'] else [], {}, post)
    if k in ('sampling', 'massfunc', 'util', 'wdmutil'): return build_util(sp)
    s = O.Session(w)
    real = s.pool[0]
    lc = s.lc
    if k == 'spatial':
        from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
        from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform, Uniform
        from pyHalo.Rendering.SpatialDistributions.correlated import Correlated2D
        i, z = sp['a'] % 5, sp['b']
        if i == 0: return Call(ProjectedNFW.from_Mhost, [1e13, w['zl'], 3.0, 0.3, lc, 5.0], {}, lambda o: list(o.draw(7)))
        if i == 1: return Call(ProjectedNFW(3.0, 20.0, 5.0, 100.0, 6.1).draw, [9], {}, list)
        if i == 2: return Call(LensConeUniform(4.0, s.geo).draw, [8, z, 0.1, -0.2], {}, list)
        if i == 3: return Call(Uniform(2.0, s.geo).draw, [8, z, 0.9, 0.05, 0.1], {}, list)
        g = np.linspace(-1, 1, 20)
        den = np.exp(-(g[None] - 0.2) ** 2 * 3 - 2 * g[:, None] ** 2)
        return Call(Correlated2D(s.geo).draw, [8, 0.5, den / den.sum(), z, 0.1, -0.1], {}, list)
    if k == 'simple':
        from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo, TNFWFieldHalo
        m = 10 ** (6.5 + sp['a'] / 2)
        if sp['a'] % 2: return Call(TNFWSubhalo.simple_setup, [m, 0.3, w['zl'] + sp['b'], 0.1, -0.2, w['zl'], lc], {}, W.obs_halo)
        return Call(TNFWFieldHalo.simple_setup, [m, 0.1, -0.2, sp['b'], 6.0, lc], {}, W.obs_halo)
    if k == 'single':
        from pyHalo.single_realization import SingleHalo
        from pyHalo.Halos.lens_cosmo import LensCosmo
        h = w['halos'][0] if w['halos'] else dict(m=1e8, x=0.1, y=0.2, z=0.4, sub=False)
        return Call(SingleHalo, [h['m'], h['x'], h['y'], 'TNFW', h['z'], w['zl'], w['zs']],
                    dict(r3d=30.0, subhalo_flag=h['sub'], kwargs_halo_model=s.model, lens_cosmo=lc))
    if k == 'realization':
        from pyHalo.single_realization import Realization
        h = w['halos']
        return Call(Realization, [[a['m'] for a in h], np.array([a['x'] for a in h]), [a['y'] for a in h], [a['r3d'] for a in h], [a['mdef'] for a in h],
                                  np.array([a['z'] for a in h]), [a['sub'] for a in h], lc], dict(kwargs_halo_model=s.model, mass_sheet_correction=False, geometry=s.geo))
    rx, ry = s.ray(sp['ray'])
    qx, qy = s.ray(sp['ray2'])
    if k == 'filter':
        return Call(real.filter, [0.6, 7.0], dict(interpolated_x_angle=[rx, qx], interpolated_y_angle=[ry, qy], aperture_units='ANGLES'))
    if k == 'split':
        return Call(real.split_at_z, [sp['b']])
    if k == 'lensing':
        kw = [{}, dict(kappa_scale=0.5), dict(log_mlow_sheets=8.0), dict(zmin=0.3, zmax=1.0)][sp['a'] % 4] if s.rc is not None else {}
        return Call(real.lensing_quantities, [], dict(kwargs_mass_sheet=dict(kw)), lambda o: list(o[:3]))
    if k == 'shift':
        return Call(real.shift_background_to_source, [rx, ry])
    if k == 'from_halos':
        from pyHalo.single_realization import Realization
        return Call(Realization.from_halos, [list(real.halos), lc], dict(kwargs_halo_model=s.model, msheet_correction=True, rendering_classes=s.rc, geometry=s.geo))
    if k == 'lens_cosmo':
        from pyHalo.Halos.lens_cosmo import LensCosmo

        def post(l):
            return [l.get_sigma_crit_lensing(0.3, 1.5), l.nfw_physical2angle(1e8, 14.0, sp['b']), l.rN_M(1e9, sp['b'], 200), l.twohaloterm(np.array([0.8, 2.0]), 1e13, 0.5), l.two_halo_boost(1e13, 0.5),
                    l.mthermal_to_halfmode(5.0), l.sidm_halo_effective_age(0.5, 1.2, 2.0), l.z_accreted_from_zlens(1e8), l.point_mass_factor_z(sp['b'])]
        ms = ['HYBRID_INFALL', 'GALACTICUS_2024', 'DIRECT_INFALL', 'INFALL_ZLENS', 'HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']
        m = ms[sp['a']]
        kw = {'log_m_host': 14.5 if 'CLUSTER' in m else 13.0} if m not in ('GALACTICUS_2024', 'INFALL_ZLENS') else {}
        return Call(LensCosmo, [0.5, 1.5, s.lc.cosmo, m, kw], {}, post)
    if k == 'infall':
        m = ['HYBRID_INFALL', 'GALACTICUS_2024', 'DIRECT_INFALL', 'INFALL_ZLENS'][sp['a'] % 4]
        kw = {'log_m_host': 13.0} if m in ('HYBRID_INFALL', 'DIRECT_INFALL') else {}
        return Call(lc.setup_infall_model, [m, kw], {}, lambda _: [lc.z_accreted_from_zlens(10 ** q) for q in (6.5, 8.0, 9.5)])
    if k in ('conc', 'preset_conc'):
        n, kw = W.CONC[sp['a']]
        kw = dict(kw)
        if k == 'preset_conc':
            from pyHalo.concentration_models import preset_concentration_models
            return Call(preset_concentration_models, [n, kw], {}, lambda o: [o[0].__name__, o[1]])
        c = W.conc_model(n, kw, lc)
        if n == 'CONSTANT': return Call(lambda: None)
        m, z = (np.array([1e7, 3e8, 1e9]) if sp['b'] < 0.7 else 1e8), sp['b']
        return Call(c.nfw_concentration, [m, z])
    if k == 'preset_mf':
        from pyHalo.mass_function_models import preset_mass_function_models
        n = ['SHMF_LOVELL2020', 'LOVELL2014', 'STUCKER', 'POWER_LAW', 'SCHIVE2016', 'STUCKER_SHMF'][sp['a']]
        return Call(preset_mass_function_models, [n, {'dlogT_dlogk': 1.8} if 'STUCKER' in n else {'log_mc': 7.5}], {}, lambda o: [o[0].__name__, o[1]])
    if k == 'massfn':
        from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen, ShethTormenTurnover, ShethTormenMixedWDM
        kw = dict(log_mlow=7., log_mhigh=10., LOS_normalization=0.3, m_pivot=1e8, delta_power_law_index=0.0, draw_poisson=True)
        cls = [ShethTormen, ShethTormenTurnover, ShethTormenMixedWDM][sp['a'] % 3]
        if cls is not ShethTormen: kw.update(log_mc=7.6, a_wdm=1.9, b_wdm=0.8, c_wdm=-1.0)
        if cls is ShethTormenMixedWDM: kw.update(mixed_DM_frac=0.4)
        return Call(cls.from_redshift, [sp['b'], 0.05, s.geo, kw], {}, lambda m: m.draw())
    if k == 'population':
        rc = W.rendering_classes(lc, s.geo, w['zl'], w['zs'], 0.3)
        i = sp['a'] % 2
        return Call(rc[i].render, [], {}, lambda o: list(o))
    if k == 'rays':
        from pyHalo.utilities import interpolate_ray_paths
        lens = StraightLens([0.3, 0.5], lc.cosmo)
        kwl = [{'theta_E': 1.0}]
        d = np.linspace(0, s.dmax * 0.99, 7)
        kw = [{}, dict(evaluate_at_mean=True), dict(terminate_at_source=True, source_x=0.05, source_y=-0.02)][sp['a'] % 3]
        return Call(interpolate_ray_paths, [[0.5, -0.6], np.array([0.2, 0.9]), lens, kwl, w['zs']], dict(cosmo=lc.cosmo, **kw),
                    lambda o: [[f(d) for f in o[0]], [f(d) for f in o[1]]])
    if k == 'batch':
        from pyHalo.Halos.batch_halo_util import precompute_realization
        return Call(precompute_realization, [real], {}, lambda o: [W.derived(h, ['c', 'z_infall', 'nfw_params', 'bound_mass']) for h in real.halos], world=s)
    if k == 'geometry':
        from pyHalo.Cosmology.geometry import Geometry
        return Call(Geometry, [lc.cosmo, w['zl'], w['zs'], 4.0, ['DOUBLE_CONE', 'CONE', 'CYLINDER'][sp['a'] % 3]], {},
                    lambda g: [g.rendering_scale(sp['b']), g.volume_element_comoving(sp['b'], 0.05), g.angle_to_comoving_area(2.0, sp['b']), g.angle_to_physicalradius(2.0, sp['b']), g.volume_MPC3])
    if k == 'halo':
        from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo
        m = s.model
        args = dict(W.PROFILE_ARGS)
        from pyHalo.Halos.HaloModels.NFW import NFWSubhhalo
        cls = [TNFWSubhalo, NFWSubhhalo][sp['a'] % 2]
        return Call(cls, [1e8, 0.1, 0.2, 50.0, w['zl'], True, lc, args, m['truncation_model_subhalos'], m['concentration_model_subhalos'], 0.33], {}, W.obs_halo)
    if k == 'trunc':
        from pyHalo.truncation_models import truncation_models
        n, kw = W.TRUNC_SUB[sp['a']]
        t = W.trunc_model(n, dict(kw), lc)
        h = next((q for q in real.halos if q.is_subhalo), None)
        if h is None: return Call(lambda: None)
        return Call(t.truncation_radius_halo, [h], world=s)
    if k == 'corr':
        from pyHalo.realization_extensions import corr_kappa_with_mask
        g = np.linspace(-1, 1, 24)
        xx, yy = np.meshgrid(g, g)
        kap = np.exp(-(xx - sp['b'] / 2) ** 2 - 2 * (yy + 0.1) ** 2)
        return Call(corr_kappa_with_mask, [kap, 2.0, np.array([0.1, 0.2]), np.array([-0.5, 0.3])],
                    [dict(apply_mask=False), dict(r_min=0.2, r_max=0.9), dict(r_min=0.2, r_max=None, normalization=True)][sp['a'] % 3])
    raise KeyError(k)


def build_util(sp):
    i, b = sp['a'], sp['b']
    if sp['k'] == 'sampling':
        import pyHalo.utilities as U
        x = np.linspace(0.01, 2.0, 40)
        if i % 4 == 0: return Call(U.ITSampling, [x, 1 - np.exp(-x * b)], {}, lambda o: o(6))
        if i % 4 == 1: return Call(U.ITSampling.from_samples, [np.exp(-x * b) + 0.3 * np.sin(9 * x)], {}, lambda o: o(6))
        if i % 4 == 2: return Call(U.inverse_transform_sampling, [x, tilted, (b,), 6])
        return Call(U.inverse_transform_sampling_from_cdf, [x, (1 - np.exp(-x * b)) / (1 - np.exp(-2 * b)), 6])
    if sp['k'] == 'massfunc':
        from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw, WDMPowerLaw, MixedWDMPowerLaw
        from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
        from pyHalo.Rendering.MassFunctions.gaussian import Gaussian
        post = lambda o: [list(o.draw()), list(o.draw())]
        if i == 0: return Call(DeltaFunction, [1e6, 10.0, 1e6 * b, True], {}, post)
        if i == 1: return Call(Gaussian, [8.0, 5.0, 0.3], {}, post)
        n = dict(log_mlow=6.5, log_mhigh=9.5, power_law_index=-1.9, draw_poisson=b < 1, normalization=30 * b / (1e8 * np.log(10)))
        if i in (2, 3): return Call(CDMPowerLaw, [], n, post)
        t = dict(log_mc=7.5, a_wdm=1.9, b_wdm=0.8, c_wdm=-1.0)
        if i == 4: return Call(WDMPowerLaw, [], dict(n, **t), post)
        return Call(MixedWDMPowerLaw, [], dict(n, mixed_DM_frac=b / 2, **t), post)
    import pyHalo.utilities as U
    from pyHalo.Cosmology.cosmology import Cosmology
    if sp['k'] == 'util':
        if i == 0: return Call(U.generate_lens_plane_redshifts, [0.5, 1.0 + b, 0.1], {}, list)
        if i == 1: return Call(U.delta_kappa, [0.5, 1.0 + b, 1e13, 6.0, 0.05])
        if i == 2: return Call(U.delta_sigma, [1e13, 0.5, 6.0, 0.05 * b])
        if i == 3: return Call(U.nfw_velocity_dispersion, [1e6 * b, 20.0, 8.0], dict(x=0.7))
        if i == 4: return Call(U.MinHaloMassULDM, [-21.0, Cosmology().astropy, 6.5], {}, lambda f: [f(b), f.m_min(b)])
        return Call(U.mask_annular, [0.1, 0.2] + list(np.meshgrid(np.linspace(-1, 1, 9), np.linspace(-1, 1, 9))) + [0.2, b])
    import pyHalo.Rendering.MassFunctions.stucker as S
    if i % 2: return Call(S.stucker_suppression_params, [-1.2 - b], {}, list)
    return Call(S.mscales_to_abc, [7.0 * b, 10.0 * b, 30.0 * b], {}, list)


def tilted(x, b): return np.exp(-b * x)


# ------------------------------------------------------------------ observing
def observe(v, deep=True):
    if v.__class__.__name__ == 'Realization':
        o = W.obs_real(v, deep=False)
        if deep:
            n, z, kw, _ = v.lensing_quantities()
            o['export'] = dict(n=list(n), z=plain(z), kw=[plain(k) for k in kw])
        return o
    if isinstance(v, (list, tuple)):
        return [observe(x, deep) for x in v]
    if type(v).__module__.startswith('pyHalo') and hasattr(v, 'unique_tag'):
        return W.obs_halo(v)
    return plain(v)


def do(spec, call=None):
    """seed the generator, make the call, observe"""
    if call is None:
        rng.mode_real(spec['seed'] ^ 0x5eed)        # halos of the worlds built here draw their tags
    c = call or build(spec)
    rng.mode_real(spec['seed'])
    return observe(c())


# ------------------------------------------------------------------ argument snapshots
def snap(v, depth=0, seen=None):
    """deep picture of an argument object: structure, types, values; library objects by identity"""
    if depth > 8: return '...'
    if isinstance(v, np.ndarray):
        return ['ndarray', str(v.dtype), list(v.shape), [snap(x, depth + 1) for x in v.ravel().tolist()]]
    if isinstance(v, dict):
        return ['dict', [[str(k), snap(x, depth + 1)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [snap(x, depth + 1) for x in v]]
    if isinstance(v, np.generic): return [type(v).__name__, v.item()]
    if v is None or isinstance(v, (bool, int, float, str)): return [type(v).__name__, v]
    return [type(v).__name__, id(v)]


# ------------------------------------------------------------------ a fresh process
def fresh(spec, hashseed):
    """result of the call in a process of its own, with another hash seed, working directory and clock"""
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'evalcall.py')], input=json.dumps(spec), cwd=d, env=env, capture_output=True, text=True, timeout=120)
    if p.returncode or not p.stdout.strip():
        raise RuntimeError('fresh process: ' + p.stderr[-1500:])
    return json.loads(p.stdout.strip().splitlines()[-1])


def state_digest():
    import hashlib
    return hashlib.sha256(repr(rng.get_state()).encode()).hexdigest()[:16]
