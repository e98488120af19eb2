"""Small worlds built from JSON specifications, and observations of them through the public API."""
import copy
import numpy as np
from sim.core import plain, same, Violation

COSMOS = [None,
          dict(H0=69.7, Ob0=0.0464, Om0=0.2814, sigma8=0.82, flat=True, ns=0.9608, power_law=False),
          dict(H0=73.0, Ob0=0.044, Om0=0.25, sigma8=0.9, flat=True, ns=0.95, power_law=False)]

TRUNC_SUB = [('TRUNCATION_GALACTICUS', {'c_host': 6.0}), ('TRUNCATION_ROCHE_GILMAN2020', {}), ('TRUNCATION_ROCHE', {}),
             ('TRUNCATION_MEAN_DENSITY', {}), ('CONSTANT', {'rt_arcsec': 0.2}), ('MULTIPLE_RS', {'tau': 2.0}),
             ('BOUND_MASS_PDF', {}), ('TRUNCATION_GALACTICUS_KEELEY24', {'c_host': 6.0}),
             ('TRUNCATION_GALACTICUS_ZINFALL', {'c_host': 6.0}), ('TRUNCATION_GALACTICUS_CDM_APPROX', {}), ('MW', {'c_host': 8.0}), ('TRUNCATION_GALACTICUS', {'c_host': 9.5}), ('TRUNCATION_GALACTICUS_ZINFALL', {'c_host': 3.0})]
TRUNC_FIELD = [('TRUNCATION_RN', {}), ('TRUNCATION_R50', {}), ('TRUNCATION_R200', {}), ('SPLASHBACK', {}),
               ('CONSTANT', {'rt_arcsec': 0.3}), ('MULTIPLE_RS', {'tau': 3.0})]
CONC = [('DIEMERJOYCE19', {}), ('PEAK_HEIGHT_POWERLAW', dict(c0=18., beta=0.8, zeta=-0.2)), ('LUDLOW2016', {}),
        ('BOSE2016', dict(log_mc=7.5)), ('WDM_HYPERBOLIC', dict(log_mc=7.5, a=0.5, b=0.4, concentration_cdm_class='DIEMERJOYCE19')),
        ('LAROCHE2022', dict(log_mc=8.0)), ('CONSTANT', dict(c=16.0))]
PROFILE_ARGS = dict(gamma_inner=0.8, gamma_outer=3.1, x_match=3.0, log_slope_halo=-2.2, x_core_halo=0.05, log10_m_uldm=-21.0,
                    uldm_plaw=1. / 3, scale_nfw=False, amp=0.01, sigma=0.2, center_x=0.1, center_y=-0.2)


def lens_cosmo(zl=0.5, zs=1.5, cosmo=0, infall='HYBRID_INFALL', log_m_host=13.1):
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Halos.lens_cosmo import LensCosmo
    kw = COSMOS[cosmo]
    c = Cosmology() if kw is None else Cosmology(None, dict(kw))
    return LensCosmo(zl, zs, c, infall, {'log_m_host': log_m_host})


def conc_model(name, kw, lc, scatter=True, scatter_dex=0.2):
    from pyHalo.concentration_models import preset_concentration_models
    kw = dict(kw)
    if isinstance(kw.get('concentration_cdm_class'), str):
        from pyHalo.Halos.concentration import ConcentrationDiemerJoyce
        kw['concentration_cdm_class'] = ConcentrationDiemerJoyce
    kw['cosmo'] = lc.cosmo.astropy
    if name != 'CONSTANT':
        kw['scatter'] = scatter
        kw['scatter_dex'] = scatter_dex
    cls, k = preset_concentration_models(name, kw)
    return cls(**k)


def trunc_model(name, kw, lc):
    from pyHalo.truncation_models import truncation_models
    if name == 'MW':
        from pyHalo.Halos.tidal_truncation import TruncationGalacticusMilkyWay as name
    cls, k = truncation_models(name)
    k = dict(k)
    k.update(kw)
    k['lens_cosmo'] = lc
    return cls(**k)


def halo_model(lc, tsub=0, tfield=0, csub=0, cfield=0, scatter=True, profile=None):
    return {'truncation_model_subhalos': trunc_model(*TRUNC_SUB[tsub], lc),
            'truncation_model_field_halos': trunc_model(*TRUNC_FIELD[tfield], lc),
            'concentration_model_subhalos': conc_model(*CONC[csub], lc, scatter),
            'concentration_model_field_halos': conc_model(*CONC[cfield], lc, scatter),
            'kwargs_density_profile': dict(PROFILE_ARGS if profile is None else profile)}


MDEFS = ['TNFW', 'NFW', 'PT_MASS', 'PJAFFE', 'ULDM', 'GNFW', 'SPL_CORE', 'GAUSSIAN_KAPPA']


def gen_halos(r, n, zl=0.5, zs=1.5, mdefs=None, p_sub=0.5, ties=True):
    """n halo specifications; with ties: shared masses, positions and planes are likely"""
    planes = [round(0.1 + 0.1 * i, 2) for i in range(int((zs - 0.15) / 0.1))]
    if r.random() < 0.5:        # planes off the grid, some of them close to one another or to the lens
        planes = [round(z + r.choice([-0.06, -0.03, 0.02, 0.043]), 4) for z in planes] + [round(zl + r.choice([-0.02, 0.02, -0.004, 0.004]), 4), round(zs - 0.03, 4)]
    out = []
    for i in range(n):
        sub = r.random() < p_sub
        z = zl if sub or r.random() < 0.2 else r.choice(planes)
        m = 10 ** (r.choice([6.0, 7.0, 7.5, 8.0, 9.0]) if ties and r.random() < 0.5 else r.uniform(6, 10))
        x = r.choice([0.0, 0.5, -0.5, 1.0]) if ties and r.random() < 0.3 else r.uniform(-2, 2)
        y = r.choice([0.0, 0.5, -0.5, 1.0]) if ties and r.random() < 0.3 else r.uniform(-2, 2)
        mdef = r.choice(mdefs) if mdefs else 'TNFW'
        out.append(dict(m=m, x=x, y=y, r3d=r.uniform(5, 200) if sub else None, mdef=mdef, z=z, sub=sub))
    return out


def realization(lc, halos, model, geometry=None, rendering_classes=None, sheets=True):
    from pyHalo.single_realization import Realization
    h = halos
    return Realization([a['m'] for a in h], [a['x'] for a in h], [a['y'] for a in h], [a['r3d'] for a in h],
                       [a['mdef'] for a in h], [a['z'] for a in h], [a['sub'] for a in h], lc,
                       kwargs_halo_model=model, mass_sheet_correction=sheets, rendering_classes=rendering_classes,
                       geometry=geometry)


def geometry(lc, angle=4.0, kind='DOUBLE_CONE'):
    from pyHalo.Cosmology.geometry import Geometry
    return Geometry(lc.cosmo, lc.z_lens, lc.z_source, angle, kind)


def rendering_classes(lc, geo, zl=0.5, zs=1.5, norm=0.3):
    """real rendering classes, for realizations whose halos were given by hand"""
    from pyHalo.Rendering.halo_population import HaloPopulation
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform, Uniform
    from pyHalo.utilities import generate_lens_plane_redshifts
    z, dz = generate_lens_plane_redshifts(zl, zs, 0.1)
    ks = dict(log_mlow=7., log_mhigh=10., m_pivot=1e8, power_law_index=-1.9, host_m200=1e13, log_m_host=13.0, delta_power_law_index=0.0,
              host_scaling_factor=0.55, redshift_scaling_factor=0.37, draw_poisson=True, sigma_sub=0.02)
    kl = dict(log_mlow=7., log_mhigh=10., LOS_normalization=norm, m_pivot=1e8, delta_power_law_index=0.0, log_m_host=13.0, draw_poisson=True)
    p = HaloPopulation(['SUBHALOS', 'LINE_OF_SIGHT'], [CDMPowerLaw, ShethTormen], [ks, kl], [Uniform, LensConeUniform],
                       [dict(rmax2d_arcsec=geo.cone_opening_angle / 2, geometry=geo), dict(cone_opening_angle=geo.cone_opening_angle, geometry=geo)],
                       lc, geo, z, dz)
    return p.rendering_classes


# ------------------------------------------------------------------- observation
BASIC = ['mass', 'x', 'y', 'r3d', 'mdef', 'z', 'is_subhalo', 'unique_tag', 'fixed_position']
DERIVED = ['z_infall', 'z_eval', 'c', 'nfw_params', 'profile_args', 'params_physical', 'bound_mass', 'bound_mass_galacticus_definition',
           'time_since_infall', 'halo_age', 'vmax_nfw', 'lenstronomy_ID', 'lenstronomy_params', 'mass_3d']


def basic(h):
    return {k: plain(getattr(h, k)) for k in BASIC}


def read(h, name):
    """value of one public property; refusals (not every class has every property) are values too"""
    try:
        if name == 'z_infall' and not h.is_subhalo:
            return 'n/a'
        if name == 'lenstronomy_params':
            return plain(h.lenstronomy_params[0])
        if name == 'mass_3d':
            return plain(h.mass_3d('r200'))
        if name.startswith('mass_3d@'):
            return plain(h.mass_3d(float(name[8:])))
        if name.startswith('call:'):
            _, meth, arg = name.split(':')
            return plain(getattr(h, meth)(np.array([0.3, 1.0, 4.0]) if arg == 'arr' else arg if arg == 'r200' else float(arg)))
        return plain(getattr(h, name))
    except (AttributeError, NotImplementedError, TypeError) as e:
        return 'refused:' + type(e).__name__
    except Exception as e:
        if type(e) is Exception:
            return 'refused'
        raise


def derived(h, names=DERIVED):
    return {n: read(h, n) for n in names}


def obs_halo(h):
    return dict(cls=type(h).__name__, basic=basic(h), derived=derived(h))


def obs_real(r, deep=True):
    d = dict(n=len(r.halos), masses=plain(r.masses), x=plain(r.x), y=plain(r.y), r3d=plain(r.r3d), z=plain(r.redshifts),
             mdefs=plain(r.mdefs), sub=plain([bool(s) for s in r.subhalo_flags]), planes=plain(r.unique_redshifts))
    if deep:
        d['halos'] = [obs_halo(h) for h in r.halos]
    else:
        d['halos'] = [dict(cls=type(h).__name__, basic=basic(h)) for h in r.halos]
    return d


def no_tags(o):
    o = copy.deepcopy(o)
    for h in o['halos']:
        h['basic'].pop('unique_tag', None)
    return o


def arrays_agree(r, what):
    """the public arrays of a realization describe its halo list"""
    hs = r.halos
    pairs = [('masses', 'mass'), ('x', 'x'), ('y', 'y'), ('redshifts', 'z'), ('r3d', 'r3d'), ('mdefs', 'mdef'), ('subhalo_flags', 'is_subhalo')]
    for arr, at in pairs:
        a = plain(list(getattr(r, arr)))
        b = [plain(getattr(h, at)) for h in hs]
        # r3d of field halos is None; an array of None and floats keeps objects
        d = same(a, b)
        if d:
            raise Violation('arrays-differ', '%s: array %s does not describe the halos: %s' % (what, arr, d))
    u = sorted(set(h.z for h in hs))
    if list(plain(r.unique_redshifts)) != plain(u):
        raise Violation('arrays-differ', '%s: unique_redshifts %s, halos %s' % (what, plain(r.unique_redshifts), u))


def at_z(real, z):
    from pyHalo.single_realization import realization_at_z
    return realization_at_z(real, z)[0]
