"""Rendered populations built from JSON specifications, with an independent account of what the specification allows."""
import numpy as np
from sim import rng

FULL = dict(H0=69.7, Ob0=0.0464, Om0=0.2814, sigma8=0.82, flat=True, ns=0.9608, power_law=False)
COSMO = [None, None, dict(FULL, H0=73.0, Om0=0.25), dict(FULL, H0=68.0, Om0=0.32, Ob0=0.05, sigma8=0.75, ns=0.97)]
LENS = [(0.5, 1.5), (0.3, 0.9), (0.7, 2.0), (0.2, 3.2), (1.0, 1.3), (0.45, 1.77)]
WDM = dict(log_mc=7.6, a_wdm=1.9, b_wdm=0.8, c_wdm=-1.0)
POPS = ['SUBHALOS', 'SUBHALOS', 'LINE_OF_SIGHT', 'LINE_OF_SIGHT', 'LINE_OF_SIGHT_NOSHEET', 'TWO_HALO']


class MLow:
    """minimum mass that depends on redshift"""
    def __init__(self, a, b): self.a, self.b = a, b

    def __call__(self, z): return self.a + self.b * z


def rng_val(v): return MLow(*v) if isinstance(v, list) else v


def at(v, z): return v[0] + v[1] * z if isinstance(v, list) else v


def gen_pop(r, name):
    p = dict(name=name, mf=r.choice(['cdm', 'cdm', 'wdm', 'mixed']), dindex=r.choice([0.0, 0.0, 0.1, -0.2]))
    p['mlow'] = r.choice([6.0, 6.5, 7.0, 7.0, 7.5, [7.0, 0.4], [7.6, -0.3]])
    p['mhigh'] = r.choice([9.0, 10.0, 10.0, [9.5, 0.2]]) if r.random() < 0.85 else r.choice([7.0, 6.5, 8.0])
    p['pois'] = r.random() < 0.85
    if p['mf'] != 'cdm': p['logmc'] = r.choice([6.0, 7.6, 8.8])
    if p['mf'] == 'mixed': p['frac'] = r.choice([0.0, 0.3, 1.0])
    if name == 'SUBHALOS':
        p.update(norm=r.choice(['sigma', 'sigma', 'dndA']), amp=r.choice([0.0, 0.01, 0.03, 0.1]), index=r.choice([-1.9, -1.9, -2.0, -1.0, -1.7]), spatial=r.choice(['U', 'N', 'N']),
                 rmax=r.choice([0.5, 0.5, 0.7]), chost=r.choice([4.0, 7.0, None]), rcore=r.choice([0.1, 0.5]))
        if p['spatial'] == 'N' and r.random() < 0.2: p['rmax'] = 4.0
        if p['index'] == -1.0: p['dindex'] = 0.0
        if p['index'] + p['dindex'] in (-2.0,): p['dindex'] = 0.0
    else:
        p['amp'] = r.choice([0.0, 0.3, 1.0, 1.0])
    return p


def gen(r, pops=None, big=False):
    zl, zs = r.choice(LENS)
    names = pops or r.choice([['SUBHALOS', 'LINE_OF_SIGHT', 'TWO_HALO'], ['LINE_OF_SIGHT'], ['SUBHALOS'], r.sample(POPS, 3), ['SUBHALOS', 'LINE_OF_SIGHT']])
    # the correlation function behind the two-halo term ends at 500 Mpc/h, which a spacing of 0.2 exceeds
    return dict(zl=zl, zs=zs, cosmo=r.choice(COSMO), angle=r.choice([2.0, 4.0, 6.0] if big else [0.5, 1.0, 2.0]), geo=r.choice(['DOUBLE_CONE', 'DOUBLE_CONE', 'CONE', 'CYLINDER']),
                spacing=r.choice([0.1, 0.1, 0.1 if 'TWO_HALO' in names else 0.2, 0.05]), mhost=r.choice([12.5, 13.0, 13.5, 11.5]), pops=[gen_pop(r, n) for n in names], lazar=r.random() < 0.6, boost=r.choice([1.0, 1.0, 0.0, 3.0]),
                mdef_sub=r.choice(['TNFW', 'TNFW', 'NFW', 'ULDM', 'GNFW']), mdef_field=r.choice(['TNFW', 'TNFW', 'NFW', 'SPL_CORE', 'PT_MASS']))


class Built:
    pass


def build(sp):
    from pyHalo.pyhalo import pyHalo
    from pyHalo.Cosmology.geometry import Geometry
    from sim import worlds as W
    b = Built()
    b.sp = sp
    b.ph = pyHalo(sp['zl'], sp['zs'], None if sp['cosmo'] is None else dict(sp['cosmo']))
    b.lc = b.ph.lens_cosmo
    b.lc.setup_infall_model('HYBRID_INFALL', {'log_m_host': 13.2})
    b.geo = Geometry(b.ph.cosmology, sp['zl'], sp['zs'], sp['angle'], sp['geo'])
    b.model = W.halo_model(b.lc, 0, 0, 0, 0, True)
    b.args = lists(b, sp) + [b.geo, sp['mdef_sub'], sp['mdef_field'], b.model, sp['lazar'], sp['boost']]
    b.kw = dict(lens_plane_spacing=sp['spacing'])
    return b


def lists(b, sp):
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw, WDMPowerLaw, MixedWDMPowerLaw
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen, ShethTormenTurnover, ShethTormenMixedWDM
    from pyHalo.Rendering.SpatialDistributions.uniform import LensConeUniform, Uniform
    from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
    mf, kmf, sd, ksd = [], [], [], []
    for p in sp['pops']:
        k = dict(log_mlow=rng_val(p['mlow']), log_mhigh=rng_val(p['mhigh']), m_pivot=1e8, delta_power_law_index=p['dindex'])
        if not p['pois']: k['draw_poisson'] = False
        if p['mf'] != 'cdm': k.update(WDM, log_mc=p['logmc'])
        if p['mf'] == 'mixed': k['mixed_DM_frac'] = p['frac']
        if p['name'] == 'SUBHALOS':
            mf.append(dict(cdm=CDMPowerLaw, wdm=WDMPowerLaw, mixed=MixedWDMPowerLaw)[p['mf']])
            k.update(power_law_index=p['index'], log_m_host=sp['mhost'], host_scaling_factor=0.55, redshift_scaling_factor=0.37)
            if p['norm'] == 'sigma': k['sigma_sub'] = p['amp']
            else: k['dndA'] = p['amp'] * 1e-8
            if p['spatial'] == 'U':
                sd.append(Uniform); ksd.append(dict(rmax2d_arcsec=sp['angle'] * p['rmax'], geometry=b.geo))
            else:
                sd.append(ProjectedNFW)
                ksd.append(dict(m_host=10 ** sp['mhost'], zlens=sp['zl'], rmax2d_arcsec=sp['angle'] * p['rmax'], r_core_units_rs=p['rcore'], lens_cosmo=b.lc, c_host=p['chost']))
        else:
            mf.append(dict(cdm=ShethTormen, wdm=ShethTormenTurnover, mixed=ShethTormenMixedWDM)[p['mf']])
            k.update(LOS_normalization=p['amp'], log_m_host=sp['mhost'])
            sd.append(LensConeUniform); ksd.append(dict(cone_opening_angle=sp['angle'], geometry=b.geo))
        kmf.append(k)
    return [[p['name'] for p in sp['pops']], mf, kmf, sd, ksd]


def render(b, n=1):
    return b.ph.render(*b.args, nrealizations=n, **b.kw)


def population(b, sp=None):
    """the HaloPopulation that render would make (its rendering classes, without halos), possibly with other populations"""
    from pyHalo.Rendering.halo_population import HaloPopulation
    z, dz = planes(b.sp)
    return HaloPopulation(*(b.args[:5] if sp is None else lists(b, sp)), b.lc, b.geo, z, dz, b.sp['lazar'], b.sp['boost'])


def gen_strangers(r):
    """realizations of similar lenses that the same process made earlier"""
    out = []
    while len(out) < 2 and r.random() < 0.35:
        m = dict(angle=r.choice([0.8, 3.0]), geo=r.choice(['DOUBLE_CONE', 'CONE', 'CYLINDER']))
        if r.random() < 0.5: m['cosmo'] = dict(FULL, H0=80.0, Om0=0.2, sigma8=0.9)
        if r.random() < 0.3: m['mhost'] = 12.8
        out.append(m)
    return out


def strangers(sp, mods, ctx):
    for i, m in enumerate(mods):
        rng.mode_real(i)
        q = dict(sp, **m)
        b = build(q)
        for c in population(b).rendering_classes:
            c.convergence_sheet_correction(1.0, 7.0, 9.5)
        for p in q['pops']:
            k = dict(p, mlow=8.8, mhigh=9.3)
            for c in population(b, dict(q, pops=[k])).rendering_classes: c.render()
        ctx.fault('another realization of the same lens made before')


# ------------------------------------------------------------------ what the specification says
def planes(sp):
    """lens planes and spacings by the documented rule: from 0.01 in steps up to the lens, from the lens in steps up to the source"""
    s, zl, zs = int(round(sp['spacing'] * 100)), int(round(sp['zl'] * 100)), int(round(sp['zs'] * 100))
    z = list(range(1, zl, s)) + list(range(zl, zs, s))
    dz = [b - a for a, b in zip(z, z[1:] + [zs])]
    return [v / 100 for v in z], [v / 100 for v in dz]


_ASTRO = {}


def astro(sp):
    from astropy.cosmology import FlatLambdaCDM
    k = dict(H0=67.5, Ob0=0.049, Om0=0.309) if sp['cosmo'] is None else {a: sp['cosmo'][a] for a in ('H0', 'Ob0', 'Om0')}
    key = tuple(sorted(k.items()))
    if key not in _ASTRO: _ASTRO[key] = FlatLambdaCDM(**k)
    return _ASTRO[key]


ARCSEC = np.pi / 180 / 3600


def scale(sp, z):
    """angular size of the rendering area at z in units of its size at the lens"""
    a, zl, zs = astro(sp), sp['zl'], sp['zs']
    if sp['geo'] == 'CONE': return 1.0
    dc = lambda q: a.comoving_distance(q).value
    if sp['geo'] == 'CYLINDER': return dc(zl) / dc(z)
    if z <= zl: return 1.0
    return 1 - 0.95 * (dc(zs) / (dc(zs) - dc(zl))) * (dc(z) - dc(zl)) / dc(z)


def area_mpc2(sp, z):
    """physical area of the rendering aperture at z"""
    a = astro(sp)
    return np.pi * (0.5 * sp['angle'] * ARCSEC * scale(sp, z) * a.angular_diameter_distance(z).value) ** 2


def sigma_crit(sp, z):
    """critical surface density, solar masses per Mpc^2"""
    a, zs = astro(sp), sp['zs']
    d, ds, dds = a.angular_diameter_distance(z).value, a.angular_diameter_distance(zs).value, a.angular_diameter_distance_z1z2(z, zs).value
    c, G = 299792.458, 4.30091727e-9          # km/s, Mpc (km/s)^2 / Msun
    return c ** 2 / (4 * np.pi * G) * ds / (d * dds)


def r200_kpc(sp):
    rho = 200 * astro(sp).critical_density(sp['zl']).to('Msun/Mpc3').value
    return (3 * 10 ** sp['mhost'] / (4 * np.pi * rho)) ** (1 / 3) * 1e3


def nfw_cdf(rs, rc, rmax, n=400):
    """cumulative distribution of the projected radius of a cored NFW profile inside rmax"""
    R = np.linspace(1e-3 * rmax, rmax, n)
    u = np.logspace(-3, 3.3, 600) * rs
    den = lambda r: 1.0 / ((r + rc) * (r + rs) ** 2)
    S = np.array([np.trapezoid(den(np.sqrt(q * q + u * u)), u) + den(q) * u[0] for q in R]) if hasattr(np, 'trapezoid') else \
        np.array([np.trapz(den(np.sqrt(q * q + u * u)), u) + den(q) * u[0] for q in R])
    c = np.cumsum(S * R)
    return R, c / c[-1]
