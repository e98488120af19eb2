"""P17: infall and tidal stripping for every draw.  The simulator owns every quantile of every halo (ordinary ones and the ends of each distribution, addressed
by halo, function and draw number), reads the halos in any order, in batches, stopped half way, with other halos drawn in between, and compares what
comes out with the distribution each model documents, with the mass the exported profile holds, and with the same halo drawn alone."""
import numpy as np
from scipy.special import ndtr, ndtri
from scipy.interpolate import RegularGridInterpolator
from sim import faults, worlds as W, rng, popul as P
from sim.core import plain, same, stable_hash, Violation, Injected, InjectedInterrupt, InjectedMemoryError

PLAN = {'quick': dict(runs=420, wall=150, limit=90, min=100), 'thorough': dict(runs=20000, wall=780, limit=120, min=800)}
RULE = 'distinct (infall model, truncation model, concentration model, halo class, kinds of quantile drawn, way of reading) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'

INFALL = ['HYBRID_INFALL', 'HYBRID_INFALL', 'DIRECT_INFALL', 'GALACTICUS_2024', 'DIRECT_INFALL_CLUSTER', 'INFALL_ZLENS', 'INFALL_0', 'MW30', 'MW50', 'MW200']
TRUNC = ['TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL', 'TRUNCATION_GALACTICUS_KEELEY24', 'TRUNCATION_GALACTICUS_CDM_APPROX', 'MW', 'BOUND_MASS_PDF',
         'TRUNCATION_ROCHE', 'TRUNCATION_ROCHE_GILMAN2020', 'TRUNCATION_MEAN_DENSITY', 'MULTIPLE_RS', 'CONSTANT', 'TRUNCATION_RN', 'TRUNCATION_R200']       # the splashback radius is meant for field halos
GALACTICUS = TRUNC[:6]
STRETCH = ['TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL', 'TRUNCATION_GALACTICUS_CDM_APPROX', 'MW', 'BOUND_MASS_PDF']      # normalization follows the bound mass
# mean and width of the infall redshift, a / (1 + b (-log10 q)^c), and the redshift tables, as published with the models
FITS = {'HYBRID_INFALL': ((3.35549949, 3.20546995, -2.91075587), (1.97880156, 4.17390702, -2.14428416)), 'DIRECT_INFALL': ((3.3064042, 4.528511, -3.84346439), (1.94929171, 4.91504583, -2.4187402)),
        'DIRECT_INFALL_CLUSTER': ((2.05705664, 9.43229827, -4.69408104), (1.60922533, 9.45120467, -2.5087969)), 'MW30': ((3.2, -3, -3), (1.8, 2.0, -2.6)),
        'MW50': ((2.7, -2.0, -3.0), (1.8, 2.0, -2.6)), 'MW200': ((0.5, 2.04, -11.3861), (2.07127, 2.22591, -2.619518))}
ENDS = [0.0, 2.0 ** -53, 1e-9, 1e-4, 0.5, 1 - 1e-4, 1 - 1e-9, rng.BELOW_ONE]
NAMES = ['z_infall', 'time_since_infall', 'c', 'bound_mass_galacticus_definition', 'profile_args', 'params_physical', 'bound_mass', 'lenstronomy_params', 'nfw_params', 'mass_3d', 'vmax_nfw', 'z_eval']
LOGTOL = 3e-2


def gen_op(r):
    k = r.choice(['walk'] * 6 + ['read'] * 4 + ['batch', 'batch', 'stop', 'stop', 'preset', 'simple'])
    op = dict(op=k, h=r.randint(0, 20))
    if k == 'read': op['name'] = r.choice(NAMES)
    elif k == 'stop': op.update(name=r.choice(NAMES), frac=r.random(), kind=r.choice(['error', 'interrupt', 'memory']))
    elif k == 'batch': op['f'] = r.choice(['precompute_realization', 'precompute_infall_times', 'precompute_tnfw_subhalos', 'precompute_tnfw_bound_masses'])
    elif k == 'preset': op['dz'] = r.choice([0.0, 1e-6, 0.001, 0.5, 3.0, 8.5, 15.0])
    elif k == 'simple': op.update(f=r.choice([1.0, 0.9, 0.3, 1e-2, 1e-4, 1e-7]), m=r.choice([6.0, 8.0, 10.5]), dz=r.choice([0.0, 0.1, 4.0, 12.0]), tau=r.choice([1e-3, 1.0, 50.0]))
    return op


def generate(r, i, tier):
    infall = r.choice(INFALL)
    zl, zs = r.choice([(0.5, 1.5), (0.2, 0.8), (1.0, 3.0), (0.05, 1.0), (0.73, 1.9)])
    hosts = {'DIRECT_INFALL_CLUSTER': [14.0, 14.7, 15.0], 'MW30': [12.0, 12.3], 'MW50': [12.0], 'MW200': [12.0, 12.1]}.get(infall, [12.5, 13.0, 13.3, 14.0])
    hs = []
    for j in range(r.randint(1, 6)):
        sub = r.random() < 0.85
        m = 10 ** (r.choice([5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0]) if r.random() < 0.3 else r.uniform(5, 11))
        if hs and r.random() < 0.35: m = r.choice(hs)['m']
        hs.append(dict(m=m, x=round(r.uniform(-1.5, 1.5), 3), y=round(r.uniform(-1.5, 1.5), 3), r3d=r.choice([1e-3, 0.1, 3.0, 40.0, 300.0]) if sub else None, mdef=r.choice(['TNFW'] * 6 + ['NFW', 'PJAFFE', 'GNFW', 'SPL_CORE']), z=zl if sub else r.choice([0.03, 0.4, 0.95]) if zs > 1 else 0.4, sub=sub))
    mhost = r.choice(hosts)
    if r.random() < 0.2:            # a subhalo as massive as its host
        h = r.choice(hs)
        h['m'] = 10 ** mhost * r.choice([0.3, 0.5, 0.9, 1.0, 2.0])
    ops = [gen_op(r) for _ in range(r.randint(3, 9))]
    trunc = r.choice(TRUNC)
    if r.random() < 0.3:            # some of the properties of some of the halos are known when a batch starts
        trunc = r.choice(['TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL'])
        for h in hs: h.update(mdef='TNFW')
        ops = [dict(op='read', h=r.randint(0, 20), name=r.choice(['bound_mass_galacticus_definition', 'bound_mass_galacticus_definition', 'z_infall', 'c', 'nfw_params', 'profile_args', 'time_since_infall'])) for _ in range(r.randint(1, 3))] + \
              [dict(op='batch', h=0, f=r.choice(['precompute_realization', 'precompute_tnfw_subhalos']))] + ops
    return dict(infall=infall, zl=zl, zs=zs, mhost=mhost, cosmo=r.choice([0, 0, 1]), trunc=trunc, chost=r.choice([2.0, 4.0, 6.0, 7.3, 9.5, 14.0]), tfield=r.choice(['TRUNCATION_RN', 'TRUNCATION_R50', 'TRUNCATION_R200', 'SPLASHBACK', 'MULTIPLE_RS', 'TRUNCATION_MEAN_DENSITY']),
                conc=r.choice([0, 1, 2, 4, 5, 6, 6, 6]), scatter=r.random() < 0.7, meanscatter=r.choice([0.0, 0.3]), ends=r.choice([0.0, 0.3, 0.7, 1.0]), halos=hs, ops=ops)


CUR = [None]


class Quantiles:
    """quantile c of halo i in one function is the same number whenever and wherever it is drawn; some are the ends of the distribution"""
    def __init__(self, seed, ends):
        self.seed, self.ends, self.n, self.drawn = seed, ends, {}, []

    def __call__(self, n, site):
        a = (CUR[0], site)
        c = self.n.get(a, 0)
        self.n[a] = c + 1
        g = np.random.Generator(np.random.PCG64(stable_hash(self.seed, CUR[0], site, c)))
        q = g.random(n)
        m = g.random(n) < self.ends
        lo = 1 if any(x in site for x in ('interp_mass_loss', 'batch', 'tidal', 'oncentration')) else 0       # a normal draw is never infinite
        q[m] = g.choice(ENDS[lo:], size=int(m.sum()))
        self.drawn += [float(v) for v in q]
        return q


def build(scn):
    from pyHalo.Cosmology.cosmology import Cosmology
    from pyHalo.Halos.lens_cosmo import LensCosmo
    import pyHalo.Halos.accretion as A
    kw = W.COSMOS[scn['cosmo']]
    cosmo = Cosmology() if kw is None else Cosmology(None, dict(kw))
    name = {'MW30': A.InfallDistributionDirectMilkyWay30kpc, 'MW50': A.InfallDistributionDirectMilkyWay50kpc, 'MW200': A.InfallDistributionDirectMilkyWay200kpc}.get(scn['infall'], scn['infall'])
    lc = LensCosmo(scn['zl'], scn['zs'], cosmo, name, {'log_m_host': scn['mhost']})
    t = scn['trunc']
    kwt = {'c_host': scn['chost']} if t in ('TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL', 'TRUNCATION_GALACTICUS_KEELEY24', 'MW') else {'rt_arcsec': 0.2} if t == 'CONSTANT' else {'tau': 2.0} if t == 'MULTIPLE_RS' else {'intrinsic_scatter': scn['meanscatter']} if t == 'TRUNCATION_MEAN_DENSITY' else {}
    f = scn['tfield']
    kwf = {'tau': 3.0} if f == 'MULTIPLE_RS' else {}
    conc = W.CONC[scn['conc']]
    model = {'truncation_model_subhalos': W.trunc_model(t, kwt, lc), 'truncation_model_field_halos': W.trunc_model(f, kwf, lc),
             'concentration_model_subhalos': W.conc_model(*conc, lc, scn['scatter']), 'concentration_model_field_halos': W.conc_model(*conc, lc, scn['scatter']), 'kwargs_density_profile': dict(W.PROFILE_ARGS)}
    return lc, model, W.realization(lc, scn['halos'], model, W.geometry(lc))


def bad(kind, msg): raise Violation(kind, msg)


def finite(v):
    if isinstance(v, dict): return all(finite(x) for x in v.values())
    if isinstance(v, (list, tuple)): return all(finite(x) for x in v)
    return v is None or isinstance(v, (str, bool)) or bool(np.isfinite(v))


def read(i, h, name):
    CUR[0] = i
    return W.read(h, name)


def fit(p, q): return p[0] / (1 + p[1] * (-np.log10(q)) ** p[2])


def infall_of(scn, m, q):
    """redshift of infall at quantile q of the documented distribution; None where the model leaves it open"""
    k, zl = scn['infall'], scn['zl']
    if k == 'INFALL_0': return 0.0
    if k == 'INFALL_ZLENS': return zl
    if k == 'GALACTICUS_2024':
        counts = np.cumsum([50, 93, 125, 180, 175, 144, 120, 117, 97, 82, 52, 51, 35, 20, 9, 4, 4, 0, 1, 1])
        cdf = counts / counts[-1]
        z = 0.53836189 - 0.5 + 0.83540046 * np.arange(20)
        return zl + float(np.interp(cdf[0] + (1 - cdf[0]) * q, cdf, z))
    ratio = min(max(m / 10 ** scn['mhost'], 1e-5), 10 ** -0.5)
    mu, sg = fit(FITS[k][0], ratio), fit(FITS[k][1], ratio)
    a, b = -mu / sg, (15 - mu) / sg
    if a > 5 or b < 5: return None
    if a > 0 and FLIP[0]: return zl + float(np.clip(mu - sg * ndtri(ndtr(-b) + (ndtr(-a) - ndtr(-b)) * q), 0, 15))       # a mean below the range: the tail may be drawn from either side
    u = ndtr(a) + (ndtr(b) - ndtr(a)) * q
    if u > 1 - 1e-15: return None           # too close to one for the inverse to be defined by the documented distribution
    return zl + float(np.clip(mu + sg * ndtri(min(u, rng.BELOW_ONE)), 0, 15))


_TAB = {}


def table(k):
    if k not in _TAB:
        if k == 'MW':
            from pyHalo.Halos.galacticus_truncation.johnsonSUparams_MW_rmax30kpc import a_fit as a, b_fit as b
            x = (np.linspace(0, 12.9, 15), np.linspace(np.log10(2), np.log10(128), 15), np.linspace(6, 12, 15))
        else:
            if k == 'TRUNCATION_GALACTICUS': from pyHalo.Halos.galacticus_truncation.johnsonSUparams import a_fit as a, b_fit as b
            else: from pyHalo.Halos.galacticus_truncation.johnsonSUparams import a_fit_zinfall as a, b_fit_zinfall as b
            x = (np.linspace(0, 8.1, 15), np.linspace(np.log10(2), np.log10(384), 15), np.linspace(4, 9, 15))
        _TAB[k] = x, [RegularGridInterpolator(x, np.array(v).reshape(15, 15, 15), bounds_error=False, fill_value=None) for v in (a, b)]
    return _TAB[k]


def loss_of(scn, t, dz, c, q):
    """log10 of the bound fraction at quantile q of the Johnson S_U distribution of the models that use it"""
    k = scn['trunc']
    if k == 'TRUNCATION_GALACTICUS_CDM_APPROX':
        z = min(max(scn['zl'], 0.2), 1.2)
        s, l = np.interp(z, [0.2, 0.5, 0.8, 1.2], [2.5, 1.8, 1.2, 0.6]), np.interp(z, [0.2, 0.5, 0.8, 1.2], [-4.0, -1.3, -1.0, -1.0])
        a, b = ndtr((-10 - l) / s), ndtr(-l / s)
        return float(np.clip(l + s * ndtri(min(max(a + (b - a) * q, 1e-300), rng.BELOW_ONE)), -10, 0))
    if k not in ('TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL', 'MW'): return None
    x, (A, B) = table(k)
    top = {'TRUNCATION_GALACTICUS': 8.1, 'TRUNCATION_GALACTICUS_ZINFALL': 9.5, 'MW': 12.9}[k]
    v = min(max(dz if k == 'TRUNCATION_GALACTICUS_ZINFALL' else t, 0.001 if k == 'TRUNCATION_GALACTICUS_ZINFALL' else 0.0), top)
    p = (v, min(max(np.log10(c), x[1][0]), x[1][-1]), min(max(scn['chost'], 6.0 if k == 'MW' else 4.0), 12.0 if k == 'MW' else 8.0))
    return float(np.clip(np.sinh((ndtri(min(max(q, 1e-16), rng.BELOW_ONE)) - float(np.squeeze(A(p)))) / float(np.squeeze(B(p)))), -10, 0))


def total_mass(scn, lc, sigma, h, kw, rmax=None):
    """mass of the exported truncated profile, all of it or within rmax (kpc)"""
    kpc = lc.cosmo.kpc_proper_per_asec(h.z)
    rs, rt = kw['Rs'] * kpc, kw['r_trunc'] * kpc
    rho = kw['alpha_Rs'] * kpc * sigma / (4 * rs ** 2 * (1 + np.log(0.5)))
    t = rt / rs
    if rmax is None:
        f = t ** 2 / (t ** 2 + 1) ** 2 * ((t ** 2 - 1) * np.log(t) + t * np.pi - (t ** 2 + 1)) if t > 1e-4 else t ** 2 * (-np.log(t) - 1)
        return 4 * np.pi * rho * rs ** 3 * f
    s = np.linspace(np.log(1e-9 * min(1.0, t)), np.log(rmax / rs), 4000)
    x = np.exp(s)
    return float(4 * np.pi * rho * rs ** 3 * np.trapezoid(x ** 2 / (1 + x) ** 2 * t ** 2 / (t ** 2 + x ** 2), s))


def invariants(scn, lc, i, h, ctx, how):
    """what every read halo must satisfy"""
    what = '%s halo of mass %.6g, %s, %s (%s)' % (type(h).__name__, h.mass, scn['infall'], scn['trunc'] if h.is_subhalo else scn['tfield'], how)
    z = read(i, h, 'z_infall')
    if h.is_subhalo:
        lo, hi = (0.0, 0.0) if scn['infall'] == 'INFALL_0' else (scn['zl'], scn['zl'] + 15.92)
        if not finite(z) or not lo - 1e-12 <= z <= hi + 1e-9:
            if not (i in PRESET and z == PRESET[i]): bad('infall', '%s: infall redshift %r, allowed %s to %s' % (what, z, lo, hi))
        t = read(i, h, 'time_since_infall')
        if not finite(t) or t < 0: bad('time', '%s: time since infall %r, infall at %r' % (what, t, z))
        if z > h.z:
            a = W.COSMOS[scn['cosmo']]
            ap = P.astro(dict(cosmo=a))
            ref = float(ap.age(h.z).value - ap.age(z).value)
            if abs(t - ref) > 0.015 + 2e-3 * ref: bad('time', '%s: time since infall %r, the universe aged %r between %r and %r' % (what, t, ref, z, h.z))
    c = read(i, h, 'c')
    if not isinstance(c, str) and (not finite(c) or c < 1.0): bad('concentration', '%s: concentration %r' % (what, c))
    pa = read(i, h, 'profile_args')
    kw = read(i, h, 'lenstronomy_params')
    for nm in ('profile_args', 'params_physical', 'lenstronomy_params', 'nfw_params', 'mass_3d', 'vmax_nfw'):
        v = read(i, h, nm)
        if not finite(v): bad('finite', '%s: %s is %s' % (what, nm, v))
    if type(h).__name__ not in ('TNFWSubhalo', 'TNFWFieldHalo'): return
    rt = pa[1]
    if not rt > 0: bad('truncation', '%s: truncation radius %r' % (what, rt))
    if not (kw[0]['r_trunc'] > 0 and kw[0]['Rs'] > 0): bad('truncation', '%s: exported %s' % (what, kw))
    if not kw[0]['alpha_Rs'] >= 0: bad('finite', '%s: exported %s' % (what, kw))
    if scn['trunc'] in GALACTICUS and h.is_subhalo:
        mb = read(i, h, 'bound_mass_galacticus_definition')
        if not finite(mb) or not 0 < mb <= h.mass * (1 + 1e-12): bad('bound-mass', '%s: bound mass %r' % (what, mb))
        if scn['trunc'] in STRETCH:
            pp = read(i, h, 'params_physical')
            t = pp['r_trunc_kpc'] / pp['rs']
            f = t ** 2 / (t ** 2 + 1) ** 2 * ((t ** 2 - 1) * np.log(t) + t * np.pi - (t ** 2 + 1)) if t > 1e-4 else t ** 2 * (-np.log(t) - 1)
            tot = 4 * np.pi * pp['rhos'] * pp['rs'] ** 3 * f
            if abs(tot / mb - 1) > 2e-2: bad('bound-mass', '%s: the profile holds %r, drawn bound mass %r' % (what, tot, mb))
    if h.is_subhalo:
        b = read(i, h, 'bound_mass')
        # the profile within the virial radius of infall; stripping removes mass
        if not finite(b) or not 0 < b <= h.mass * (1 + 1e-6 if scn['trunc'] != 'CONSTANT' else 1.01): bad('bound-mass', '%s: mass within the virial radius %r' % (what, b))
        sg = SIGMA[0]
        _, rs, r200 = read(i, h, 'nfw_params')
        if kw[0]['alpha_Rs'] > 1e-6 and kw[0]['Rs'] > 1e-6:          # exported with ten decimals
            err = 1e-2 + 3e-9 / kw[0]['Rs'] + 3e-10 / kw[0]['alpha_Rs']
            m2 = total_mass(scn, lc, sg, h, kw[0], c * rs)
            if abs(m2 / b - 1) > err: bad('exported', '%s: the exported profile holds %r within the virial radius, bound mass %r' % (what, m2, b))
            if scn['trunc'] in STRETCH and scn['trunc'] != 'BOUND_MASS_PDF':
                tot = total_mass(scn, lc, sg, h, kw[0])
                if abs(tot / mb - 1) > 2e-2 + err: bad('exported', '%s: the exported profile holds %r, drawn bound mass %r' % (what, tot, mb))
            elif scn['trunc'] == 'TRUNCATION_GALACTICUS_KEELEY24' and 1e-5 < mb / h.mass < 0.99 and c < 490:
                if abs(m2 / mb - 1) > (0.1 if mb > 0.8 * h.mass else 0.03): bad('exported', '%s: the exported profile holds %r within the virial radius, drawn bound mass %r' % (what, m2, mb))
        ctx.count('profiles weighed')
    ctx.state(scn['infall'], scn['trunc'] if h.is_subhalo else scn['tfield'], scn['conc'], h.is_subhalo, how, min(int(-np.log10(max(kw[0]['r_trunc'], 1e-30))), 9))


PRESET, SIGMA, FLIP = {}, [None], [False]


def walk(scn, lc, Q, i, h, ctx):
    """the draws of a fresh subhalo one after the other, each against its distribution"""
    Q.drawn = []
    z = read(i, h, 'z_infall')
    if i not in PRESET:
        want = []
        for FLIP[0] in (False, True): want += [infall_of(scn, h.mass, q) for q in (Q.drawn or [0.5])]
        if None not in want and not any(abs(z - w) < 1e-4 * (1 + z) for w in want): bad('infall-law', '%s, mass %r: drew the quantiles %s, infall redshift %r, expected %s' % (scn['infall'], h.mass, Q.drawn, z, want))
    t, c = read(i, h, 'time_since_infall'), read(i, h, 'c')
    if type(h).__name__ != 'TNFWSubhalo': return
    if scn['trunc'] in GALACTICUS:
        Q.drawn = []
        mb = read(i, h, 'bound_mass_galacticus_definition')
        if not finite(mb) or not 0 < mb <= h.mass * (1 + 1e-12): bad('bound-mass', 'mass %r, %s, concentration %r, infall %r: bound mass %r' % (h.mass, scn['trunc'], c, z, mb))
        lf = np.log10(mb / h.mass)
        want = [loss_of(scn, t, z - scn['zl'], c, q) for q in Q.drawn]
        if want and None not in want and not any(abs(lf - w) < 1e-4 + 1e-3 * abs(w) for w in want): bad('stripping-law', '%s, concentration %r, %r Gyr after infall at %r, c_host %r: drew the quantiles %s, log10 of the bound fraction %r, expected %s' % (scn['trunc'], c, t, z, scn['chost'], Q.drawn, lf, want))
        ctx.count('stripping draws compared')
    elif scn['trunc'] == 'BOUND_MASS_PDF':
        Q.drawn = []
        kw = read(i, h, 'lenstronomy_params')[0]
        want = [min(0.999 if v >= 0 else 10 ** v, 1.0) for v in (-1.5 + 0.5 * ndtri(min(max(q, 1e-16), rng.BELOW_ONE)) for q in Q.drawn)]
        if kw['alpha_Rs'] > 1e-6 and kw['Rs'] > 1e-6:
            tot = total_mass(scn, lc, SIGMA[0], h, kw)
            if not any(abs(tot / h.mass / f - 1) < 3e-2 + 3e-9 / kw['Rs'] + 3e-10 / kw['alpha_Rs'] for f in want): bad('stripping-law', 'drew the quantiles %s, the profile holds %r of its mass %r, expected fractions %s' % (Q.drawn, tot, h.mass, want))
    elif scn['trunc'] == 'TRUNCATION_MEAN_DENSITY':
        if not read(i, h, 'profile_args')[1] > 0: bad('truncation', 'mean density: truncation radius %r' % read(i, h, 'profile_args')[1])


def execute(scn, ctx):
    rng.mode_real(scn['seed'])
    PRESET.clear()
    Q = Quantiles(scn['seed'], scn['ends'])
    rng.mode_script(Q)
    CUR[0] = 'build'
    lc, model, real = build(scn)
    hs = real.halos
    a = P.astro(dict(cosmo=W.COSMOS[scn['cosmo']]))
    # critical surface density at the lens in solar masses per kpc^2
    from astropy import constants as K, units as U
    dl, ds, dls = a.angular_diameter_distance(scn['zl']), a.angular_diameter_distance(scn['zs']), a.angular_diameter_distance_z1z2(scn['zl'], scn['zs'])
    SIGMA[0] = float((K.c ** 2 / (4 * np.pi * K.G) * ds / dl / dls).to(U.M_sun / U.kpc ** 2).value)
    # every halo drawn alone, on a copy of the untouched process
    alone = {}
    for i, h in enumerate(hs):
        st, v = faults.forked(lambda: {nm: plain(read(i, h, nm)) for nm in NAMES})
        if st == 'ok': alone[i] = v
        else: [read(i, h, nm) for nm in NAMES]; raise RuntimeError(v)
    seen, dirty = {}, set()
    subs = [i for i, h in enumerate(hs) if h.is_subhalo]
    for op in scn['ops']:
        ctx.steps += 1
        i = op['h'] % len(hs)
        h, k = hs[i], op['op']
        if k == 'walk':
            fresh = [j for j in subs if j not in seen]
            if fresh:
                j = fresh[op['h'] % len(fresh)]
                walk(scn, lc, Q, j, hs[j], ctx)
                seen[j] = 'walk'
                invariants(scn, lc, j, hs[j], ctx, 'one property after the other')
        elif k == 'read':
            read(i, h, op['name'])
            seen.setdefault(i, 'read ' + op['name'])
        elif k == 'stop':
            CUR[0] = i
            st = (dict(Q.n), list(Q.drawn))
            n = faults.forked(lambda: faults.count_lines(lambda: read(i, h, op['name'])))[1]
            if not isinstance(n, int) or n < 2: continue
            faults.arm(1 + int(op['frac'] * (n - 1)), op['kind'])
            try: read(i, h, op['name'])
            except (Injected, InjectedInterrupt, InjectedMemoryError): pass
            finally:
                if faults.disarm()[1]:
                    ctx.fault('read stopped by ' + op['kind'])
                    dirty.add(i)
                    seen.setdefault(i, 'stopped ' + op['name'])
                else: seen.setdefault(i, 'read ' + op['name'])
        elif k == 'batch':
            import pyHalo.Halos.batch_halo_util as B
            CUR[0] = 'batch%d' % ctx.steps
            tn = [hs[j] for j in subs if type(hs[j]).__name__ == 'TNFWSubhalo']
            if op['f'] == 'precompute_realization': B.precompute_realization(real)
            elif op['f'] == 'precompute_infall_times': B.precompute_infall_times(hs, lc)
            elif op['f'] == 'precompute_tnfw_subhalos' and scn['trunc'] in ('TRUNCATION_GALACTICUS', 'TRUNCATION_GALACTICUS_ZINFALL'): B.precompute_tnfw_subhalos(tn, model['truncation_model_subhalos'])
            elif op['f'] == 'precompute_tnfw_bound_masses' and tn:
                for x in tn:
                    CUR[0] = hs.index(x)
                    _ = x.profile_args
                B.precompute_tnfw_bound_masses(tn)
            else: continue
            for j in range(len(hs)):
                seen.setdefault(j, 'batch')
                if not op['f'] == 'precompute_tnfw_bound_masses': dirty.add(j)
        elif k == 'preset':
            fresh = [j for j in subs if j not in seen]
            if fresh:
                j = fresh[op['h'] % len(fresh)]
                PRESET[j] = scn['zl'] + op['dz']
                hs[j].set_infall_redshift(PRESET[j])
                dirty.add(j)
        elif k == 'simple':
            from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo, TNFWFieldHalo
            CUR[0] = 'simple%d' % ctx.steps
            m = 10 ** op['m']
            s = TNFWSubhalo.simple_setup(m, op['f'], scn['zl'] + op['dz'], 0.1, 0.2, scn['zl'], lc)
            kw = s.lenstronomy_params[0][0]
            if not finite(kw) or not kw['r_trunc'] > 0: bad('truncation', 'simple subhalo, %s: %s' % (op, kw))
            if kw['alpha_Rs'] > 1e-6 and kw['Rs'] > 1e-6:
                tot = total_mass(scn, lc, SIGMA[0], s, kw)
                if abs(tot / (op['f'] * m) - 1) > 3e-2 + 3e-9 / kw['Rs'] + 3e-10 / kw['alpha_Rs']: bad('exported', 'a subhalo set up with bound mass %r exports a profile holding %r' % (op['f'] * m, tot))
            f = TNFWFieldHalo.simple_setup(m, 0.1, 0.2, scn['zl'], op['tau'], lc)
            kw = f.lenstronomy_params[0][0]
            if abs(kw['r_trunc'] / kw['Rs'] / op['tau'] - 1) > 5e-3 + 2e-4 / scn['zl']: bad('truncation', 'simple field halo, tau=%r: %s' % (op['tau'], kw))
    for i, h in enumerate(hs):
        invariants(scn, lc, i, h, ctx, seen.get(i, 'at the end'))
        if i in dirty: continue
        for nm in NAMES:
            v = read(i, h, nm)
            exact = scn['conc'] == 6 and scn['trunc'] != 'TRUNCATION_MEAN_DENSITY' != scn['tfield']     # the concentration table is extended as it is used
            u, w = alone[i][nm], v
            if nm.startswith('bound_mass') and not isinstance(u, str): u, w = np.log10(u), np.log10(w)
            d = same(u, w, rtol=1e-9 if exact else LOGTOL, atol=3e-10 if exact else 1e-2 if nm.startswith('bound_mass') else 3e-10)
            if d: bad('independence', '%s of halo %d (%s, mass %r): alone %s, among others (%s) %s: %s' % (nm, i, type(h).__name__, h.mass, u, seen.get(i, 'not read before'), w, d))
            ctx.log(nm, w)
    ctx.fault('quantiles at the end of a distribution', sum(1 for q in Q.drawn if q in ENDS))


def simplify(scn):
    hs = scn['halos']
    for i in range(len(hs)):
        if len(hs) > 1: yield dict(scn, halos=hs[:i] + hs[i + 1:])
    if scn['cosmo']: yield dict(scn, cosmo=0)
