"""P22: the abundance of rendered populations. The simulator stands between the code and the Poisson draws: it sees every expectation the code
asks for, decides every count and every mass and thinning quantile, and predicts from the arguments alone - with its own cosmology, volumes,
power-law fits, two-halo boost and cutoffs - the expectation of each population on each plane and the exact list of halos that must come out."""
import numpy as np
from sim import calls, faults, popul as P, rng
from sim.core import Violation, INJECTED
from sim.props.p18 import ABC, colossus_st, inverse_cdf, power_moment, wdm

PLAN = {'quick': dict(runs=100, wall=170, limit=120, min=50), 'thorough': dict(runs=7000, wall=800, limit=120, min=600)}
RULE = 'distinct (preset or list of populations, way the amplitude is given, options that change the abundance, what happened before) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'
ASSUME = ['each population on each plane is drawn by one Poisson draw, followed by its mass quantiles and, for a cutoff, its thinning quantiles']
RTOL = 1.5e-3        # distances are interpolated by the code


def tol(z): return RTOL + 2.2e-4 / max(z, 0.02)        # the grid of the interpolation has steps of 0.02


DEFAULT = dict(H0=67.5, Ob0=0.049, Om0=0.309, sigma8=0.81, ns=0.965, power_law=False)
NAMES = ['CDM', 'CDM', 'CDM', 'WDM', 'WDM', 'WDM', 'WDMGeneral', 'WDM_mixed', 'ULDM', 'CDMBinned', 'CDMBinned', 'CDMCorrelatedStructure', 'SIDM_core_collapse', 'SIDM_parametric',
         'SIDM_parametric_fixedbins', 'CDM_plus_BH']
SUBM = ['SHMF_LOVELL2020', 'SHMF_LOVELL2014', 'SHMF_SCHIVE2016', 'POWER_LAW_TURNOVER_SHMF']
LOSM = ['LOVELL2020', 'LOVELL2014', 'SCHIVE2016', 'POWER_LAW_TURNOVER']


# ------------------------------------------------------------------ generation
def gen_preset(r):
    n = r.choice(NAMES)
    zl, zs = r.choice(P.LENS)
    kw = dict(z_lens=zl, z_source=zs)

    def opt(p, name, *vals):
        if r.random() < p: kw[name] = r.choice(vals)
    if n != 'CDMBinned':
        kw['log_mlow'] = r.choice([6.0, 6.5, 7.0, 7.5, round(r.uniform(5.5, 8), 2)])
        kw['log_mhigh'] = r.choice([9.0, 10.0, 10.0, 10.6, round(r.uniform(8.5, 10.7), 2)])
        if n in ('CDM', 'WDM'):
            if r.random() < 0.15: kw['log_mlow'] = {'z': [7.0, 0.4]}
            if r.random() < 0.15: kw['log_mhigh'] = {'z': [9.5, 0.3]}
    opt(0.8, 'cone_opening_angle_arcsec', 2.0, 5.0, 8.0, 1.0)
    opt(0.7, 'log_m_host', 12.5, 13.0, 13.0, 13.7)
    opt(0.5, 'geometry_type', 'DOUBLE_CONE', 'CONE', 'CYLINDER')
    opt(0.7, 'LOS_normalization', 0.0, 0.4, 1.0, 1.7)
    if n not in ('CDM_plus_BH',): opt(0.5, 'kwargs_cosmo', P.COSMO[2], P.COSMO[3], dict(P.FULL))
    if n in ('CDM', 'CDMBinned', 'WDM') and zl != 1.0: opt(0.6, 'lens_plane_spacing', 0.1, 0.05)
    if n == 'CDMCorrelatedStructure':
        opt(0.6, 'scale_2halo_boost_factor', 0.0, 2.0, 0.7)
        opt(0.4, 'delta_power_law_index', 0.1, -0.2)
        return dict(name=n, kw=kw)
    opt(0.6, 'sigma_sub', 0.0, 0.01, 0.05, 0.2)
    opt(0.7, 'shmf_log_slope', -1.9, -1.8, -2.0, -1.95, -1.0)
    opt(0.3, 'log10_sigma_sub', -1.5, -0.7)
    if n not in ('CDMBinned', 'WDM_mixed', 'CDM_plus_BH'): opt(0.25, 'log10_dNdA', -1.5, -2.5)
    if n == 'WDM_mixed': kw.pop('log10_sigma_sub', None)
    if n in ('CDM', 'CDMBinned', 'WDM', 'WDMGeneral', 'SIDM_core_collapse'):
        opt(0.5, 'host_scaling_factor', 0.0, 0.88, 0.3)
        opt(0.5, 'redshift_scaling_factor', 0.0, 1.7, -0.4)
    if n in ('CDM', 'WDM', 'WDMGeneral', 'SIDM_core_collapse'): opt(0.35, 'two_halo_Lazar_correction', False, False, True)
    if n in ('CDM', 'WDM'):
        opt(0.3, 'two_halo_contribution', False)
        opt(0.5, 'subhalo_spatial_distribution', 'UNIFORM', 'PROJECTED_NFW')
    if n in ('CDM', 'WDM', 'SIDM_core_collapse') and r.random() < 0.15: kw['draw_poisson'] = False
    if n == 'CDM': opt(0.4, 'delta_power_law_index', 0.1, -0.2, 0.07)
    if n in ('WDM', 'WDM_mixed', 'WDMGeneral'): kw['log_mc'] = r.choice([6.5, 7.5, 8.3, round(r.uniform(5, 9.5), 2)])
    if n == 'WDM':
        opt(0.6, 'mass_function_model_subhalos', *SUBM)
        opt(0.6, 'mass_function_model_fieldhalos', *LOSM)
        for side in ('subhalos', 'fieldhalos'):
            if 'POWER' in kw.get('mass_function_model_' + side, ''):
                kw['kwargs_mass_function_' + side] = dict(a_wdm=r.choice([0.5, 2.0]), b_wdm=r.choice([0.8, 1.2]), c_wdm=r.choice([-1.0, -0.5]))
    if n == 'WDM_mixed':
        kw['mixed_DM_frac'] = r.choice([0.0, 0.2, 0.6, 1.0])
        if r.random() < 0.3: kw['kwargs_mass_function_' + r.choice(['subhalos', 'fieldhalos'])] = dict(a_wdm=1.4, c_wdm=-1.5)
    if n == 'WDMGeneral': kw['dlogT_dlogk'] = r.choice([-1.2, -2.0, -3.0])
    if n == 'ULDM': kw.update(log10_m_uldm=r.choice([-21.0, -21.5, -20.5, -22.0]), flucs=False)
    if n == 'CDMBinned':
        opt(0.5, 'log10_mc_low', 1.2, 1.4)
        opt(0.6, 'scale_mass_function_low', 0.5, 2.0)
        opt(0.6, 'scale_mass_function_high', 0.3, 1.6)
    if n == 'SIDM_core_collapse':
        kw.update(mass_ranges_subhalos=[[6, 8], [8, 10]], mass_ranges_field_halos=[[6, 8], [8, 10]], probabilities_subhalos=[0.5, 0.2], probabilities_field_halos=[0.3, 1.0],
                  mass_threshold_sis=None, x_core_halo=0.05)
    if n == 'SIDM_parametric': kw.update(log10_mass_ranges=[[5.0, 8.0], [8.0, 11.0]], log10_effective_cross_section_list=[0.5, 1.0])
    if n == 'SIDM_parametric_fixedbins': kw.update(log10_sigma_eff_mlow_8=0.5, log10_sigma_eff_8_mhigh=1.0)
    if n == 'CDM_plus_BH': kw.update(log10_mass_ratio=-3.0, log10_occupation_frac=-1.0)
    return dict(name=n, kw=kw)


def gen_render(r):
    sp = P.gen(r)
    pois = r.random() < 0.85
    for p in sp['pops']:
        p['pois'] = pois
        if p.get('norm') == 'dndA': p['amp'] = r.choice([0.0, 1e6, 5e6])
    return dict(name='render', pop=sp, n=r.choice([1, 1, 2]))


def generate(r, i, tier):
    ops = []
    for _ in range(r.choice([1, 2, 2, 3])):
        s = gen_render(r) if r.random() < 0.45 else gen_preset(r)
        if ops and r.random() < 0.45:        # the same call in another universe, for another lens or in another cone
            s = dict(r.choice(ops)['spec'])
            what = r.sample(['cosmo', 'cosmo', 'mhost', 'angle', 'geo'], r.choice([1, 1, 2]))
            new = dict(mhost=r.choice([12.7, 13.4]), angle=r.choice([1.5, 4.0, 7.0]), geo=r.choice(['DOUBLE_CONE', 'CONE', 'CYLINDER']))
            if 'kw' in s:
                s['kw'] = dict(s['kw'])
                if 'cosmo' in what and s['name'] != 'CDM_plus_BH': s['kw']['kwargs_cosmo'] = r.choice([P.COSMO[2], P.COSMO[3]])
                for k, n in (('mhost', 'log_m_host'), ('angle', 'cone_opening_angle_arcsec'), ('geo', 'geometry_type')):
                    if k in what: s['kw'][n] = new[k]
            else:
                s['pop'] = dict(s['pop'], **{k: v for k, v in new.items() if k in what})
                if 'cosmo' in what: s['pop']['cosmo'] = r.choice(P.COSMO)
        op = dict(spec=s, seed=r.randint(0, 2 ** 31), t=round(r.uniform(0.03, 0.97), 3), ns=r.choice([0, 1, 12, 40]), nl=r.choice([0, 1, 2, 3]))
        if r.random() < 0.3: op.update(fault=r.choice(['error', 'interrupt', 'memory']), k=int(10 ** r.uniform(0.5, 4.3)))
        ops.append(op)
    return dict(ops=ops, share=r.random() < 0.6)


# ------------------------------------------------------------------ what the arguments promise
_OWN = {}


def universe(kw):
    """own colossus and astropy cosmologies for keyword arguments"""
    from colossus.cosmology import cosmology as cc
    from astropy.cosmology import FlatLambdaCDM
    k = dict(DEFAULT) if kw is None else {a: kw[a] for a in DEFAULT}
    key = tuple(sorted(k.items()))
    if key not in _OWN:
        keep = cc.current_cosmo
        own = cc.setCosmology('p22', dict(k, flat=True))
        if keep is not None: cc.setCurrent(keep)
        _OWN[key] = own, FlatLambdaCDM(H0=k['H0'], Om0=k['Om0'], Ob0=k['Ob0'])
    return _OWN[key]


GX, GW = np.polynomial.legendre.leggauss(24)


def gauss(f, a, b, n=4):
    t, ed = 0.0, np.linspace(a, b, n + 1)
    for u, v in zip(ed[:-1], ed[1:]):
        t += 0.5 * (v - u) * float(np.sum(GW * f(0.5 * (v - u) * GX + 0.5 * (u + v))))
    return t


class World:
    def __init__(self, zl, zs, cosmo, angle, geo, spacing, mhost):
        self.sp = dict(zl=zl, zs=zs, cosmo=cosmo, angle=angle, geo=geo, spacing=spacing)
        self.own, self.ast = universe(cosmo)
        self.h = self.ast.h
        self.mhost = mhost
        self.z, self.dz = P.planes(self.sp)

    def dc(self, z): return self.ast.comoving_distance(z).value

    def scale(self, z, dc):
        sp = self.sp
        if sp['geo'] == 'CONE': return np.ones_like(z)
        dl, ds = self.dc(sp['zl']), self.dc(sp['zs'])
        if sp['geo'] == 'CYLINDER': return dl / dc
        return np.where(z <= sp['zl'], 1.0, 1 - 0.95 * (ds / (ds - dl)) * (dc - dl) / dc)

    def volume(self, z, dz):
        """comoving volume of a plane of thickness dz, Mpc^3"""
        def f(y):
            dc = self.dc(y)
            return np.pi * (0.5 * self.sp['angle'] * P.ARCSEC * self.scale(y, dc) * dc) ** 2 * 299792.458 / self.ast.H(y).value
        # a plane that contains the lens redshift has a kink there
        return gauss(f, z, z + dz, 2)

    def field(self, z, dz, lo, hi, amp, tilt):
        """expected number and index of the power law fitted to the Sheth-Tormen mass function"""
        m = np.logspace(lo, lo + 1.0 if lo >= hi else hi, 10)
        c = np.polyfit(np.log10(m / 1e8), np.log10(colossus_st(m, self.h, z, self.own)), 1)
        idx = c[0] + tilt
        return amp * self.volume(z, dz) * self.number(10 ** c[1], lo, hi, idx), idx

    @staticmethod
    def number(a, lo, hi, idx):
        """integral of a (m / 1e8)^idx"""
        return 0.0 if lo >= hi else a * 1e8 ** (-idx) * power_moment(lo, hi, 1 + idx)

    def sub(self, amp, lo, hi, idx, scaled, k1, k2):
        """amp: halos per kpc^2 at the pivot, in the host of 10^13 solar masses at z = 0.5 when scaled"""
        zl = self.sp['zl']
        F = 10 ** (k1 * (self.mhost - 13) + k2 * np.log10(zl + 0.5)) if scaled else 1.0
        R = 0.5 * self.sp['angle'] / self.ast.arcsec_per_kpc_proper(zl).value
        return F * np.pi * R ** 2 * self.number(amp / 1e8, lo, hi, idx) * 1e0

    def boost(self, dz, lazar, factor):
        """mean of 2 (b xi + Lazar) between half a comoving Mpc and the thickness of the plane"""
        from colossus.cosmology import cosmology as cc
        from colossus.lss.bias import haloBias
        zl, M = self.sp['zl'], 10 ** self.mhost
        rmax = self.dc(zl + dz) - self.dc(zl)
        rmin = min(0.5, rmax)
        keep = cc.current_cosmo
        cc.setCurrent(self.own)
        try:
            b = float(haloBias(M * self.h, zl, '200c'))
            r200 = P.r200_kpc(dict(self.sp, mhost=self.mhost)) * 1e-3
            f = lambda r: b * self.own.correlationFunction(r * self.h, zl) + (0.1 * (r / r200 / 5) ** -4.0 if lazar else 0.0)
            g = lambda l: f(np.exp(l)) * np.exp(l)
            return factor * 2 * gauss(g, np.log(rmin), np.log(rmax), 8) / (rmax - rmin)
        finally:
            if keep is not None: cc.setCurrent(keep)


class Pop:
    """one population: planes [(z, expected number, lowest and highest log mass, index)], cutoff"""
    def __init__(self, name, sub, planes, turn=None):
        self.name, self.sub, self.planes, self.turn = name, sub, planes, turn


def at(v, z): return v[0] + v[1] * z if isinstance(v, (list, tuple)) else v(z) if callable(v) else v


def cutoff(mc, abc, frac=None):
    if frac is None: return lambda m: wdm(m, mc, *abc)
    return lambda m: (frac + (1 - frac) * np.sqrt(wdm(m, mc, *abc))) ** 2


def los(w, lo, hi, amp, tilt, turn=None, name='LINE_OF_SIGHT'):
    pl = []
    for z, dz in zip(w.z, w.dz):
        lam, idx = w.field(z, dz, at(lo, z), at(hi, z), amp, tilt)
        pl.append((z, lam, at(lo, z), at(hi, z), idx))
    return Pop(name, False, pl, turn)


def two(w, lo, hi, amp, tilt, lazar, factor, turn=None):
    zl = w.sp['zl']
    dz = w.dz[int(np.argmin(np.abs(np.array(w.z) - zl)))]
    lam, idx = w.field(zl, dz, at(lo, zl), at(hi, zl), amp * w.boost(dz, lazar, factor), tilt)
    return Pop('TWO_HALO', False, [(zl, lam, at(lo, zl), at(hi, zl), idx)], turn)


def subs(w, amp, lo, hi, idx, scaled, k1, k2, turn=None):
    zl = w.sp['zl']
    lo, hi = at(lo, zl), at(hi, zl)
    return Pop('SUBHALOS', True, [(zl, w.sub(amp, lo, hi, idx, scaled, k1, k2), lo, hi, idx)], turn)


def mmin_uldm(logm, ast, lo):
    """Schive et al. 2014: M_min(z) = a^(-3/4) (zeta(z)/zeta(0))^(1/4) 4.4e7 m22^(-3/2), not below the requested minimum"""
    def zeta(z):
        o = ast.Om(z)
        return (18 * np.pi ** 2 + 82 * (o - 1) - 39 * (o - 1) ** 2) / o
    return lambda z: max(lo, np.log10((1 + z) ** 0.75 * (zeta(z) / zeta(0)) ** 0.25 * 4.4e7 * 10 ** (-1.5 * (logm + 22))))


def expect_preset(s):
    n, kw = s['name'], s['kw']
    g = lambda k, d: kw.get(k, d)
    unz = lambda v: v['z'] if isinstance(v, dict) else v
    mhost = g('log_m_host', 13.3)
    w = World(kw['z_lens'], kw['z_source'], g('kwargs_cosmo', None), g('cone_opening_angle_arcsec', 6.0), g('geometry_type', 'DOUBLE_CONE'), g('lens_plane_spacing', 0.02), mhost)
    A = g('LOS_normalization', 1.0)
    tilt = g('delta_power_law_index', 0.0)
    lo, hi = unz(g('log_mlow', 6.0)), unz(g('log_mhigh', 10.0))
    if n == 'CDMCorrelatedStructure': return w, [two(w, lo, hi, A, tilt, True, g('scale_2halo_boost_factor', 1.0))]
    slope = g('shmf_log_slope', -1.9)
    k1, k2 = g('host_scaling_factor', 0.55), g('redshift_scaling_factor', 0.37)
    lazar = g('two_halo_Lazar_correction', True)
    sig = g('sigma_sub', 0.1 if n == 'CDMBinned' else 0.025)
    l10 = g('log10_sigma_sub', -1.0 if n == 'ULDM' else None)
    if l10 is not None: sig = 10 ** l10
    scaled = True
    if g('log10_dNdA', None) is not None: sig, scaled = 10 ** kw['log10_dNdA'], False
    ts = tf = None
    if n == 'WDM':
        ms, mf = g('mass_function_model_subhalos', 'LOVELL2020'), g('mass_function_model_fieldhalos', 'LOVELL2020')
        ks, kf = g('kwargs_mass_function_subhalos', {}), g('kwargs_mass_function_fieldhalos', {})
        abc = lambda m, k: ABC[m] if m in ABC else (k['a_wdm'], k['b_wdm'], k['c_wdm'])
        ts, tf = cutoff(kw['log_mc'], abc(ms, ks)), cutoff(kw['log_mc'], abc(mf, kf))
    if n == 'WDM_mixed':
        abc = lambda k: (k.get('a_wdm', 0.5), k.get('b_wdm', 0.8), k.get('c_wdm', -3.0))
        ts, tf = (cutoff(kw['log_mc'], abc(g('kwargs_mass_function_' + q, {})), kw['mixed_DM_frac']) for q in ('subhalos', 'fieldhalos'))
    if n == 'WDMGeneral':
        from pyHalo.mass_function_models import preset_mass_function_models
        o = preset_mass_function_models('STUCKER', dict(dlogT_dlogk=kw['dlogT_dlogk']))[1]        # fitted coefficients: the fit is P18's subject
        ts = tf = cutoff(kw['log_mc'], (o['a_wdm'], o['b_wdm'], o['c_wdm']))
    if n == 'ULDM':
        mc = np.log10(1.6e10 * 10 ** (-4 / 3 * (kw['log10_m_uldm'] + 22)))
        ts, tf = cutoff(mc, ABC['SHMF_SCHIVE2016']), cutoff(mc, ABC['SCHIVE2016'])
        lo = mmin_uldm(kw['log10_m_uldm'], w.ast, lo)
    if n == 'CDMBinned':
        out = []
        for (a, b), f in (((6.0, 8.0), g('scale_mass_function_low', 1.0)), ((8.0, 10.7), g('scale_mass_function_high', 1.0))):
            out += [subs(w, f * sig, a, b, slope, True, k1, k2), los(w, a, b, f * A, 0.0), two(w, a, b, f * A, 0.0, True, 1.0)]
        return w, out
    out = [subs(w, sig, lo, hi, slope + tilt, scaled, k1, k2, ts), los(w, lo, hi, A, tilt, tf)]
    if g('two_halo_contribution', True): out.append(two(w, lo, hi, A, tilt, lazar, 1.0, tf))
    return w, out


def expect_render(s):
    sp = s['pop']
    w = World(sp['zl'], sp['zs'], sp['cosmo'], sp['angle'], sp['geo'], sp['spacing'], sp['mhost'])
    out = []
    for p in sp['pops']:
        turn = None if p['mf'] == 'cdm' else cutoff(p['logmc'], tuple(P.WDM[k] for k in ('a_wdm', 'b_wdm', 'c_wdm')), p['frac'] if p['mf'] == 'mixed' else None)
        a = (p['mlow'], p['mhigh'])
        if p['name'] == 'SUBHALOS':
            out.append(subs(w, p['amp'] * (1.0 if p['norm'] == 'sigma' else 1e-8), *a, p['index'] + p['dindex'], p['norm'] == 'sigma', 0.55, 0.37, turn))
        elif p['name'] == 'TWO_HALO': out.append(two(w, *a, p['amp'], p['dindex'], sp['lazar'], sp['boost'], turn))
        else: out.append(los(w, *a, p['amp'], p['dindex'], turn, p['name']))
    return w, out


# ------------------------------------------------------------------ the simulated draws
class Sim:
    def __init__(self, op, pops, nreal):
        self.pops, self.t, self.nreal = pops, op['t'], nreal
        self.g = g = np.random.default_rng(op['seed'])
        self.q = [np.sort(g.random(op['ns'] if p.sub else 2 * op['nl'] if p.name == 'TWO_HALO' else op['nl'])) for p in pops]
        self.lams = np.array([pl[1] for p in pops for pl in p.planes])
        self.owner = [i for i, p in enumerate(pops) for _ in p.planes]
        self.tol = np.array([tol(pl[0]) for p in pops for pl in p.planes])
        self.expected = nreal * int(np.sum(self.lams > 0))
        # planes whose expected numbers cannot be told apart form one group; a group with several populations in it draws nothing
        near = lambda i, j: abs(self.lams[i] / self.lams[j] - 1) < 2 * (self.tol[i] + self.tol[j])
        o = [i for i in np.argsort(self.lams) if self.lams[i] > 0]
        self.group, n = {}, -1
        for k, i in enumerate(o):
            if k == 0 or not any(near(o[l], i) for l in range(max(0, k - 6), k)): n += 1
            self.group[i] = n
        owners, self.size = {}, {}
        for i, n in self.group.items():
            owners.setdefault(n, set()).add(self.owner[i])
            self.size[n] = self.size.get(n, 0) + 1
        self.mixed = {n for n, v in owners.items() if len(v) > 1}
        self.hits = {}
        self.seen, self.other, self.cur, self.phase = [], [], None, 9

    def pois(self, lam):
        if len(self.lams) and len(self.seen) + len(self.other) < self.expected:
            with np.errstate(divide='ignore', invalid='ignore'):
                d = np.abs(lam / self.lams - 1)
            j = int(np.nanargmin(np.where(self.lams > 0, d / self.tol, np.inf)))
            if self.lams[j] > 0 and d[j] < self.tol[j]:
                self.seen.append(lam)
                n = self.group[j]
                self.hits[n] = self.hits.get(n, 0) + 1
                if n in self.mixed:
                    self.cur, self.phase = np.array([]), 0
                    return 0
                self.cur, self.phase = self.q[self.owner[j]], 0
                return len(self.cur)
        self.other.append(lam)
        self.cur, self.phase = np.array([]), 0
        return 0

    def quant(self, n, site):
        if n == 0: return np.array([])
        self.phase += 1
        if self.phase == 1 and self.cur is not None and n == len(self.cur): return self.cur.copy()
        if self.phase == 2 and self.cur is not None and n == len(self.cur): return np.full(n, self.t)
        return self.g.random(n)


def clear(turn, m, t): return turn is None or abs(float(turn(m)) - t) > 1e-6


def predict(pops, sim, poisson):
    """[(is subhalo, z, mass)] that come out of one rendering; with rounding instead of Poisson draws every quantile is t"""
    out, loose, n = [], [], -1
    for i, p in enumerate(pops):
        for z, lam, lo, hi, idx in p.planes:
            n += 1
            if lam <= 0 or poisson and sim.group[n] in sim.mixed: continue
            if poisson: q = sim.q[i]
            else:
                m = int(np.round(lam))
                if abs(abs(lam - np.floor(lam)) - 0.5) < RTOL * lam + 1e-9: loose.append((p.sub, z))
                q = np.full(m, sim.t)
            for m in (inverse_cdf(lo, hi, idx, x) for x in q):
                if not clear(p.turn, m, sim.t): loose.append((p.sub, z))
                if p.turn is None or sim.t < float(p.turn(m)): out.append((p.sub, z, float(m)))
    return out, set(loose)


def compare(real, want, loose, what):
    got = {}
    for h in real.halos:
        if h.mdef == 'BLACK_HOLE' or h.mdef == 'PT_MASS' and what.startswith('CDM_plus'): continue
        got.setdefault((bool(h.is_subhalo), round(float(h.z), 4)), []).append(float(h.mass))
    exp = {}
    for s, z, m in want: exp.setdefault((s, round(z, 4)), []).append(m)
    for key in sorted(set(got) | set(exp)):
        if key in {(s, round(z, 4)) for s, z in loose}: continue
        a, b = np.sort(got.get(key, [])), np.sort(exp.get(key, []))
        kind = 'subhalos' if key[0] else 'field halos'
        if len(a) != len(b): raise Violation('count:' + what, '%s: %d %s at z = %g where the draws make %d' % (what, len(a), kind, key[1], len(b)))
        if len(a) and np.max(np.abs(np.log(a / b))) > 2e-4:
            j = int(np.argmax(np.abs(np.log(a / b))))
            raise Violation('mass:' + what, '%s: %s at z = %g with mass %.6g where the draws make %.6g' % (what, kind, key[1], a[j], b[j]))


class Zfun:
    def __init__(self, a, b): self.a, self.b = a, b

    def __call__(self, z): return self.a + self.b * z


def callable_of(s, memo):
    if s['name'] == 'render':
        return lambda: P.render(P.build(s['pop']), s['n'])
    f = calls.preset_fn(s['name'])
    kw = {k: Zfun(*v['z']) if isinstance(v, dict) and 'z' in v and k in ('log_mlow', 'log_mhigh') else v for k, v in s['kw'].items()}
    for k, v in kw.items():
        if k.startswith('kwargs_'): kw[k] = memo.setdefault(repr((k, sorted(v.items()))), dict(v)) if memo is not None else dict(v)
    return lambda: [f(**kw)]


def tags(s):
    if s['name'] == 'render': return 'render:' + '+'.join(sorted({p['name'] + '/' + p['mf'] for p in s['pop']['pops']}))
    return s['name'] + ':' + ','.join(sorted(k for k in s['kw'] if k in ('sigma_sub', 'log10_sigma_sub', 'log10_dNdA', 'delta_power_law_index', 'two_halo_contribution', 'draw_poisson',
                                                                        'kwargs_cosmo', 'two_halo_Lazar_correction', 'geometry_type')))


def execute(scn, ctx):
    memo = {} if scn['share'] else None
    hist = 'first'
    for op in scn['ops']:
        s = op['spec']
        what = s['name'] if s['name'] != 'render' else 'render of ' + '+'.join(p['name'] for p in s['pop']['pops'])
        ctx.steps += 1
        poisson = s['kw'].get('draw_poisson', True) if 'kw' in s else all(p['pois'] for p in s['pop']['pops'])
        nreal = s.get('n', 1)
        w, pops = (expect_render if s['name'] == 'render' else expect_preset)(s)
        if not poisson and sum(pl[1] for p in pops for pl in p.planes) > 6000:
            ctx.count('too many halos to render')
            continue
        run = callable_of(s, memo)
        if op.get('fault'):
            sim = Sim(op, pops, nreal)
            rng.mode_script(sim.quant, sim.pois)
            faults.arm(op['k'], op['fault'])
            try: run()
            except INJECTED: pass
            finally:
                if faults.disarm()[1]:
                    ctx.fault('%s inside a call that is made again' % op['fault'])
                    hist = 'stopped'
        sim = Sim(op, pops, nreal)
        if poisson: rng.mode_script(sim.quant, sim.pois)
        else: rng.mode_script(lambda n, site: np.full(n, op['t']), lambda lam: 0)
        reals = run()
        rng.mode_real(1)
        if len(reals) != nreal: raise Violation('realizations', '%d realizations instead of %d' % (len(reals), nreal))
        if poisson:
            odd = sim.other[:sim.expected - len(sim.seen)] if s['name'] == 'CDM_plus_BH' else sim.other       # black holes are drawn after the halos
            missing = {n for n, k in sim.size.items() if sim.hits.get(n, 0) != nreal * k}
            if missing or odd:
                every = [(p.name, pl[0], float('%.5g' % pl[1])) for p in pops for pl in p.planes]
                want = [v for i, v in enumerate(every) if sim.group.get(i) in missing]
                raise Violation('expectation:' + what, '%s: the arguments promise populations (name, z, expected number) %s%s that are not drawn; the code draws from means %s that nothing promises' % (
                    what, want[:4], ' and %d more' % (len(want) - 4) if len(want) > 4 else '', [float('%.5g' % v) for v in odd[:5]]))
        want, loose = predict(pops, sim, poisson)
        for real in reals: compare(real, want, loose, what)
        ctx.count('halos predicted', len(want))
        ctx.count('planes told apart', sum(1 for n in sim.group.values() if n not in sim.mixed))
        ctx.count('expectations predicted', int(np.sum(sim.lams > 0)))
        ctx.state(tags(s), hist, poisson)
        ctx.log(what, len(want), [round(float(v), 6) for v in sim.lams[:5]])
        hist = 'after ' + s['name']


def simplify(scn):
    for i, o in enumerate(scn['ops']):
        put = lambda c: dict(scn, ops=scn['ops'][:i] + [c] + scn['ops'][i + 1:])
        if o.get('fault'): yield put({k: v for k, v in o.items() if k not in ('fault', 'k')})
        s = o['spec']
        if 'kw' in s:
            for k in s['kw']:
                if k not in ('z_lens', 'z_source'): yield put(dict(o, spec=dict(s, kw={a: b for a, b in s['kw'].items() if a != k})))
        else:
            for j in range(len(s['pop']['pops'])):
                if len(s['pop']['pops']) > 1: yield put(dict(o, spec=dict(s, pop=dict(s['pop'], pops=s['pop']['pops'][:j] + s['pop']['pops'][j + 1:]))))
