"""P16: distances, ages, critical densities, apertures and volumes asked in generated orders of several cosmologies, lenses and geometries at
once, as floats, numpy scalars and arrays, interrupted at chosen lines; each answer against an untouched copy of the process (exactly) and
against an independent evaluation from astropy (within the accuracy of linear interpolation on the tables' spacing)."""
import copy, pickle
import numpy as np
from scipy.integrate import quad
from sim import faults, popul as P
from sim.core import plain, same, Violation, Injected, InjectedInterrupt, InjectedMemoryError

PLAN = {'quick': dict(runs=260, wall=150, limit=90, min=80), 'thorough': dict(runs=12000, wall=780, limit=90, min=600)}
RULE = 'distinct (query, argument form, range of redshift, what happened before) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'

COSMO = [None, dict(P.FULL), dict(P.FULL, H0=73.0, Om0=0.25, sigma8=0.9), dict(P.FULL, H0=60.0, Om0=0.45, Ob0=0.06)]
GEO = ['DOUBLE_CONE', 'CONE', 'CYLINDER']
ARRAYS = {'DAz', 'DCz', 'DCT', 'kpc', 'age', 'a', 'E', 'rhoc', 'DA'}
CQ = ['DAz'] * 3 + ['DCz'] * 3 + ['kpc'] * 3 + ['age'] * 3 + ['DA', 'DA', 'DCT', 'a', 'E', 'rhoc', 'rhodm']
LQ = ['scrit', 'scrit', 'scm', 'rN', 'nfw', 'angle', 'pmf', 'thetaE', 'tdyn', 'ageff', 'sigarc', 'halfmode', 'fsl', 'twohalo', 'twohalo', 'boost', 'fromMZ', 'attr']
GQ = ['scale'] * 3 + ['rphys', 'rcom', 'aphys', 'acom', 'vel', 'vel', 'volume', 'gkpc', 'parts']


def gen_z(r, lo=0.0, hi=6.0):
    z = r.choice([r.uniform(0.01, 4.0), r.uniform(0.01, 2.0), r.uniform(0.01, 2.0), r.choice([0.5, 0.02, 0.04, 0.3, 1.0, 2.0, 4.0]), r.uniform(0.0005, 0.03), r.uniform(3.9, 6.0), round(r.uniform(0.02, 3), 2)])
    return min(max(round(z, 5), lo), hi)


def gen_query(r, w):
    o = r.choice('CCCLLGG')
    q = r.choice(dict(C=CQ, L=LQ, G=GQ)[o])
    d = dict(o=o, q=q, form=r.choice(['float', 'float', 'np', '0d', 'int'] + (['array', 'array', 'list'] if q in ARRAYS else [])))
    lo, hi = (0.0011, 4.0) if q == 'kpc' else (1e-3, 6.0)
    if o == 'C':
        d['z'] = [gen_z(r, lo, hi) for _ in range(r.choice([1, 2, 4]) if d['form'] in ('array', 'list') else 1)]
        if q == 'DA': d['z2'] = round(max(d['z']) + r.choice([0.0, 0.1, 1.0, 2.5]), 4)
        if q == 'age': d['zform'] = r.choice([10, 10, 10.0, 6.0, 2.5, 0.4])
    else:
        i = w['pick'] = r.randrange(len(w['lenses']))
        zl, zs = w['lenses'][i][:2]
        d['lens'] = i
        hi = zs * 0.98 if o == 'L' else zs - 1e-3
        d['z'] = [min(r.choice([zl, gen_z(r, 0.011, 3.9)]), round(hi, 4))]
        if d['form'] == 'int': d['form'] = 'float'
        d.update(m=round(r.uniform(6, 13.5), 3), c=round(r.uniform(2, 25), 2), N=r.choice([200, 50, 178.0]), sigma=r.choice([20.0, 200.0, 300.0]), area=r.choice([1e-5, 1.0]), lam=r.choice([1.0, 0.1, 2.0]),
                 zinf=round(r.uniform(0.5, 12), 3), r=round(r.uniform(0.3, 40), 3), rad=r.choice([None, 0.5, 3.0]), dz=r.choice([0.02, 0.1, 0.01, 5e-5, 1e-4]), cuts=sorted(round(r.random(), 3) for _ in range(4)))
    return d


def generate(r, i, tier):
    w = dict(lenses=[])
    for _ in range(r.choice([1, 2, 2, 3])):
        zl = round(r.choice([0.5, r.uniform(0.05, 1.5)]), 2)
        zs = round(zl + r.choice([1.0, 0.05, r.uniform(0.05, 2.0)]), 2)
        w['lenses'].append([zl, zs, r.randrange(4), r.choice(GEO), r.choice([0.5, 5.0, 12.0])])
    ops, asked = [], []
    for _ in range(r.randint(5, 25)):
        k = r.choice(['ask'] * 12 + ['again'] * 4 + ['stop'] * 4 + ['copy', 'pickle', 'build', 'planes', 'planes', 'mono'])
        if k == 'again' and not asked: k = 'ask'
        op = dict(op=k)
        if k in ('ask', 'stop'):
            op.update(q=gen_query(r, w), k=r.randrange(4))
            asked.append(op)
            if k == 'stop': op.update(frac=r.random(), kind=r.choice(['error', 'interrupt', 'memory']))
        elif k == 'again':
            op = copy.deepcopy(r.choice(asked))
            op['op'] = 'ask'
            op['q']['form'] = r.choice(['float', 'np', op['q']['form']]) if len(op['q']['z']) == 1 else op['q']['form']
        elif k == 'build': op.update(cosmo=r.randrange(4), frac=r.random(), kind=r.choice(['error', 'interrupt', None]))
        elif k == 'planes':
            zl = round(r.uniform(0.02, 2.0), 2)
            op.update(zl=r.choice([zl, None]), zs=round(zl + r.uniform(0.02, 2.0), 2), spacing=r.choice([0.02, None, 0.01, 0.05, 0.1, 0.2, 0.5, round(r.uniform(0.01, 0.4), 2)]))
        elif k in ('copy', 'pickle'): op.update(i=r.randrange(3))
        elif k == 'mono': op.update(k=r.randrange(4), z=sorted(round(r.uniform(0.005, 3.9), 3) for _ in range(6)))
        ops.append(op)
    return dict(lenses=w['lenses'], ops=ops)


# ------------------------------------------------------------------ the code under test
class World:
    def __init__(self, scn):
        from pyHalo.Cosmology.cosmology import Cosmology
        from pyHalo.Cosmology.geometry import Geometry
        from pyHalo.Halos.lens_cosmo import LensCosmo
        self.spec = scn['lenses']
        self.cos, self.lens, self.geo, self.which = [], [], [], []
        for zl, zs, c, g, ang in self.spec:
            k = COSMO[c]
            if c in self.which and ang != 5.0: self.cos.append(self.cos[self.which.index(c)])      # sessions sharing one cosmology object
            else: self.cos.append(Cosmology() if k is None else Cosmology(None, dict(k)))
            self.which.append(c)
            self.lens.append(LensCosmo(zl, zs, self.cos[-1]))
            self.geo.append(Geometry(self.cos[-1], zl, zs, ang, g))


def arg(z, form):
    if form == 'float': return float(z[0])
    if form == 'np': return np.float64(z[0])
    if form == '0d': return np.array(z[0])
    if form == 'int': return max(1, int(round(z[0])))
    if form == 'list': return list(z)
    return np.array(z)


def zs_of(q): return [float(max(1, int(round(q['z'][0]))))] if q['form'] == 'int' else [float(v) for v in q['z']]


def ask(w, q, k):
    z, f = q['z'], q['form']
    i = q.get('lens', k % len(w.lens))
    C, L, G = w.cos[i], w.lens[i], w.geo[i]
    a = arg(z, f)
    n = q['q']
    if n == 'DAz': return C.D_A_z(a)
    if n == 'DCz': return C.D_C_z(a)
    if n == 'DCT': return C.D_C_transverse(a)
    if n == 'kpc': return C.kpc_proper_per_asec(a)
    if n == 'age': return C.halo_age(a, zform=q['zform'])
    if n == 'a': return C.scale_factor(np.array(a) if f == 'list' else a)
    if n == 'E': return C.E_z(a)
    if n == 'rhoc': return C.rho_crit(a)
    if n == 'rhodm': return C.rho_dark_matter_crit
    if n == 'DA': return C.D_A(a, q['z2'] if f not in ('array', 'list') else np.full(len(z), q['z2']))
    m, c = 10 ** q['m'], q['c']
    zs = w.spec[i][1]
    if n == 'scrit': return L.get_sigma_crit_lensing(a, zs)
    if n == 'scm': return L.sigma_crit_mass(a, q['area'])
    if n == 'rN': return L.rN_M(m, a, q['N'])
    if n == 'nfw': return list(L.nfwParam_physical(m, c, a)) + list(L.NFW_params_physical(m, c, a))
    if n == 'angle': return list(L.nfw_physical2angle(m, c, a))
    if n == 'pmf': return L.point_mass_factor_z(a)
    if n == 'thetaE': return L.thetaE_from_sigma(a, q['sigma'])
    if n == 'tdyn': return L.halo_dynamical_time(m, a, c)
    if n == 'ageff': return L.sidm_halo_effective_age(min(z[0], q['zinf']), q['zinf'], q['lam'])
    if n == 'sigarc': return L.sigma_crit_arcsecond_interp(min(max(float(z[0]), 0.011), zs - 0.03))
    if n == 'halfmode': return [L.halfmode_to_thermal(m), float(np.squeeze(L.mthermal_to_halfmode(L.halfmode_to_thermal(m))))]
    if n == 'fsl': return L.mhm_to_fsl(m)
    if n == 'twohalo': return L.twohaloterm(q['r'], m, float(a))
    if n == 'boost': return L.two_halo_boost(m, float(a), 0.5, q['r'] + 1)
    if n == 'fromMZ': return list(L.NFW_params_physical_fromMZ(m, float(a)))
    if n == 'attr': return [L.D_d, L.D_s, L.D_ds, L.sigma_crit_lensing, L.sigma_crit_lens_kpc, L.sigmacrit, L.rhoc, L.h]
    rad = q['rad']
    r0 = rad if rad is not None else 0.5 * w.spec[i][4]
    if n == 'scale': return G.rendering_scale(a)
    if n == 'rphys': return G.angle_to_physicalradius(r0, a)
    if n == 'rcom': return G.angle_to_comovingradius(r0, a)
    if n == 'aphys': return G.angle_to_physical_area(r0, a)
    if n == 'acom': return G.angle_to_comoving_area(r0, a)
    if n == 'vel': return G.volume_element_comoving(float(a), min(q['dz'], zs - float(a)), radius=rad)
    if n == 'volume': return G.volume_MPC3
    if n == 'gkpc': return [G.kpc_per_arcsec(a), G.kpc_per_arcsec_zlens]
    if n == 'parts':
        cuts = [0.0] + [v * zs for v in q['cuts']] + [zs]
        return sum(G.volume_element_comoving(u, v - u) for u, v in zip(cuts, cuts[1:]) if v - u > 1e-4)
    raise KeyError(n)


# ------------------------------------------------------------------ independent evaluation
def ast(c):
    from astropy.cosmology import FlatLambdaCDM
    k = dict(H0=67.5, Ob0=0.049, Om0=0.309) if COSMO[c] is None else {a: COSMO[c][a] for a in ('H0', 'Ob0', 'Om0')}
    key = ('p16', c)
    if key not in P._ASTRO: P._ASTRO[key] = FlatLambdaCDM(**k)
    return P._ASTRO[key]


def chord(f, z, h):
    """error that linear interpolation with spacing h may make at z"""
    lo = max(z - h, 1e-6)
    e = 0.0
    for x in (z, lo + h, z + h):
        e = max(e, abs(f(max(x - h, 1e-6)) + f(x + h) - 2 * f(x)) / 8)
    return 1.6 * e


def da(A, z): return A.angular_diameter_distance(z).value


def da_tol(A, z): return chord(lambda x: da(A, x), z, 0.02) if 0.02 <= z <= 4.03 else 0.0


def dc(A, z): return A.comoving_distance(z).value


def kpc(A, z): return da(A, z) * 1e3 * P.ARCSEC


def kpc_tol(A, z): return chord(lambda x: kpc(A, x), z, 0.025)


def age(A, z): return A.age(z).value


def scrit(A, z, zs):
    c, G = 299792.458, 4.30091727e-9
    return c ** 2 / (4 * np.pi * G) * da(A, zs) / (da(A, z) * A.angular_diameter_distance_z1z2(z, zs).value)


def rel(A, *z): return sum(da_tol(A, v) / da(A, v) for v in z) + 3e-4


def rhoc(A, z): return A.critical_density(z).to('Msun/Mpc3').value


def expect(spec, q, k, own):
    """list of (value, tolerance)"""
    i = q.get('lens', k % len(spec))
    zl, zs, ci, geo, ang = spec[i]
    A = ast(ci)
    n = q['q']
    Z = zs_of(q)
    z = Z[0]
    sc = lambda y: scale(A, zl, zs, geo, y)
    if n == 'DAz': return [(da(A, v), da_tol(A, v) + 1e-9 * da(A, v)) for v in Z]
    if n == 'DCz': return [(dc(A, v), (chord(lambda x: dc(A, x), v, 0.02) if 0.02 <= v <= 4.03 else 0) + 1e-9 * dc(A, v)) for v in Z]
    if n == 'DCT': return [(dc(A, v), 1e-9 * dc(A, v)) for v in Z]
    if n == 'kpc': return [(kpc(A, v), kpc_tol(A, v) + 1e-6 * kpc(A, v)) for v in Z]
    if n == 'age':
        f = q['zform']
        t = lambda x: chord(lambda y: age(A, max(y, 0)), x, 0.0804)
        return [((age(A, v) - age(A, f), t(v) + t(f) + 1e-9) if v <= f else (0.0, 0.0)) for v in Z]
    if n == 'a': return [(1 / (1 + v), 1e-12) for v in Z]
    if n == 'E': return [(A.efunc(v), 1e-9) for v in Z]
    if n == 'rhoc': return [(rhoc(A, v), 3e-4 * rhoc(A, v)) for v in Z]
    if n == 'rhodm': return [((A.Om0 - A.Ob0) * rhoc(A, 0.0), 3e-4 * rhoc(A, 0))]
    if n == 'DA': return [(A.angular_diameter_distance_z1z2(v, q['z2']).value,) * 1 + (1e-6 * da(A, q['z2']),) for v in Z]
    m, c, h = 10 ** q['m'], q['c'], A.h
    R = rel(A, z, zs)
    r200 = (3 * m / (4 * np.pi * 200 * rhoc(A, z))) ** (1 / 3)
    rs = r200 / c
    mc = np.log(1 + c) - c / (1 + c)
    rho = m / (4 * np.pi * rs ** 3 * mc)
    if n == 'scrit': v = scrit(A, z, zs); return [(v, R * v)]
    if n == 'scm': v = scrit(A, z, zs) * q['area']; return [(v, R * v)]
    if n == 'rN': v = (3 * m / (4 * np.pi * q['N'] * rhoc(A, z) / h ** 2)) ** (1 / 3) / h; return [(v, 1e-3 * v)]
    if n == 'nfw': return [(v, 1e-3 * v) for v in (rho, rs, r200, rho * 1e-9, rs * 1e3, r200 * 1e3)]
    if n == 'angle':
        a1 = rs / da(A, z) / P.ARCSEC
        al = rho * 4 * rs ** 2 * (1 + np.log(0.5)) / scrit(A, z, zs) / da(A, z) / P.ARCSEC
        return [(a1, (R + 1e-3) * a1), (al, (2 * R + 2e-3) * al)]
    if n == 'pmf':
        v = np.sqrt(4 * 4.30091727e-9 / 299792.458 ** 2 * A.angular_diameter_distance_z1z2(z, zs).value / da(A, z) / da(A, zs)) / P.ARCSEC
        return [(v, R * v)]
    if n == 'thetaE':
        v = 4 * np.pi * (q['sigma'] / 299792.458) ** 2 * A.angular_diameter_distance_z1z2(z, zs).value / da(A, zs) * 206264.806
        return [(v, 1e-5 * v)]
    if n == 'tdyn':
        vmax = 1.64 * np.sqrt(4.30091727e-6 * rho * 1e-9) * rs * 1e3
        v = r200 * 1e3 / vmax * 0.9777922
        return [(v, 3e-3 * v)]
    if n == 'ageff':
        zi = min(q['zinf'], 10.0)
        y = min(q['z'][0], q['zinf'])
        t = sum(chord(lambda u: age(A, max(u, 0)), x, 0.0804) for x in (y, zi, zi, 10.0))
        return [(age(A, zi) - age(A, 10.0) + q['lam'] * (age(A, y) - age(A, zi) if y <= zi else 0.0), 2 * t + 1e-6)]
    if n == 'sigarc':
        y = min(max(float(z), 0.011), zs - 0.03)
        f = lambda x: scrit(A, x, zs) * (1e-3 * kpc(A, x)) ** 2
        a, b = f(max(y - 0.0205, 0.0099)), f(min(y + 0.0205, zs - 0.009))
        lo, hi = min(a, b, f(y)), max(a, b, f(y))
        return [((lo + hi) / 2, (hi - lo) / 2 + 0.01 * hi)]
    if n == 'halfmode':
        v = 2.32 * (A.Om0 / 0.25) ** 0.4 * (h / 0.7) ** 0.8 * (m / 1e9) ** -0.3
        return [(v, 1e-9 * v), (m, 0.02 * m) if 6.5 < q['m'] < 9.5 else (None, None)]
    if n == 'fsl': v = 2 * (3 * m / (4 * np.pi * rhoc(A, 0))) ** (1 / 3) / 13.93; return [(v, 1e-3 * v)]
    if n in ('twohalo', 'boost'):
        from colossus.lss.bias import twoHaloTerm
        g = lambda x: float(own(ci, lambda cc: twoHaloTerm(x * h, m * h, z, mdef='200c') / cc.rho_m(z)))
        if n == 'twohalo': v = g(q['r'])
        else: v = 1 + 2 * quad(g, 0.5, q['r'] + 1)[0] / (q['r'] + 0.5)
        return [(v, 1e-6 * abs(v))]
    if n == 'fromMZ':
        from colossus.halo.concentration import concentration
        c = max(1.2, float(own(ci, lambda cc: concentration(m * h, mdef='200c', z=z, model='diemer19'))))
        rs = r200 / c
        rho = m / (4 * np.pi * rs ** 3 * (np.log(1 + c) - c / (1 + c))) * 1e-9
        return [(rho, 5e-3 * rho), (rs * 1e3, 2e-3 * rs * 1e3), (r200 * 1e3, r200)]
    if n == 'attr':
        s = scrit(A, zl, zs)
        R = rel(A, zl, zs)
        return [(da(A, zl), R * da(A, zl)), (da(A, zs), R * da(A, zs)), (A.angular_diameter_distance_z1z2(zl, zs).value, 1e-6 * da(A, zs)), (s, R * s), (s * 1e-6, R * s * 1e-6),
                (s * 1e-6 * kpc(A, zl) ** 2, (R + 2 * kpc_tol(A, zl) / kpc(A, zl)) * s * 1e-6 * kpc(A, zl) ** 2), (rhoc(A, 0) / h ** 2, 3e-4 * rhoc(A, 0) / h ** 2), (h, 1e-12)]
    th = (q['rad'] if q['rad'] is not None else 0.5 * ang) * P.ARCSEC
    T = rel(A, z)
    if geo == 'DOUBLE_CONE' and z > zl: T += da_tol(A, z) / da(A, z) / max(sc(z), 0.03)
    if n == 'scale': v = sc(z); return [(v, (T - 2e-4) * v)]
    if n == 'rphys': v = th * sc(z) * da(A, z); return [(v, T * v)]
    if n == 'rcom': v = th * sc(z) * dc(A, z); return [(v, T * v)]
    if n == 'aphys': v = np.pi * (th * sc(z) * da(A, z)) ** 2; return [(v, 2.1 * T * v)]
    if n == 'acom': v = np.pi * (th * sc(z) * dc(A, z)) ** 2; return [(v, 2.1 * T * v)]
    dV = lambda y: np.pi * (th * sc(y) * dc(A, y)) ** 2 * A.hubble_distance.value / A.efunc(y)
    if n == 'vel':
        d = min(q['dz'], zs - z)
        v = quad(dV, z, z + d, points=[zl] if z < zl < z + d else None)[0]
        return [(v, (2.1 * max(T, rel(A, z + d)) + 1e-5) * v + (d <= 1.0001e-4) * d * abs(dV(z) - dV(z + d)))]
    if n in ('volume', 'parts'):
        th0 = 0.5 * ang * P.ARCSEC
        dV = lambda y: np.pi * (th0 * sc(y) * dc(A, y)) ** 2 * A.hubble_distance.value / A.efunc(y)
        v = quad(dV, 1e-6, zs, points=[zl], limit=200)[0]
        return [(v, (2e-3 + 2 * da_tol(A, 0.5 * zs) / da(A, 0.5 * zs)) * v)]
    if n == 'gkpc': return [(kpc(A, v), kpc_tol(A, v) + 1e-6 * kpc(A, v)) for v in (z, zl)]
    raise KeyError(n)


def scale(A, zl, zs, geo, z):
    if geo == 'CONE': return 1.0
    if geo == 'CYLINDER': return dc(A, zl) / dc(A, z)
    if z <= zl: return 1.0
    return 1 - 0.95 * (dc(A, zs) / (dc(A, zs) - dc(A, zl))) * (dc(A, z) - dc(A, zl)) / dc(A, z)


_OWN = {}


def own(ci, f):
    from colossus.cosmology import cosmology as cc
    keep = cc.current_cosmo
    try:
        if ci not in _OWN:
            k = dict(H0=67.5, Ob0=0.049, Om0=0.309, sigma8=0.81, ns=0.965) if COSMO[ci] is None else {a: COSMO[ci][a] for a in ('H0', 'Ob0', 'Om0', 'sigma8', 'ns')}
            _OWN[ci] = cc.setCosmology('reference', dict(k, flat=True))
        cc.setCurrent(_OWN[ci])
        return f(_OWN[ci])
    finally:
        if keep is not None: cc.setCurrent(keep)


# ------------------------------------------------------------------ run
def flat(v): return [float(x) for x in np.ravel(np.asarray(v, dtype=float))]


def check_planes(op, ctx):
    from pyHalo.utilities import generate_lens_plane_redshifts as gen
    zl, zs, s = op['zl'], op['zs'], op['spacing']
    z, dz = gen(zl, zs, s)
    z, dz = np.array(z, float), np.array(dz, float)
    what = 'zlens %s zsource %g spacing %s' % (zl, zs, s)
    if len(z) != len(dz): raise Violation('planes', '%s: %d planes, %d spacings' % (what, len(z), len(dz)))
    if (np.diff(z) <= 0).any(): raise Violation('planes', '%s: planes not increasing: %s' % (what, z))
    if z[0] <= 0 or z[-1] >= zs: raise Violation('planes', '%s: planes from %g to %g' % (what, z[0], z[-1]))
    if zl is not None and np.abs(z - zl).min() > 1e-9: raise Violation('planes', '%s: no plane at the lens' % what)
    if (dz <= 0).any(): raise Violation('planes', '%s: spacings %s' % (what, dz))
    if np.abs(np.diff(z) - dz[:-1]).max(initial=0) > 1e-6 or abs(dz.sum() - (zs - z[0])) > 1e-6: raise Violation('planes', '%s: spacings sum to %g, planes cover %g' % (what, dz.sum(), zs - z[0]))
    if dz.max() > (s or 0.02) + 1e-6: raise Violation('planes', '%s: spacing %g' % (what, dz.max()))
    if zl is not None:
        want, _ = P.planes(dict(zl=zl, zs=zs, spacing=s or 0.02))
        if len(want) != len(z) or np.abs(np.array(want) - z).max() > 1e-9: raise Violation('planes', '%s: %s, expected %s' % (what, z, want))
    ctx.state('planes', zl is None, s, zs - (zl or 0) < (s or 0.02))
    ctx.log('planes', plain(list(z)))


def execute(scn, ctx):
    w = World(scn)
    asks = [op for op in scn['ops'] if op['op'] in ('ask', 'stop')]
    refs = []
    for op in asks:
        st, v = faults.forked(lambda: (flat(ask(w, op['q'], op['k'])), faults.count_lines(lambda: ask(copy.deepcopy(w), op['q'], op['k'])) if op['op'] == 'stop' else 0))
        if st != 'ok':
            ask(w, op['q'], op['k'])        # raises here, with its traceback
            raise Violation('query', '%s fails in a fresh process: %s' % (op['q'], v))
        refs.append(v)
    ws = [w]
    last, j = 'fresh', -1
    for op in scn['ops']:
        ctx.steps += 1
        k = op['op']
        if k in ('ask', 'stop'):
            j += 1
            q, (ref, lines) = op['q'], refs[j]
            W_ = ws[op['k'] % len(ws)]
            if k == 'stop' and lines > 1:
                faults.arm(1 + int(op['frac'] * (lines - 1)), op['kind'])
                try: ask(W_, q, op['k'])
                except (Injected, InjectedInterrupt, InjectedMemoryError): pass
                finally: _, fired, where = faults.disarm()
                if fired: ctx.fault('query stopped by ' + op['kind']); last = 'stopped'
            raw = ask(W_, q, op['k'])
            got = flat(raw)
            if np.shape(raw) != () and q['o'] == 'C' and q['form'] not in ('array', 'list'): raise Violation('shape', '%s returns shape %s' % (q, np.shape(raw)))
            if not np.isfinite(got).all(): raise Violation('finite', '%s: %s' % (q, got))
            if q['q'] == 'fromMZ': bad = any(abs(a - b) > 5e-3 * abs(b) for a, b in zip(got, ref))
            else: bad = got != ref
            if bad: raise Violation('history', '%s gives %s, in an untouched process %s (after %s)' % (q, got, ref, last))
            want = expect(w.spec, q, op['k'], own)
            if len(want) != len(got): raise Violation('shape', '%s: %d values, expected %d' % (q, len(got), len(want)))
            for a, (v, t) in zip(got, want):
                if v is not None and not abs(a - v) <= t: raise Violation('value', '%s of %s: %.9g, definition %.9g +- %.2g (after %s)' % (q, w.spec[q.get('lens', op['k'] % len(w.spec))], a, v, t, last))
            ctx.state(q['q'], q['form'], int(min(q['z'][0], 5)), last)
            ctx.log(q['q'], plain(got))
            last = 'queries'
        elif k in ('copy', 'pickle'):
            ws.append(copy.deepcopy(ws[op['i'] % len(ws)]) if k == 'copy' else pickle.loads(pickle.dumps(ws[op['i'] % len(ws)])))
            last = k
        elif k == 'build':
            from pyHalo.Cosmology.cosmology import Cosmology
            mk = lambda: Cosmology() if COSMO[op['cosmo']] is None else Cosmology(None, dict(COSMO[op['cosmo']]))
            if op['kind']:
                n = faults.forked(lambda: faults.count_lines(mk))[1]
                faults.arm(1 + int(op['frac'] * (n - 1)), op['kind'])
                try: mk()
                except (Injected, InjectedInterrupt): pass
                finally:
                    if faults.disarm()[1]: ctx.fault('construction stopped by ' + op['kind'])
            else: mk(); ctx.fault('another cosmology constructed')
            last = 'build'
        elif k == 'planes': check_planes(op, ctx)
        elif k == 'mono':
            C = ws[op['k'] % len(ws)].cos[0]
            z = sorted(set(op['z']))
            D, T = [C.D_C_z(v) for v in z], [C.halo_age(v) for v in z]
            if any(b <= a for a, b in zip(D, D[1:])): raise Violation('monotonic', 'comoving distance falls: %s at %s' % (D, z))
            if any(b >= a for a, b in zip(T, T[1:])): raise Violation('monotonic', 'age grows with redshift: %s at %s' % (T, z))
            ctx.state('mono', last)
