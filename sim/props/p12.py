"""P12: globular clusters, black holes, primordial black holes and ULDM fluctuations added to realizations in every state (fresh, moved, filtered,
transformed, already extended) while the simulator chooses the Poisson outcomes and the draws, or stops the call half way.  After each call the
original halos must be there untouched and the new objects must obey the documented number, mass, position and plane rules."""
import copy
import numpy as np
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import maximum_bipartite_matching
from scipy.stats import norm
from sim import calls, faults, ops as O, popul as P, worlds as W, rng
from sim.core import plain, same, Violation, Injected, InjectedInterrupt, InjectedMemoryError
from sim.props.p11 import snapshot, unchanged, inherits, PEEK

PLAN = {'quick': dict(runs=220, wall=150, limit=90, min=80), 'thorough': dict(runs=12000, wall=780, limit=120, min=600)}
RULE = 'distinct (kind of object, options, operations before it, kind of draws, none or some added) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'
KINDS = ['gc', 'gc', 'bh', 'bh', 'pbh', 'uldm', 'uldm']
BASIC = ['mass', 'x', 'y', 'z', 'r3d', 'mdef', 'is_subhalo', 'unique_tag', 'fixed_position']
REL = 1e-6


def gen_op(r, w):
    k = r.choice(['ext'] * 8 + ['shift', 'filter', 'transform', 'join', 'readall', 'copy', 'stop', 'stop', 'preset', 'many'])
    op = dict(op=k, src=r.choice([-1, r.randint(0, 9)]), other=r.randint(0, 9))
    if k in ('ext', 'stop'):
        e = op['e'] = O.gen_ext(r, w, KINDS)
        if e['ext'] == 'bh':
            e.update(f=r.choice([0.0, 0.4, 1.0, 1.0]), minbh=r.choice([3.0, 4.5, 5.5]), subres=r.choice([4.0, 5.5, 6.0]), los=r.choice([0.0, 0.02, 0.3]), maxbh=r.choice([5.0, 6.7]))
        if e['ext'] == 'gc':
            e.update(sig=r.choice([0.0, 0.3, 0.6]), gm=r.choice([6.0, 5.0]), gs=r.choice([0.0, 0.3]), sm=r.choice([3.0, 5.0]), ss=r.choice([0.0, 1.0]), npx=r.random() < 0.3)
            e['rho'] = r.choice([5.6, 5.6, 4.0, 2.0])
        if e['ext'] == 'pbh': e.update(frac=r.choice([0.0, 0.005, 0.03]), logm=r.choice([4.0, 5.0, 6.0]), scalar=False)
        if e['ext'] == 'uldm': e.update(ncut=r.choice([3, 7.5, 250, 250, 1000]), scale=r.choice([0.0, 0.00001, 0.002, 0.01, 0.03]))
        op.update(mode=r.choice(['real', 'script', 'script', 'script', 'stats']), counts=[r.choice([0, 0, 1, 2, 5]) for _ in range(5)], peek=r.random() < 0.5)
        if r.random() < 0.15: op['counts'] = [0]
    if k == 'stop': op.update(frac=r.random(), kind=r.choice(['error', 'interrupt', 'memory']))
    if k == 'shift': op['ray'] = O.gen_ray(r)
    if k == 'filter': op['logm'] = r.choice([5.0, 7.0, 8.0])
    if k == 'transform': op['e'] = O.gen_ext(r, w, ['collapse', 'sidm_timescale', 'cored'])
    if k == 'many': op.update(f=r.choice([0.1, 0.4, 0.8, 1.0]), z=r.choice([0.3, 0.5, 0.9]))
    if k == 'preset':
        op['call'] = calls.gen_preset(r, ['CDM', 'CDM', 'WDM', 'CDM_plus_BH'])
        op['mode'] = 'real'
        op['e'] = dict(ext='gc', mean=5.3, sig=0.3, rad=0.1, profile=r.choice(['SPL_CORE', 'PTMASS']), rho=5.6, cx=r.choice([0, [0.4, -0.2]]), gm=6.0, gs=0.3, sm=3.0, ss=1.0)
    return op


def generate(r, i, tier):
    w = O.gen_world(r, 0, 9, r.choice([['TNFW'], ['TNFW'], ['TNFW', 'NFW', 'PT_MASS', 'ULDM', 'GNFW']]))
    w.update(geo=r.choice(['DOUBLE_CONE', 'DOUBLE_CONE', 'CYLINDER', 'CONE']), tsub=r.choice([0, 1, 2]), tfield=0, scatter=r.random() < 0.5)
    if r.random() < 0.3:
        for h in w['halos']: h['m'] = r.choice([1e6, 1e7, 1e8, 1e9, 10 ** 9.7])
    ops = [gen_op(r, w) for _ in range(r.randint(1, 6))]
    if r.random() < 0.3: ops.insert(0, dict(op='shift', src=-1, other=0, ray=O.gen_ray(r)))
    return dict(world=w, ops=ops)


USED = [0]


class Draws:
    def __init__(self, seed, counts, extremes=True, big=None):
        self.g, self.counts, self.i, self.ex, self.big, self.pois = np.random.default_rng(seed), counts, 0, extremes, big, []

    def quant(self, n, site):
        q = self.g.random(n)
        if self.ex and n and site.startswith('realization_extensions'):
            # extremes of the distribution, each used once in a run (every run is a process): tags are draws too
            for i in np.where(self.g.random(n) < 0.2)[0]:
                USED[0] += 1
                q[i] = self.g.choice([USED[0] * 2.0 ** -53, 0.5 + USED[0] * 2.0 ** -52, 1.0 - USED[0] * 2.0 ** -53])
        return q

    def poisson(self, lam):
        c = self.counts[self.i % len(self.counts)] if self.big is None else self.big(lam)
        self.i += 1
        self.pois.append((lam, c))
        return c


def bad(kind, msg): raise Violation(kind, msg)


def build(s, real, e):
    """as ops.build_ext, with the options only this check varies"""
    name, a, kw = O.build_ext(s, real, e)
    if e['ext'] == 'gc':
        kw.update(gamma_mean=e['gm'], gamma_sigma=e['gs'], gc_size_mean=e['sm'], gc_size_sigma=e['ss'])
        if e.get('npx'):
            for c in ('center_x', 'center_y'): kw[c] = np.asarray(kw[c], dtype=np.float32 if isinstance(kw[c], list) else float)[()]
    return name, a, kw


def call(s, real, e):
    from pyHalo.realization_extensions import RealizationExtensions
    name, a, kw = build(s, real, e)
    before = copy.deepcopy([x for x in a if not callable(x)])
    out = getattr(RealizationExtensions(real), name)(*a, **kw)
    return out


# ------------------------------------------------------------------ what each call may add
def circle(u, n, what, kind='distribution'):
    if n >= 200 and abs(np.mean(u) - 0.5) > 6 * 0.2887 / len(u) ** 0.5: bad(kind, '%s: mean rank of %d squared radii in a uniform disk is %.4f' % (what, n, np.mean(u)))


def isotropic(dx, dy, what):
    if len(dx) < 200: return
    t = np.arctan2(dy, dx)
    for f in (np.cos, np.sin):
        if abs(f(t).mean()) > 6 * 0.71 / len(dx) ** 0.5: bad('distribution', '%s: %d positions not isotropic' % (what, len(dx)))


def rank(v, cdf, what):
    if len(v) >= 200 and abs(cdf(np.asarray(v)).mean() - 0.5) > 6 * 0.2887 / len(v) ** 0.5: bad('distribution', '%s: mean rank %.4f of %d values' % (what, cdf(np.asarray(v)).mean(), len(v)))


def lams(d, want, what, tol):
    """the expected numbers the call asked the Poisson generator for"""
    got = [l for l, _ in d.pois]
    want = [w for w in want if w > 0]
    left = sorted(got)
    for w in sorted(want):
        m = [g for g in left if abs(g / w - 1) < tol]
        if not m: bad('expected-number', '%s: expected number %.6g missing, drew with %s' % (what, w, ['%.6g' % g for g in got][:20]))
        left.remove(min(m, key=lambda g: abs(g / w - 1)))
    return left


def check_gc(s, real, e, new, d, mode, what):
    z = real.lens_cosmo.z_lens
    asec = s.astro.kpc_proper_per_arcmin(z).value / 60
    cx = e['cx'] if isinstance(e['cx'], list) else [e['cx']]
    n = np.pi * 10 ** e['rho'] * (e['rad'] * asec) ** 2 / (10 ** e['mean'] * np.exp((e['sig'] * np.log(10)) ** 2 / 2))
    if d is not None:
        if lams(d, [n] * len(cx), what, 2e-3): bad('expected-number', '%s: drew with %s, expected %d times %.6g' % (what, d.pois, len(cx), n))
        if len(new) != sum(c for _, c in d.pois): bad('number', '%s: %d clusters, drew %s' % (what, len(new), d.pois))
    cen = [(c, -c) for c in cx]
    u, dx, dy = [], [], []
    for h in new:
        if h.z != z: bad('plane', '%s: cluster at z=%r' % (what, h.z))
        if not h.fixed_position or h.is_subhalo: bad('flags', '%s: fixed_position=%s is_subhalo=%s' % (what, h.fixed_position, h.is_subhalo))
        rr = [np.hypot(h.x - a, h.y - b) for a, b in cen]
        if min(rr) > e['rad'] * (1 + REL) + 1e-7: bad('aperture', '%s: cluster at (%r, %r), %r arcsec from the nearest centre' % (what, h.x, h.y, min(rr)))
        if e['sig'] == 0 and abs(np.log10(h.mass) - e['mean']) > 1e-9: bad('mass', '%s: mass %r' % (what, h.mass))
        if not h.mass > 0 or not np.isfinite(h.mass): bad('mass', '%s: mass %r' % (what, h.mass))
        k = min(range(len(cen)), key=lambda i: rr[i])
        if len(cen) == 1 or rr[1 - k] > e['rad']: u.append((rr[k] / e['rad']) ** 2); dx.append(h.x - cen[k][0]); dy.append(h.y - cen[k][1])
        if e['profile'] == 'PTMASS':
            if type(h).__name__ != 'BlackHole': bad('class', '%s: %s' % (what, type(h).__name__))
            continue
        if type(h).__name__ != 'GlobularCluster': bad('class', '%s: %s' % (what, type(h).__name__))
        rho0, size, gamma, core = h.profile_args
        L = h.lenstronomy_params[0][0]
        if not e['gm'] - e['gs'] - 1e-9 <= gamma <= e['gm'] + e['gs'] + 1e-9 or L['gamma'] != gamma: bad('profile', '%s: slope %r' % (what, gamma))
        f = core * 1e3 / (h.mass / 1e5) ** (1 / 3)
        if not e['sm'] - e['ss'] - 1e-6 <= f <= e['sm'] + e['ss'] + 1e-6: bad('profile', '%s: core of a 10^5 cluster %r pc' % (what, f))
        if abs(L['r_core'] * asec / core - 1) > 1e-3: bad('profile', '%s: exported core %r arcsec, %r kpc' % (what, L['r_core'], core))
    if mode == 'stats' and len(new) >= 200:
        circle(u, len(u), what); isotropic(np.array(dx), np.array(dy), what)
        if e['sig'] > 0: rank([np.log10(h.mass) for h in new], lambda v: norm.cdf((v - e['mean']) / e['sig']), what + ' masses')
        if e['profile'] == 'SPL_CORE':
            if e['gs'] > 0: rank([h.profile_args[2] for h in new], lambda v: (v - e['gm'] + e['gs']) / (2 * e['gs']), what + ' slopes')
            if e['ss'] > 0: rank([h.profile_args[3] * 1e3 / (h.mass / 1e5) ** (1 / 3) for h in new], lambda v: (v - e['sm'] + e['ss']) / (2 * e['ss']), what + ' sizes')
        if len(cx) == 2:
            k = sum(1 for h in new if np.hypot(h.x - cx[0], h.y + cx[0]) < e['rad'])
            if abs(k - len(new) / 2) > 1 and all(c == d.pois[0][1] for _, c in d.pois): bad('number', '%s: %d of %d clusters around the first centre' % (what, k, len(new)))


def check_bh(s, real, e, new, d, mode, what):
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
    lc, mmin, mmax = real.lens_cosmo, 10 ** e['minbh'], 10 ** e['maxbh']
    zz = [float(q) for q in real.unique_redshifts]
    dz = [b - a for a, b in zip(zz, zz[1:] + [lc.z_source])]
    if d is not None:
        want = []
        for q, w in zip(zz, dz):
            m = ShethTormen.from_redshift(q, w, real.geometry, dict(m_pivot=1e8, log_mlow=e['subres'], log_mhigh=6.0, LOS_normalization=1.0, delta_power_law_index=0.0, draw_poisson=True))
            want.append(e['f'] * e['los'] * m.n_mean if e['subres'] < 6.0 else 0.0)
        left = lams(d, want, what, 1e-6)
        if left: bad('expected-number', '%s: drew with %s, expected %s' % (what, left, want))
    for h in new:
        if type(h).__name__ != 'BlackHole' or h.is_subhalo or h.fixed_position: bad('class', '%s: %s sub=%s fixed=%s' % (what, type(h).__name__, h.is_subhalo, h.fixed_position))
        if not mmin < h.mass <= mmax * (1 + REL): bad('mass', '%s: mass %r outside (10^%g, 10^%g]' % (what, h.mass, e['minbh'], e['maxbh']))
        if h.z not in zz: bad('plane', '%s: z=%r is not a plane of the realization' % (what, h.z))
    # every hole is that of a rendered halo or of one halo below the resolution
    own = []                                  # (halo, black hole mass, scale radius) of every halo that may have one
    for q in real.halos:
        m = min(mmax, q.mass * 10 ** e['ratio'])
        if m > mmin: own.append((q, m, float(q.nfw_params[1]) / (s.astro.kpc_proper_per_arcmin(q.z).value / 60)))
    fits = np.array([[h.z == q.z and abs(h.mass / m - 1) < 1e-9 and np.hypot(h.x - q.x, h.y - q.y) <= rs * (1 + 1e-3) for h in new] for q, m, rs in own]).reshape(len(own), len(new))
    # neighbouring halos overlap, so that holes are assigned to halos by a maximum matching
    pair = maximum_bipartite_matching(csr_matrix(fits), perm_type='column') if fits.size else np.full(len(own), -1)
    if e['f'] == 1.0 and (pair < 0).any():
        q, m, _ = own[int(np.where(pair < 0)[0][0])]
        bad('missing', '%s: halo of mass %r has no black hole of mass %r within its scale radius' % (what, q.mass, m))
    rest = [h for j, h in enumerate(new) if j not in pair]
    n_ok = len(own)
    ranks = [(np.hypot(new[j].x - q.x, new[j].y - q.y) / rs) ** 2 for (q, m, rs), j in zip(own, pair) if j >= 0]
    alone = [h for j, h in enumerate(new) if not fits[:, j].any()]
    if e['f'] == 0.0 and new: bad('occupation', '%s: %d black holes' % (what, len(new)))
    sub_top = min(mmax, 1e6 * 10 ** e['ratio']) if e['subres'] < 6.0 else 0.0
    rx, ry = s.center[real_id(s, real)]
    for h in alone:
        if h.mass > sub_top * (1 + REL): bad('position', '%s: black hole of mass %r at z=%r, (%r, %r) is in no halo' % (what, h.mass, h.z, h.x, h.y))
        r0 = 0.5 * s.w['angle'] * P.scale(s.sp, h.z)
        t = s.dc(h.z) / s.dc(s.w['zs'])
        if np.hypot(h.x - rx[0] - rx[1] * t, h.y - ry[0] - ry[1] * t) > r0 * (1 + 1e-3) + 1e-3 * (abs(rx[1]) + abs(ry[1])):
            bad('aperture', '%s: black hole below the resolution at z=%r, (%r, %r): outside the rendering volume of radius %r around (%r, %r)' % (what, h.z, h.x, h.y, r0, rx[0] + rx[1] * t, ry[0] + ry[1] * t))
    if d is not None:
        n = sum(c for _, c in d.pois)
        if len(new) > n + n_ok: bad('number', '%s: %d black holes, %d halos and drew %s' % (what, len(new), n_ok, d.pois))
        if min(mmax, 10 ** (e['subres'] + e['ratio'])) > mmin * (1 + REL) and (len(new) < n or (e['f'] == 1.0 and len(new) != n + n_ok)):
            bad('number', '%s: %d black holes, %d halos and drew %s' % (what, len(new), n_ok, d.pois))
    if mode == 'stats' and e['f'] == 1.0 and len(ranks) >= 200: circle(ranks, len(ranks), what)


def check_pbh(s, real, e, new, d, mode, what, clumpy):
    from pyHalo.Cosmology.geometry import Geometry
    lc = real.lens_cosmo
    zz = [float(q) for q in real.unique_redshifts]
    dz = [b - a for a, b in zip(zz, zz[1:] + [lc.z_source])]
    rho = (s.astro.Odm(0) * s.astro.critical_density(0)).to('Msun/Mpc3').value
    mean = 10 ** e['logm'] * (1.0 if e['mf'] == 'DELTA' else np.exp((0.2 * np.log(10)) ** 2 / 2))
    g = Geometry(lc.cosmo, lc.z_lens, lc.z_source, 2 * e['rmax'], 'DOUBLE_CONE')
    if d is not None:
        want = [e['frac'] * (1 - e['inhalos']) * rho * g.volume_element_comoving(q, w) / mean for _ in e['rays'] for q, w in zip(zz, dz)]
        left = lams(d, want, what, 2e-3)
        if not clumpy and left: bad('expected-number', '%s: drew with %s, expected %s' % (what, left, want))
        if len(left) > len(e['rays']) * len(zz): bad('expected-number', '%s: %d draws for structure around halos' % (what, len(left)))
        if len(new) != sum(c for _, c in d.pois): bad('number', '%s: %d objects, drew %s' % (what, len(new), d.pois))
    if e['frac'] == 0.0 and new: bad('number', '%s: %d objects of a dark matter fraction 0' % (what, len(new)))
    sp = dict(s.sp, geo='DOUBLE_CONE')
    ranks, dx, dy = [], [], []
    for h in new:
        if h.mdef != 'PT_MASS' or h.is_subhalo: bad('class', '%s: %s sub=%s' % (what, h.mdef, h.is_subhalo))
        if h.z not in zz: bad('plane', '%s: z=%r is not a plane of the realization' % (what, h.z))
        if e['mf'] == 'DELTA' and abs(h.mass / 10 ** e['logm'] - 1) > 1e-9: bad('mass', '%s: mass %r' % (what, h.mass))
        t = s.dc(h.z) / s.dc(s.w['zs'])
        cen = [O.Session.ray_at(q, t) for q in e['rays']]
        r0 = e['rmax'] * (1.5 if clumpy else P.scale(sp, h.z))     # structure around halos is smoothed by a pixel
        rr = [np.hypot(h.x - a, h.y - b) for a, b in cen]
        slack = 1e-3 * max(abs(v) for q in e['rays'] for v in q)
        if min(rr) > r0 * (1 + 1e-3) + slack: bad('aperture', '%s: object at z=%r, (%r, %r), %r arcsec from the nearest image, radius %r' % (what, h.z, h.x, h.y, min(rr), r0))
        if not clumpy and len(cen) == 1: ranks.append((rr[0] / r0) ** 2); dx.append(h.x - cen[0][0]); dy.append(h.y - cen[0][1])
    if mode == 'stats' and len(ranks) >= 200:
        circle(ranks, len(ranks), what); isotropic(np.array(dx), np.array(dy), what)
        if e['mf'] == 'GAUSSIAN': rank([np.log10(h.mass) for h in new], lambda v: norm.cdf((v - e['logm']) / 0.2), what + ' masses')


def check_uldm(s, real, e, new, d, mode, what):
    z = real.lens_cosmo.z_lens
    asec = s.astro.kpc_proper_per_arcmin(z).value / 60
    a = O.uldm_args(e)
    nimg = 1
    if e['shape'] == 'ring': area = np.pi * (a['rmax'] ** 2 - a['rmin'] ** 2)
    elif e['shape'] == 'ellipse': area = np.pi * (a['amax'] * a['bmax'] - a['amin'] * a['bmin'])
    else: area, nimg = np.pi * a['aperture'] ** 2, len(a['x_images'])
    n = e['scale'] * area * asec ** 2 / (np.pi * e['size'] ** 2)
    amp = e['amp']
    if d is not None:
        if lams(d, [n] * nimg, what, 2e-3): bad('expected-number', '%s: drew with %s, expected %r' % (what, d.pois, n))
        c = [v for _, v in d.pois] or [0]
        if e['rescale'] and np.mean(c) > e['ncut']:
            amp = amp / np.sqrt(np.mean(c) / e['ncut'])
            c = [int(e['ncut'])] * len(c)
        if len(new) != sum(c): bad('number', '%s: %d fluctuations, drew %s, limit %s' % (what, len(new), d.pois, e['ncut']))
    for h in new:
        if type(h).__name__ != 'GaussianHalo' or h.mdef != 'GAUSSIAN_KAPPA' or not h.fixed_position: bad('class', '%s: %s %s fixed=%s' % (what, type(h).__name__, h.mdef, h.fixed_position))
        if h.z != z: bad('plane', '%s: fluctuation at z=%r' % (what, h.z))
        L = h.lenstronomy_params[0][0]
        if L['center_x'] != h.x or L['center_y'] != h.y: bad('position', '%s: at (%r, %r), exported at (%r, %r)' % (what, h.x, h.y, L['center_x'], L['center_y']))
        if abs(abs(L['amp']) - h.mass) > 1e-12 * h.mass: bad('mass', '%s: amplitude %r, mass %r' % (what, L['amp'], h.mass))
        if not L['sigma'] >= 0 or not np.isfinite([L['sigma'], L['amp'], h.x, h.y]).all(): bad('profile', '%s: %s' % (what, L))
        if e['shape'] == 'ring':
            r = np.hypot(h.x, h.y)
            ok = a['rmin'] * (1 - REL) <= r <= a['rmax'] * (1 + REL)
        elif e['shape'] == 'ellipse':
            c, q = np.cos(a['angle']), np.sin(a['angle'])
            u, v = h.x * c + h.y * q, -h.x * q + h.y * c
            ok = (u / a['amax']) ** 2 + (v / a['bmax']) ** 2 <= 1 + REL and (u / a['amin']) ** 2 + (v / a['bmin']) ** 2 >= 1 - REL
        else: ok = min(np.hypot(h.x - p, h.y - t) for p, t in zip(a['x_images'], a['y_images'])) <= a['aperture'] * (1 + REL)
        if not ok: bad('aperture', '%s: fluctuation at (%r, %r) outside the %s' % (what, h.x, h.y, e['shape']))
    if mode == 'stats' and len(new) >= 200:
        L = [h.lenstronomy_params[0][0] for h in new]
        k0 = np.array([l['amp'] / (2 * np.pi * l['sigma'] ** 2) for l in L])
        sd = np.array([l['sigma'] for l in L])
        nn = len(L)
        if abs(k0.mean()) > 6 * amp / nn ** 0.5: bad('distribution', '%s: mean convergence %r of %d fluctuations' % (what, k0.mean(), nn))
        if abs(k0.std() / amp - 1) > 6 / (2 * nn) ** 0.5: bad('distribution', '%s: standard deviation %r of the peak convergence, expected %r' % (what, k0.std(), amp))
        rank(sd, lambda v: norm.cdf((v - e['size'] / asec) / (e['var'] / asec)), what + ' sizes')
        if e['shape'] == 'aperture':
            k = sum(1 for h in new if np.hypot(h.x - a['x_images'][0], h.y - a['y_images'][0]) < a['aperture'])
            if k != nn // 2 and (d is None or d.pois[0][1] == d.pois[-1][1]): bad('number', '%s: %d of %d fluctuations at the first image' % (what, k, nn))
            i = np.argmin([[np.hypot(h.x - p, h.y - t) for p, t in zip(a['x_images'], a['y_images'])] for h in new], axis=1)
            dx = np.array([h.x - a['x_images'][j] for h, j in zip(new, i)]); dy = np.array([h.y - a['y_images'][j] for h, j in zip(new, i)])
            circle((dx ** 2 + dy ** 2) / a['aperture'] ** 2, nn, what); isotropic(dx, dy, what)


def real_id(s, real): return next(i for i, p in enumerate(s.pool) if p is real)


def add(s, ctx, scn, i, op, hist):
    real, e = s.pool[i], op['e']
    what = '%s(%s)' % (e['ext'], ', '.join('%s=%s' % (k, v) for k, v in sorted(e.items()) if k != 'ext'))
    names = PEEK if op['peek'] else ()
    snap = snapshot(real, names)
    seed = scn['seed'] + 17 * ctx.steps
    d, mode = None, op['mode']
    if mode == 'real': rng.mode_real(seed)
    else:
        # far more fluctuations than the limit: the amplitude is what is rescaled
        many = 5000 if e['ext'] == 'uldm' and e['rescale'] and e['ncut'] == 250 else 400
        big = (lambda lam: many) if mode == 'stats' and e['ext'] in ('gc', 'uldm') else (lambda lam: 60) if mode == 'stats' else None
        d = Draws(seed, op['counts'], mode != 'stats', big)
        rng.mode_script(d.quant, d.poisson)
    res = call(s, real, e)
    rng.mode_real(seed + 1)
    unchanged(real, snap, names, what)
    if e['ext'] == 'bh':
        new, kept = list(res.halos), None
        if res is real: bad('source', '%s returned the realization it was given' % what)
    else:
        tags = [h.unique_tag for h in real.halos]
        kept = [h for h in res.halos if h.unique_tag in set(tags)]
        new = [h for h in res.halos if h.unique_tag not in set(tags)]
        if [h.unique_tag for h in kept] != tags: bad('originals', '%s: original halos lost, repeated or reordered: %d of %d' % (what, len(kept), len(tags)))
        full = e['ext'] == 'pbh' and e['rescale'] and e['frac'] * e['inhalos'] > 0
        for a, b in zip(real.halos, kept):
            for nm in BASIC:
                dd = same(plain(getattr(a, nm)), plain(getattr(b, nm)))
                if dd: bad('originals', '%s: %s of an original halo: %s' % (what, nm, dd))
            if type(a) is not type(b): bad('originals', '%s: %s became a %s' % (what, type(a).__name__, type(b).__name__))
            if names and not full:
                dd = same([W.read(a, q) for q in names], [W.read(b, q) for q in names])
                if dd: bad('originals', '%s: %s: %s' % (what, type(a).__name__, dd))
        if len(set(h.unique_tag for h in res.halos)) != len(res.halos): bad('tags', '%s: tags repeat' % what)
    if e['ext'] == 'gc': check_gc(s, real, e, new, d, mode, what)
    elif e['ext'] == 'bh': check_bh(s, real, e, new, d, mode, what)
    elif e['ext'] == 'uldm': check_uldm(s, real, e, new, d, mode, what)
    else: check_pbh(s, real, e, new, d, mode, what, e['frac'] * e['inhalos'] > 0)
    inherits(real, res, what, s)
    if s.shifted[i] is not None or e['ext'] == 'bh' or new:
        moved_again(s, real, res, s.shifted[i], what)
    W.arrays_agree(res, what)
    ctx.state(e['ext'], e.get('profile', e.get('shape', e.get('mf'))), e.get('f'), e.get('los'), e.get('inhalos'), e.get('rescale'), hist, mode, min(len(new), 2), s.w['geo'])
    ctx.fault('scripted counts and draws' if mode in ('script', 'stats') else 'ordinary draws')
    ctx.count('objects added', len(new))
    ctx.log(what, len(new), plain(res.masses))
    return res


def moved_again(s, real, res, shifted, what):
    """a result counts as moved exactly when its source does, and what has a fixed position never moves"""
    q = [0.3, 0.1, -0.2, 0.2]
    r = s.ray(q)
    y = res.shift_background_to_source(r[0], r[1])
    if len(y.halos) != len(res.halos): bad('inherit:shift', '%s: %d of %d halos after moving' % (what, len(y.halos), len(res.halos)))
    for a, b in zip(y.halos, res.halos):
        t = s.dc(b.z) / s.dc(s.w['zs'])
        if shifted is not None or b.fixed_position: dx, dy = 0.0, 0.0
        else: dx, dy = q[0] + q[1] * t, q[2] + q[3] * t
        if abs(a.x - b.x - dx) > 2e-3 or abs(a.y - b.y - dy) > 2e-3:
            bad('inherit:shift', '%s: %s at z=%r moved by (%r, %r), expected (%r, %r)' % (what, type(b).__name__, b.z, a.x - b.x, a.y - b.y, dx, dy))


def preset(s, ctx, scn, op):
    c = copy.deepcopy(op['call'])
    for k in ('add_globular_clusters', 'kwargs_globular_clusters'): c['kw'].pop(k, None)
    e = op['e']
    cx = e['cx']
    kw = dict(log10_mgc_mean=e['mean'], log10_mgc_sigma=e['sig'], rendering_radius_arcsec=e['rad'], gc_density_profile=e['profile'], gc_surface_mass_density=10 ** e['rho'], center_x=cx,
              center_y=[-v for v in cx] if isinstance(cx, list) else -cx)
    seed = scn['seed'] + 17 * ctx.steps
    # the second call in this process may find tables made by the first: build both once
    out = []
    for with_gc in (False, True):
        q = copy.deepcopy(c)
        if with_gc: q['kw'].update(add_globular_clusters=True, kwargs_globular_clusters=copy.deepcopy(kw))
        f = calls.build(q)
        rng.mode_real(seed)
        out.append(f())
    rng.mode_real(seed)
    a, b = out
    gcs = [h for h in b.halos if h.z == b.lens_cosmo.z_lens and h.fixed_position and (type(h).__name__ == 'GlobularCluster' or h.mdef == 'PT_MASS')]
    rest = [h for h in b.halos if not any(h is g for g in gcs)]
    if len(rest) != len(a.halos): bad('originals', 'preset %s with globular clusters has %d other halos, %d without' % (c['name'], len(rest), len(a.halos)))
    for p, q in zip(a.halos, rest):
        dd = same([plain(getattr(p, nm)) for nm in BASIC], [plain(getattr(q, nm)) for nm in BASIC])
        if dd: bad('originals', 'preset %s with globular clusters: %s' % (c['name'], dd))
    s2 = copy.copy(s)
    s2.w = dict(s.w, zl=c['kw']['z_lens'], zs=c['kw']['z_source'])
    s2.astro = P.astro(dict(cosmo=c['kw'].get('kwargs_cosmo')))
    check_gc(s2, b, e, gcs, None, 'real', 'preset ' + c['name'])
    W.arrays_agree(b, 'preset ' + c['name'])
    ctx.state('preset', c['name'], e['profile'], len(gcs) > 0, op['mode'])
    ctx.log('preset', len(gcs), len(a.halos))


def many(s, ctx, scn, op):
    """the fraction of halos with a black hole, and where in the halos they are"""
    from pyHalo.realization_extensions import RealizationExtensions
    hs = [dict(m=10 ** (9 + 0.001 * k), x=0.1 * (k % 20), y=0.1 * (k // 20), r3d=None, mdef='TNFW', z=op['z'], sub=False) for k in range(400)]
    model = W.halo_model(s.lc, 0, 0, 6, 6, False)
    real = W.realization(s.lc, hs, model, s.geo, None, False)
    y = RealizationExtensions(real).add_black_holes(-2.0, op['f'], 5.5, 3.0, 6.0, 7.5, 0.0)
    asec = s.astro.kpc_proper_per_arcmin(op['z']).value / 60
    u, dx, dy = [], [], []
    for h in y.halos:
        k = int(round(1000 * (np.log10(h.mass) - 7)))
        q = real.halos[k] if 0 <= k < 400 else None
        if q is None or abs(h.mass / q.mass - 0.01) > 1e-9: bad('mass', 'many: black hole of mass %r' % h.mass)
        u.append((np.hypot(h.x - q.x, h.y - q.y) / (float(q.nfw_params[1]) / asec)) ** 2); dx.append(h.x - q.x); dy.append(h.y - q.y)
    n, f = len(u), op['f']
    if abs(n - 400 * f) > 6 * (400 * f * (1 - f)) ** 0.5: bad('occupation', 'many: %d of 400 halos have a black hole for f=%g' % (n, f))
    circle(u, n, 'many'); isotropic(np.array(dx), np.array(dy), 'many')
    ctx.state('many', f, op['z'])
    ctx.log('many', n)


def session(w):
    from pyHalo.Cosmology.geometry import Geometry
    s = O.Session(w)
    if w['geo'] != 'DOUBLE_CONE':
        s.geo = Geometry(s.lc.cosmo, w['zl'], w['zs'], w['angle'], w['geo'])
        s.rc = W.rendering_classes(s.lc, s.geo, w['zl'], w['zs'], w.get('norm', 0.3)) if w.get('rc') else None
        s.pool = [W.realization(s.lc, w['halos'], s.model, s.geo, s.rc, w.get('sheets', True) and s.rc is not None)]
    s.sp = dict(zl=w['zl'], zs=w['zs'], cosmo=W.COSMOS[w['cosmo']], geo=w['geo'], angle=w['angle'])
    s.astro = P.astro(s.sp)
    memo = {}
    s.dc = lambda z: memo.setdefault(z, s.astro.comoving_distance(z).value)
    s.center = [((0.0, 0.0), (0.0, 0.0))]
    return s


def execute(scn, ctx):
    w = scn['world']
    rng.mode_real(scn['seed'])
    s = session(w)
    hist = ['new']

    def put(y, i, label):
        s.pool.append(y); s.shifted.append(s.shifted[i]); s.center.append(s.center[i]); hist.append(label)
    for op in scn['ops']:
        ctx.steps += 1
        i = op['src'] % len(s.pool)
        real = s.pool[i]
        k = op['op']
        rng.mode_real(scn['seed'] + 13 * ctx.steps)
        if k == 'ext' and O.applicable(real, op['e']):
            y = add(s, ctx, scn, i, op, hist[i])
            if op['e']['ext'] == 'bh': y = real.join(y)
            put(y, i, 'extended')
        elif k == 'stop' and O.applicable(real, op['e']):
            names = PEEK if op['peek'] else ()
            snap = snapshot(real, names)
            st = rng.save()
            cnt = faults.forked(lambda: faults.count_lines(lambda: call(s, real, op['e'])))[1]
            if not isinstance(cnt, int) or cnt < 2: continue
            rng.restore(st)
            faults.arm(1 + int(op['frac'] * (cnt - 1)), op['kind'])
            try: call(s, real, op['e'])
            except (Injected, InjectedInterrupt, InjectedMemoryError): pass
            finally:
                if faults.disarm()[1]: ctx.fault('call stopped by ' + op['kind'])
            unchanged(real, snap, names, 'a call that was stopped')
            add(s, ctx, scn, i, op, 'stopped')
        elif k == 'shift' and s.shifted[i] is None:
            y = real.shift_background_to_source(*s.ray(op['ray']))
            put(y, i, 'moved'); s.shifted[-1] = op['ray']; s.center[-1] = (tuple(op['ray'][:2]), tuple(op['ray'][2:]))
        elif k == 'filter':
            r = s.ray([0.0, 0.0, 0.0, 0.0])
            put(real.filter(2.0, op['logm'], [r[0]], [r[1]]), i, 'filtered')
        elif k == 'transform' and O.applicable(real, op['e']): put(O.apply_ext(s, real, op['e']), i, 'transformed')
        elif k == 'join':
            j = op['other'] % len(s.pool)
            if s.center[i] == s.center[j]: put(real.join(s.pool[j]), i, 'joined')
        elif k == 'readall':
            for h in real.halos:
                for nm in PEEK: W.read(h, nm)
        elif k == 'copy': put(copy.deepcopy(real), i, 'copied')
        elif k == 'preset': preset(s, ctx, scn, op)
        elif k == 'many': many(s, ctx, scn, op)


def simplify(scn):
    hs = scn['world']['halos']
    for i in range(len(hs)):
        if len(hs) > 1: yield dict(scn, world=dict(scn['world'], halos=hs[:i] + hs[i + 1:]))
