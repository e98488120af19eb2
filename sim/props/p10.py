"""P10: mass sheets. The simulator decides every draw of the rendering classes (a known grid of quantiles, evenly spread thinning draws), so the
expectation of the mass they draw is measured on the real code and compared with the sheets the same populations put into the lensing export,
after any history of exports, queries, shifts and derived realizations."""
import numpy as np
from sim import ops as O, popul as P, rng, worlds as W
from sim.core import plain, same, Violation

PLAN = {'quick': dict(runs=200, wall=200, limit=120, min=60), 'thorough': dict(runs=12000, wall=800, limit=120, min=600)}
RULE = 'distinct (operation, population, mass function, sheet options, realization kind) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'
TOL = 0.01


def gen_kw(r):
    kw = {}
    if r.random() < 0.5: kw['log_mlow_sheets'] = r.choice([6.5, 7.5, 8.0])
    if r.random() < 0.4: kw['log_mhigh_sheets'] = r.choice([9.0, 9.5, 10.0, 7.5])
    if r.random() < 0.3: kw['kappa_scale'] = r.choice([0.0, 0.5, 2.0])
    if r.random() < 0.3: kw['kappa_scale_subhalos'] = r.choice([0.0, 0.25, 3.0])
    if r.random() < 0.25: kw['zmin'] = r.choice([0.0, 0.31, 0.5, 0.7])
    if r.random() < 0.25: kw['zmax'] = r.choice([0.41, 0.5, 0.9, 1.2])
    return kw


def gen_op(r, sp):
    k = r.choice(['theory'] * 5 + ['exact'] * 3 + ['balance'] * 3 + ['query'] * 2 + ['none', 'shift', 'filter', 'split', 'join', 'ext', 'ext', 'copy', 'rescale', 'rescale', 'near', 'near'])
    op = dict(op=k, src=r.randint(0, 50), seed=r.randint(0, 2 ** 31))
    if k == 'theory': op.update(cls=r.random() < 0.4, kw=gen_kw(r), scale=r.choice([0.5, 2.0, 0.0]))
    elif k == 'exact': op.update(kw=r.choice([{}, {}, dict(kappa_scale=0.5), dict(zmin=0.5), dict(log_mlow_sheets=8.0)]))
    elif k == 'rescale': op.update(kw={}, f=r.choice([0.3, 0.7, 2.0]), which=r.choice([1, 2, 3]), first=r.random() < 0.7)
    elif k == 'near': op.update(kw={}, dz=r.choice([1e-3, 5e-3, -9e-3, 0.02]), n=r.randint(1, 4))
    elif k == 'balance': op.update(pop=r.randint(0, 5), rng=r.choice(['class', 'class', 'explicit']), lo=r.choice([6.5, 7.5, 8.0]), hi=r.choice([9.0, 10.0]))
    elif k == 'query': op.update(pop=r.randint(0, 5), lo=r.choice([6.5, 8.0, 9.0]), hi=r.choice([9.5, 10.0, 7.0]), scale=r.choice([1.0, 0.3]))
    elif k == 'shift': op.update(ray=O.gen_ray(r))
    elif k == 'filter': op.update(logm=r.choice([6.5, 7.5, 8.5]), ray=O.gen_ray(r, 0.4), ap=r.choice([0.1, 0.5]))
    elif k == 'split': op.update(z=r.choice([0.3, sp['zl'], 0.9]))
    elif k == 'ext': op.update(e=O.gen_ext(r, dict(halos=[0] * 6), ['collapse', 'collapse_by_mass', 'cored', 'gc', 'bh', 'sis', 'uldm']))
    return op


def generate(r, i, tier):
    sp = P.gen(r, r.choice([['SUBHALOS', 'LINE_OF_SIGHT', 'TWO_HALO'], ['SUBHALOS', 'LINE_OF_SIGHT'], ['SUBHALOS'], ['LINE_OF_SIGHT'], ['LINE_OF_SIGHT_NOSHEET', 'SUBHALOS'], ['LINE_OF_SIGHT', 'LINE_OF_SIGHT', 'SUBHALOS']]))
    sp['spacing'] = r.choice([0.1, 0.1, 0.1 if any(p['name'] == 'TWO_HALO' for p in sp['pops']) else 0.2])
    sp['mdef_sub'] = r.choice(['TNFW', 'TNFW', 'NFW', 'TNFW'])
    sp['mdef_field'] = r.choice(['TNFW', 'TNFW', 'NFW', 'PT_MASS'])
    for p in sp['pops']:
        if p.get('amp') == 0.0 and r.random() < 0.7: p['amp'] = 0.05 if p['name'] == 'SUBHALOS' else 1.0
        if p['mhigh'] in (6.5, 7.0) and r.random() < 0.6: p['mhigh'] = 10.0
    return dict(pop=sp, seed=r.randint(0, 2 ** 31), before=P.gen_strangers(r), counts=[r.choice([0, 0, 1, 2, 3]) for _ in range(7)], ops=[gen_op(r, sp) for _ in range(r.randint(3, 8))])


class Sess(O.Session):
    def __init__(self, scn):
        self.sp = sp = scn['pop']
        self.b = P.build(sp)
        self.lc, self.geo, self.model = self.b.lc, self.b.geo, self.b.model
        self.w = dict(zl=sp['zl'], zs=sp['zs'], halos=[])
        real(scn['seed'], scn['counts'])
        self.pool = P.render(self.b)
        self.shifted = [None]
        self.dmax = self.lc.cosmo.D_C_z(sp['zs'])
        self.theory = {}


def real(seed, counts):
    g = np.random.default_rng(seed)
    state = [0]

    def pois(lam):
        state[0] += 1
        return counts[state[0] % len(counts)]
    rng.mode_script(lambda n, site: g.random(n), pois)


def grid(n):
    """quantiles dense at both ends, with the probability each one stands for"""
    e = np.concatenate([[0.0], np.logspace(-9, np.log10(0.5), n // 2)])
    q = 0.5 * (e[1:] + e[:-1])
    w = np.diff(e)
    return np.concatenate([q, (1 - q)[::-1]]), np.concatenate([w, w[::-1]])


def vdc(n):
    i = np.arange(n)
    v, f = np.zeros(n), 0.5
    while i.any():
        v += f * (i & 1)
        i >>= 1
        f *= 0.5
    return v


Q, WT = grid(1200)


TILES = 10


def measure(sp, p, s):
    """what population p draws in one render with the grid of quantiles (repeated for the thinning draws): {z: (poisson mean, masses of the
    grid, [surviving masses of each repetition])}"""
    m = P.population(s.b, dict(sp, pops=[p])).rendering_classes[0]
    thin = p['mf'] != 'cdm'
    N = len(Q) * ((TILES + 1) if thin else 1)
    u = np.concatenate([np.zeros(len(Q))] + [(vdc(len(Q)) + (i + 0.5) * 0.6180339887) % 1.0 for i in range(TILES)])
    st = dict(phase=9, lams=[])
    g = np.random.default_rng(5)

    def pois(lam):
        st['phase'] = 0
        st['lams'].append(float(lam))
        return N if lam > 0 else 0

    def quant(n, site):
        st['phase'] += 1
        if n == N and st['phase'] == 1: return np.tile(Q, N // len(Q))
        if n == N and st['phase'] == 2 and thin: return u.copy()
        return g.random(n)
    rng.mode_script(quant, pois)
    o = m.render()
    zz = [sp['zl']] if p['name'] != 'LINE_OF_SIGHT' else P.planes(sp)[0]
    lams = st['lams']
    # planes whose expectation vanishes may skip the generator
    full = [z for z in zz if P.at(p['mlow'], z) < P.at(p['mhigh'], z)]
    out = {z: (0.0, None, None) for z in zz}
    if len(lams) == len(full): zz = full
    elif not lams: return out
    elif len(lams) != len(zz): raise Violation('planes', '%d Poisson draws for %d planes' % (len(lams), len(zz)))
    for z, lam in zip(zz, lams):
        if lam <= 0: continue
        mm = np.asarray(o[0], float)[np.abs(np.asarray(o[4], float) - z) < 1e-9]
        if len(mm) < len(Q) or (not thin and len(mm) != N): raise Violation('count', '%s at z=%g: %d halos for %d drawn' % (p['name'], z, len(mm), N))
        out[z] = (lam, mm[:len(Q)], mm[len(Q):])
    return out


def survival(p, m):
    """the documented suppression relative to cold dark matter"""
    w = (1 + P.WDM['a_wdm'] * (10 ** p['logmc'] / m) ** P.WDM['b_wdm']) ** P.WDM['c_wdm']
    return w if p['mf'] == 'wdm' else (p['frac'] + (1 - p['frac']) * np.sqrt(w)) ** 2


def thinned(p, lam, cold, survivors, z):
    """survivors are a subset of the masses drawn; each is matched to its quantile"""
    c = np.maximum.accumulate(cold)
    if (c != cold).any(): raise Violation('inverse-cdf', 'masses fall with the quantile')
    i = np.clip(np.searchsorted(c, survivors * (1 - 1e-9)), 0, len(c) - 1)
    if len(survivors) and np.abs(c[i] / survivors - 1).max() > 1e-6: raise Violation('subset', 'a thinned population holds a mass that was not drawn')
    tot = np.sum(WT[i] * survivors) / TILES
    ref, unsup = np.sum(WT * cold * survival(p, cold)), np.sum(WT * cold)
    if ref > 0.1 * unsup and abs(tot - ref) > 0.05 * ref:
        raise Violation('thinning', '%s at z=%g: surviving mass %.6g, documented suppression gives %.6g' % (p['name'], z, tot, ref))
    return lam * ref


def mass(sp, p, s):
    """{z: expected mass per plane} of population p"""
    p = dict(p, pois=True)
    key = repr(sorted(p.items(), key=lambda t: t[0]))
    if key not in s.theory:
        out = {}
        for z, (lam, cold, sur) in measure(sp, p, s).items():
            if lam <= 0: out[z] = 0.0
            elif p['mf'] == 'cdm': out[z] = lam * float(np.sum(WT * cold))
            else: out[z] = thinned(p, lam, cold, sur, z)
        s.theory[key] = out
    return s.theory[key]


def kappa(sp, z, m): return m / (P.sigma_crit(sp, z) * P.area_mpc2(sp, z))


def export(real, add=True, cls=False, kw=None):
    k = {} if kw is None else dict(kw)
    names, zs, kws, _ = real.lensing_quantities(add_mass_sheet_correction=add, use_class_mass_ranges=cls, kwargs_mass_sheet=k)
    if len(names) != len(zs) or len(zs) != len(kws): raise Violation('lengths', '%d names, %d redshifts, %d dictionaries' % (len(names), len(zs), len(kws)))
    i = [a for a, n in enumerate(names) if n == 'CONVERGENCE']
    n0 = len(names) - len(i)
    if i and i != list(range(n0, len(names))): raise Violation('order', 'sheets are not at the end of the export')
    return [(round(float(zs[a]), 6), dict(kws[a])) for a in i]


def by_plane(sheets):
    d = {}
    for z, k in sheets: d.setdefault(z, []).append(k['kappa'])
    return d


def check_centres(s, i, sheets, what):
    ray = s.shifted[i]
    for z, k in sheets:
        d = s.lc.cosmo.D_C_z(z) / s.dmax
        x, y = (0.0, 0.0) if ray is None else s.ray_at(ray, d)
        if abs(k['ra_0'] - x) > 2e-4 or abs(k['dec_0'] - y) > 2e-4:
            raise Violation('centre', '%s: sheet at z=%g centred on (%.5f, %.5f), the rendering volume on (%.5f, %.5f)' % (what, z, k['ra_0'], k['dec_0'], x, y))


def planes_of(p, sp, zmin, zmax):
    if p['name'] == 'SUBHALOS': return [sp['zl']]
    if p['name'] != 'LINE_OF_SIGHT': return []
    return [z for z in P.planes(sp)[0] if zmin <= z <= zmax]


def do_theory(s, op, i, ctx):
    sp, real_ = s.sp, s.pool[i]
    kw = dict(op['kw'])
    sheets = export(real_, True, op['cls'], kw)
    check_centres(s, i, sheets, 'theoretical')
    got = by_plane(sheets)
    zmin, zmax = kw.get('zmin', 0.0), kw.get('zmax', sp['zs'])
    lo, hi = kw.get('log_mlow_sheets', 7.0), kw.get('log_mhigh_sheets', 10.0)
    want = {}
    for j, p in enumerate(sp['pops']):
        q = dict(p) if op['cls'] else dict(p, mlow=lo, mhigh=hi)
        zz = planes_of(p, sp, zmin, zmax)
        if not zz or p['amp'] == 0: continue
        M = mass(sp, q, s)
        f = kw.get('kappa_scale_subhalos', 1.0) if p['name'] == 'SUBHALOS' else kw.get('kappa_scale', 1.0)
        for z in zz:
            if P.at(q['mlow'], z) < P.at(q['mhigh'], z): want.setdefault(round(z, 6), []).append((-f * kappa(sp, z, M[z]), TOL))
    if sorted(got) != sorted(want): raise Violation('planes', 'sheets at %s, expected at %s (%s, class ranges %s)' % (sorted(got), sorted(want), kw, op['cls']))
    for z in want:
        if len(got[z]) != len(want[z]): raise Violation('planes', '%d sheets at z=%g, expected %d' % (len(got[z]), z, len(want[z])))
        a, b = sorted(got[z]), sorted(want[z])
        for u, (v, tol) in zip(a, b):
            if abs(u - v) > tol * abs(v) + 1e-15: raise Violation('balance', 'sheet at z=%g has kappa %.6g, the mass drawn there corresponds to %.6g (%s, class ranges %s)' % (z, u, v, kw, op['cls']))
            if u > 0 or (u == 0 and v != 0): raise Violation('sign', 'sheet with kappa %g' % u)
    # linear in the scales
    k2 = dict(kw, kappa_scale=kw.get('kappa_scale', 1.0) * op['scale'], kappa_scale_subhalos=kw.get('kappa_scale_subhalos', 1.0) * op['scale'])
    two = export(real_, True, op['cls'], k2)
    if [z for z, _ in two] != [z for z, _ in sheets]: raise Violation('linear', 'planes change with the kappa scale')
    for (z, a), (_, b) in zip(sheets, two):
        if abs(b['kappa'] - op['scale'] * a['kappa']) > 1e-9 * abs(a['kappa']): raise Violation('linear', 'z=%g: %g at scale %g of %g' % (z, b['kappa'], op['scale'], a['kappa']))
    if same(plain(export(real_, True, op['cls'], kw)), plain(sheets)): raise Violation('repeat', 'a second export has other sheets')
    ctx.state('theory', op['cls'], sorted(kw), [(p['name'], p['mf']) for p in sp['pops']], s.shifted[i] is not None)
    ctx.count('theoretical sheets compared with the drawn mass', len(sheets))
    ctx.log('theory', plain(sheets))


def do_exact(s, op, i, ctx):
    sp, real_ = s.sp, s.pool[i]
    for h in real_.halos:
        if h.is_subhalo:
            try: h.bound_mass
            except Exception as e:
                if 'bound mass attribute' not in str(e): raise
                return      # classes without a bound mass say so; exact sheets are not defined for them
    sheets = export(real_, True, False, dict(op['kw'], subtract_exact_sheets=True))
    check_centres(s, i, sheets, 'exact')
    held = {}
    for h in real_.halos:
        z = round(float(h.z), 6)
        held[z] = held.get(z, 0.0) + float(h.bound_mass if h.is_subhalo and abs(h.z - sp['zl']) < 1e-9 else h.mass)
    if sorted(z for z, _ in sheets) != sorted(held): raise Violation('exact-planes', 'exact sheets at %s, halos at %s' % ([z for z, _ in sheets], sorted(held)))
    for z, k in sheets:
        m = -k['kappa'] * P.sigma_crit(sp, z) * P.area_mpc2(sp, z)
        if abs(m - held[z]) > 5e-3 * abs(held[z]) + 1e-6: raise Violation('exact', 'exact sheet at z=%g removes %.6g, the realization holds %.6g there' % (z, m, held[z]))
    ctx.state('exact', sorted(op['kw']), len(held) > 0, s.shifted[i] is not None, sp['mdef_sub'])
    ctx.count('exact sheets compared with the held mass', len(sheets))
    ctx.log('exact', plain(sheets))


def do_balance(s, op, i, ctx):
    """the rendering class of the realization itself: its sheets against its own draws"""
    sp = s.sp
    j = op['pop'] % len(sp['pops'])
    p = sp['pops'][j]
    m = s.pool[i].rendering_classes
    if len(m) < len(sp['pops']): raise Violation('classes', '%d rendering classes for %d populations' % (len(m), len(sp['pops'])))
    m = m[j]
    if op['rng'] == 'class': out = m.convergence_sheet_correction(1.0, 7.0, 9.0, use_class_mass_ranges=True)
    else: out = m.convergence_sheet_correction(1.0, op['lo'], op['hi'])
    kws, names, zs = out
    if p['name'] not in ('SUBHALOS', 'LINE_OF_SIGHT'):
        if len(zs): raise Violation('planes', '%s has sheets' % p['name'])
        return
    q = dict(p, pois=True) if op['rng'] == 'class' else dict(p, mlow=op['lo'], mhigh=op['hi'], pois=True)
    M = mass(sp, q, s)
    tot = dict((round(float(z), 6), -k['kappa']) for z, k in zip(zs, kws))
    for z, e in M.items():
        v, g = kappa(sp, z, e), tot.pop(round(z, 6), 0.0)
        if abs(g - v) > TOL * abs(v) + 1e-15: raise Violation('balance', '%s (%s) at z=%g: sheet %.6g, mass drawn %.6g' % (p['name'], p['mf'], z, g, v))
    if tot: raise Violation('planes', 'sheets at %s where nothing is rendered' % sorted(tot))
    # the part of the class range above a threshold, against the part of its own draws above it
    if p['mf'] == 'cdm' and op['rng'] == 'class' and p['name'] == 'SUBHALOS' and p['amp'] > 0:
        z = sp['zl']
        a, b = P.at(p['mlow'], z), P.at(p['mhigh'], z)
        if b - a > 2:
            lam, cold, _ = measure(sp, dict(p, pois=True), s)[z]
            e = lam * float(np.sum((WT * cold)[cold >= 10 ** (a + 1)]))
            k = m.convergence_sheet_correction(1.0, a + 1, b)[0]
            g = -k[0]['kappa'] if k else 0.0
            if abs(g - kappa(sp, z, e)) > 3 * TOL * g: raise Violation('balance-part', 'sheet for [%g, %g] has %.6g, the draws in it %.6g' % (a + 1, b, g, kappa(sp, z, e)))
    ctx.state('balance', p['name'], p['mf'], op['rng'])
    ctx.count('rendering classes balanced')


def execute(scn, ctx):
    P.strangers(scn['pop'], scn.get('before', []), ctx)
    s = Sess(scn)
    sp = scn['pop']
    ctx.log('halos', len(s.pool[0].halos))
    for op in scn['ops']:
        ctx.steps += 1
        k = op['op']
        i = op['src'] % len(s.pool)
        R = s.pool[i]
        if k == 'theory': do_theory(s, op, i, ctx)
        elif k == 'exact': do_exact(s, op, i, ctx)
        elif k == 'rescale':
            # bound masses change between two exports
            if op['first']: do_exact(s, op, i, ctx)
            for h in R.halos[::op['which']]: h.rescale_normalization(op['f'], force=True)
            ctx.fault('halos rescaled between two exports')
            do_exact(s, op, i, ctx)
        elif k == 'balance': do_balance(s, op, i, ctx)
        elif k == 'query':
            m = R.rendering_classes
            m = m[op['pop'] % len(m)]
            m.convergence_sheet_correction(op['scale'], op['lo'], op['hi'])
            ctx.fault('sheet query with another mass range')
        elif k == 'none':
            if export(R, False): raise Violation('unasked', 'sheets although add_mass_sheet_correction is False')
        real(op['seed'], scn['counts'])
        if k == 'near':
            # a realization rendered on planes between those of this one is joined
            from pyHalo.single_realization import Realization
            z = [z for z in (float(h.z) + op['dz'] for h in R.halos[:op['n']]) if 0.01 < z < sp['zs'] - 0.01] or [0.3]
            n = len(z)
            o = Realization([10 ** 7.5 * (j + 1) for j in range(n)], [0.1 * j for j in range(n)], [0.2] * n, [None] * n, ['TNFW'] * n, z, [False] * n, s.lc,
                            kwargs_halo_model=R.kwargs_halo_model, mass_sheet_correction=True, rendering_classes=[], geometry=s.geo)
            s.pool.append(R.join(o)); s.shifted.append(s.shifted[i])
            do_exact(s, op, len(s.pool) - 1, ctx)
        if k == 'shift':
            if s.shifted[i] is None:
                x, y = s.ray(op['ray'])
                new = R.shift_background_to_source(x, y)
                s.pool.append(new); s.shifted.append(op['ray'])
                ctx.fault('shift before an export')
        elif k == 'filter':
            x, y = s.ray(op['ray'])
            s.pool.append(R.filter(op['ap'], op['logm'], [x], [y])); s.shifted.append(s.shifted[i])
        elif k == 'split':
            for a in R.split_at_z(op['z']):
                s.pool.append(a); s.shifted.append(s.shifted[i])
        elif k == 'join':
            s.pool.append(R.join(R)); s.shifted.append(s.shifted[i])
        elif k == 'copy':
            import copy
            s.pool.append(copy.deepcopy(R)); s.shifted.append(s.shifted[i])
        elif k == 'ext':
            if O.applicable(R, op['e']):
                out = O.apply_ext(s, R, op['e'])
                if isinstance(out, tuple): out = out[1]
                if op['e']['ext'] != 'bh':
                    s.pool.append(out); s.shifted.append(s.shifted[i])
        if k in ('filter', 'split', 'join', 'copy', 'ext', 'near'): ctx.state('derive', k, op.get('e', {}).get('ext'))
    rng.mode_real(0)


def simplify(scn):
    if scn.get('before'): yield dict(scn, before=[])
    ps = scn['pop']['pops']
    for j in range(len(ps)):
        if len(ps) > 1: yield dict(scn, pop=dict(scn['pop'], pops=ps[:j] + ps[j + 1:]))
