"""P09: populations rendered through pyHalo.render, the preset models and the rendering classes themselves while the simulator decides the
random draws: their extremes (buggify), chosen Poisson outcomes including zero on any plane (script), or ordinary streams with large counts,
where the positions are compared with the distribution the documentation promises."""
import numpy as np
from sim import calls, popul as P, rng, worlds as W
from sim.core import plain, same, Violation

PLAN = {'quick': dict(runs=150, wall=200, limit=120, min=80), 'thorough': dict(runs=20000, wall=800, limit=120, min=800)}
RULE = 'distinct (population, mass function, geometry, kind of draws, empty or not) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'
REL = 1e-6


def generate(r, i, tier):
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        k = r.choice(['render'] * 4 + ['preset'])
        if k == 'render':
            ops.append(dict(op='render', pop=P.gen(r), n=r.choice([1, 1, 2]), mode=r.choice(['buggify', 'buggify', 'script', 'script', 'stats']), seed=r.randint(0, 2 ** 31),
                            p=r.choice([0.1, 0.3, 0.7]), before=P.gen_strangers(r), counts=[r.choice([0, 0, 1, 2, 5, 12]) for _ in range(5)]))
        else:
            c = calls.gen_preset(r, ['CDM', 'CDM', 'WDM', 'WDMGeneral', 'WDM_mixed', 'ULDM', 'CDMBinned', 'SIDM_core_collapse', 'SIDM_parametric'])
            for key in ('add_globular_clusters', 'kwargs_globular_clusters'): c['kw'].pop(key, None)
            if c['kw'].get('flucs'): c['kw']['flucs'] = False
            ops.append(dict(op='preset', call=c, mode=r.choice(['buggify', 'script']), seed=r.randint(0, 2 ** 31), p=r.choice([0.1, 0.3]), counts=[r.choice([0, 0, 1, 2, 4]) for _ in range(5)]))
    return dict(ops=ops)


class Draws:
    """scripted generator: Poisson outcomes from a list, quantiles from a stream with extremes mixed in"""
    def __init__(self, seed, counts, extremes=True, big=None):
        self.g, self.counts, self.i, self.ex, self.big, self.pois = np.random.default_rng(seed), counts, 0, extremes, big, []

    def quant(self, n, site):
        q = self.g.random(n)
        if self.ex and n:
            m = self.g.random(n) < 0.25
            q[m] = self.g.choice([0.0, 2.0 ** -53, 0.5, 1 - 1e-9, rng.BELOW_ONE], size=int(m.sum()))
        return q

    def poisson(self, lam):
        c = self.counts[self.i % len(self.counts)] if self.big is None else self.big
        self.i += 1
        self.pois.append((lam, c))
        return c


def setup(op, big=None):
    d = Draws(op['seed'], op['counts'], big is None, big)
    if op['mode'] == 'buggify': rng.mode_buggify(op['seed'], op['p'], 6.0, 12)
    else: rng.mode_script(d.quant, d.poisson)
    return d


def bad(kind, msg): raise Violation(kind, msg)


def check_halos(sp, p, m, x, y, r3d, z, flag, where):
    """the halos one population added"""
    n = len(m)
    for nm, a in (('x', x), ('y', y), ('r3d', r3d), ('redshift', z), ('flag', flag)):
        if len(a) != n: bad('lengths', '%s: %d masses but %d entries in %s' % (where, n, len(a), nm))
    zp, _ = P.planes(sp)
    for i in range(n):
        lo, hi = P.at(p['mlow'], z[i]), P.at(p['mhigh'], z[i])
        if not (10 ** lo * (1 - REL) <= m[i] <= 10 ** hi * (1 + REL)):
            bad('mass-range', '%s: mass %.9g outside [10^%g, 10^%g] at z=%g' % (where, m[i], lo, hi, z[i]))
        if not np.isfinite([m[i], x[i], y[i], z[i]]).all(): bad('not-finite', '%s: %s' % (where, [m[i], x[i], y[i], z[i]]))
        if p['name'] == 'SUBHALOS' or p['name'] == 'TWO_HALO':
            if abs(z[i] - sp['zl']) > 1e-9: bad('plane', '%s: object at z=%g, lens at %g' % (where, z[i], sp['zl']))
        elif not any(abs(z[i] - q) < 1e-9 for q in zp): bad('plane', '%s: z=%g is not a lens plane' % (where, z[i]))
        if not 0 < z[i] < sp['zs']: bad('plane', '%s: z=%g not between observer and source %g' % (where, z[i], sp['zs']))
        rmax = sp['angle'] * p['rmax'] if p['name'] == 'SUBHALOS' else 0.5 * sp['angle'] * P.scale(sp, z[i])
        r = np.hypot(x[i], y[i])
        if r > rmax * (1 + 1e-4): bad('aperture', '%s: r=%.9g arcsec outside %.9g at z=%g (%s)' % (where, r, rmax, z[i], sp['geo']))
        if bool(flag[i]) != (p['name'] == 'SUBHALOS'): bad('flag', '%s: subhalo flag %s' % (where, flag[i]))
        if p['name'] == 'SUBHALOS' and p['spatial'] == 'N':
            if r3d[i] is None or not (0 < r3d[i] <= P.r200_kpc(sp) * (1 + 2e-3)): bad('r3d', '%s: 3-D radius %s not inside the host' % (where, r3d[i]))
        elif r3d[i] is not None: bad('r3d', '%s: 3-D radius %s where none is defined' % (where, r3d[i]))


def expected_counts(sp, pops, d, got, ctx):
    """script mode: the counts drawn, in the order of populations and planes, are the halos rendered"""
    zp, _ = P.planes(sp)
    i = 0
    for p, (m, x, y, r3d, z, flag) in zip(pops, got):
        zz = [sp['zl']] if p['name'] in ('SUBHALOS', 'TWO_HALO') else zp
        if not p['pois']: continue
        for q in zz:
            n = int(np.sum(np.abs(np.asarray(z, float) - q) < 1e-9)) if len(z) else 0
            if i < len(d) and d[i] is not None: c = d[i]
            else: return
            i += 1
            if n > c or (p['mf'] == 'cdm' and n != c): bad('count', '%s at z=%g: %d drawn, %d rendered' % (p['name'], q, c, n))


def stats(sp, p, x, y, r3d, z, b, ctx):
    """positions of many halos against the documented distribution"""
    if len(x) < 300: return
    x, y = np.asarray(x, float), np.asarray(y, float)
    n = len(x)
    if p['name'] != 'SUBHALOS' or p['spatial'] == 'U':
        rmax = np.array([sp['angle'] * p['rmax'] if p['name'] == 'SUBHALOS' else 0.5 * sp['angle'] * P.scale(sp, q) for q in z])
        u = (x ** 2 + y ** 2) / rmax ** 2
    else:
        c = p['chost']
        if c is None: return
        r200 = P.r200_kpc(sp)
        asec = P.astro(sp).kpc_proper_per_arcmin(sp['zl']).value / 60
        R, F = P.nfw_cdf(r200 / c / asec, p['rcore'] * r200 / c / asec, sp['angle'] * p['rmax'])
        u = np.interp(np.hypot(x, y), R, F)
        r = np.linspace(1e-4, 1, 2000) * r200
        g = np.cumsum(r ** 2 / ((r + p['rcore'] * r200 / c) * (r + r200 / c) ** 2))
        v = np.interp(np.asarray(r3d, float), r, g / g[-1])
        if abs(v.mean() - 0.5) > 6 * 0.2887 / n ** 0.5 + 0.01: bad('distribution', 'r3d of %d subhalos: mean rank %.4f in the host profile' % (n, v.mean()))
    if abs(u.mean() - 0.5) > 6 * 0.2887 / n ** 0.5 + 0.01: bad('distribution', '%s: mean rank of %d radii in the documented distribution is %.4f' % (p['name'], n, u.mean()))
    t = np.arctan2(y, x)
    for f in (np.cos, np.sin):
        if abs(f(t).mean()) > 6 * 0.71 / n ** 0.5: bad('distribution', '%s: %d angles not isotropic' % (p['name'], n))
    ctx.count('distributions compared')


def do_render(op, ctx):
    sp = op['pop']
    P.strangers(sp, op.get('before', []), ctx)
    b = P.build(sp)
    if op['mode'] == 'stats':
        d = setup(op, big=600 if len(sp['pops']) == 1 and sp['pops'][0]['name'] in ('SUBHALOS', 'TWO_HALO') else 60)
        got = []
        for p, m in zip(sp['pops'], P.population(b).rendering_classes):
            o = m.render()
            check_halos(sp, p, *o, where='%s (%s)' % (p['name'], p['mf']))
            stats(sp, p, o[1], o[2], o[3], o[4], b, ctx)
            ctx.state(p['name'], p['mf'], sp['geo'], 'stats', len(o[0]) > 0)
            ctx.log(p['name'], o)
        return
    d = setup(op)
    # what each rendering class returns inside render()
    reals = P.render(b, op['n'])
    if len(reals) != op['n']: bad('nrealizations', '%d realizations for nrealizations=%d' % (len(reals), op['n']))
    k = 0
    for real in reals:
        W.arrays_agree(real, 'after render')
        hs = real.halos
        if len(set(h.unique_tag for h in hs)) != len(hs) and op['mode'] == 'real': bad('tags', 'tags repeat')
        for h in hs:
            want = sp['mdef_sub'] if h.is_subhalo else sp['mdef_field']
            if not (h.mdef == want or want == 'GNFW'): bad('mdef', '%s halo has mass definition %s, asked for %s' % ('sub' if h.is_subhalo else 'field', h.mdef, want))
            if not any(_fits(sp, p, h) for p in sp['pops']):
                bad('no-population', 'halo m=%.6g z=%g r=%.6g r3d=%s sub=%s fits no population of %s' % (h.mass, h.z, np.hypot(h.x, h.y), h.r3d, h.is_subhalo, sp['pops']))
        if op['mode'] == 'script':
            # every Poisson outcome of this render, in the order drawn
            nd = sum((1 if p['name'] in ('SUBHALOS', 'TWO_HALO') else len(P.planes(sp)[0])) for p in sp['pops'] if p['pois'])
            total = sum(c for _, c in d.pois)
            if all(p['mf'] == 'cdm' and p['pois'] for p in sp['pops']) and op['n'] == 1 and len(hs) != total:
                bad('count', '%d halos drawn, %d in the realization' % (total, len(hs)))
            if op['n'] == 1 and len(hs) > total and all(p['pois'] for p in sp['pops']): bad('count', '%d halos drawn, %d in the realization' % (total, len(hs)))
        ctx.log(plain(real.masses), plain(real.x))
        for p in sp['pops']: ctx.state(p['name'], p['mf'], sp['geo'], op['mode'], len(hs) > 0)
    # the classes one by one, where each halo is known to belong to its population
    d = setup(dict(op, seed=op['seed'] + 1))
    for p, m in zip(sp['pops'], P.population(b).rendering_classes):
        n0 = len(d.pois)
        o = m.render()
        check_halos(sp, p, *o, where='%s (%s, %s)' % (p['name'], p['mf'], op['mode']))
        if op['mode'] == 'script': expected_counts(sp, [p], [c for _, c in drawn(sp, p, d.pois[n0:])], [o], ctx)
        ctx.log(p['name'], plain(list(o)))
    ctx.fault('scripted counts and extreme draws' if op['mode'] == 'script' else 'extreme draws')


def drawn(sp, p, pois):
    """one Poisson draw per plane (planes whose expected number is zero do not reach the generator)"""
    n = 1 if p['name'] in ('SUBHALOS', 'TWO_HALO') else len(P.planes(sp)[0])
    return pois if len(pois) == n else []


def _fits(sp, p, h):
    if (p['name'] == 'SUBHALOS') != bool(h.is_subhalo): return False
    try:
        check_halos(sp, p, [h.mass], [h.x], [h.y], [h.r3d], [h.z], [h.is_subhalo], '')
        return True
    except Violation:
        return False


def do_preset(op, ctx):
    c, kw = op['call'], op['call']['kw']
    d = setup(op)
    from pyHalo.realization_extensions import RealizationExtensions
    call = calls.build(dict(c))
    real = call()
    W.arrays_agree(real, 'preset ' + c['name'])
    lo, hi = kw.get('log_mlow', 6.0), kw.get('log_mhigh', 10.7 if c['name'] == 'CDMBinned' else 10.0)
    sp = dict(zl=kw['z_lens'], zs=kw['z_source'], cosmo=kw.get('kwargs_cosmo'), angle=kw['cone_opening_angle_arcsec'], geo=kw.get('geometry_type') or 'DOUBLE_CONE', spacing=kw.get('lens_plane_spacing') or 0.02)
    zp = P.planes(sp)[0]
    for h in real.halos:
        if not (10 ** lo * (1 - REL) <= h.mass <= 10 ** hi * (1 + REL)): bad('mass-range', '%s: mass %.9g outside [10^%g, 10^%g]' % (c['name'], h.mass, lo, hi))
        if not any(abs(h.z - q) < 1e-9 for q in zp) or not 0 < h.z < sp['zs']: bad('plane', '%s: z=%g is not a lens plane' % (c['name'], h.z))
        if h.is_subhalo and abs(h.z - sp['zl']) > 1e-9: bad('plane', '%s: subhalo at z=%g' % (c['name'], h.z))
        rmax = 0.5 * sp['angle'] * (1.0 if h.is_subhalo else P.scale(sp, h.z))
        if not np.hypot(h.x, h.y) <= rmax * (1 + 1e-4): bad('aperture', '%s: r=%.9g outside %.9g at z=%g (%s)' % (c['name'], np.hypot(h.x, h.y), rmax, h.z, sp['geo']))
        if h.is_subhalo != (h.r3d is not None) and kw.get('subhalo_spatial_distribution') in (None, 'PROJECTED_NFW') and kw.get('two_halo_contribution', True) and c['name'] in ('CDM', 'WDM') and h.mdef == 'TNFW':
            if kw.get('subhalo_spatial_distribution') == 'PROJECTED_NFW': bad('r3d', '%s: sub=%s r3d=%s' % (c['name'], h.is_subhalo, h.r3d))
    ctx.state('preset', c['name'], sp['geo'], op['mode'], len(real.halos) > 0)
    ctx.fault('extreme draws in a preset')
    ctx.log(c['name'], plain(real.masses))


def execute(scn, ctx):
    for op in scn['ops']:
        ctx.steps += 1
        (do_render if op['op'] == 'render' else do_preset)(op, ctx)


def simplify(scn):
    for i, o in enumerate(scn['ops']):
        if o['op'] == 'render':
            ps = o['pop']['pops']
            for j in range(len(ps)):
                if len(ps) > 1:
                    yield dict(scn, ops=scn['ops'][:i] + [dict(o, pop=dict(o['pop'], pops=ps[:j] + ps[j + 1:]))] + scn['ops'][i + 1:])
