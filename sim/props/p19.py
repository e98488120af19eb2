"""P19: structure placed around halos.  add_correlated_structure, add_primordial_black_holes and the sampler behind them run on real realizations
(fresh, moved, filtered, transformed, extended, with fluctuations of negative convergence) while the simulator chooses the Poisson outcomes and the
draws.  An independent account of the projected mass in every aperture on every plane gives the expected numbers, the planes and the map the
positions have to follow."""
import copy
import numpy as np
from scipy.stats import norm
from sim import faults, ops as O, popul as P, worlds as W, rng
from sim.core import plain, same, Violation, Injected, InjectedInterrupt, InjectedMemoryError
from sim.props.p11 import snapshot, unchanged, inherits, PEEK
from sim.props.p12 import Draws, session, real_id

PLAN = {'quick': dict(runs=160, wall=150, limit=90, min=60), 'thorough': dict(runs=10000, wall=780, limit=120, min=500)}
RULE = 'distinct (entry point, mass function, number of images, operations before it, kind of draws, none or some rendered) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'
SCALES = ('TNFWSubhalo', 'TNFWFieldHalo', 'NFWSubhhalo', 'NFWFieldHalo', 'CoreNFWHalo')     # profiles whose normalization can be rescaled
SMOOTH = 8.5          # the sampler blurs each position by a normal of one half pixel; scripted quantiles reach 8.3 standard deviations


def gen_call(r):
    n = r.randint(1, 3)
    near = r.random() < 0.6
    return dict(kind=r.choice(['corr', 'corr', 'pbh', 'class']), frac=r.choice([0.0, 0.05, 0.3, 1.0]), logm=r.choice([4.5, 5.0, 6.0]), sig=r.choice([0.1, 0.3]), mf=r.choice(['DELTA', 'GAUSSIAN']),
                rays=[O.gen_ray(r, 0.7) for _ in range(n)], rmax=[r.choice([0.1, 0.25, 0.6]) for _ in range(n)], scalar=r.random() < 0.3, npix=r.choice([6, 20, 24, 40]),
                rescale=r.random() < 0.5, pois=r.random() < 0.8, at=r.randint(0, 30) if near else None)


def gen_op(r, w):
    k = r.choice(['around'] * 7 + ['shift', 'filter', 'transform', 'join', 'fluctuate', 'add', 'copy', 'stop', 'sampler', 'sampler'])
    op = dict(op=k, src=r.choice([-1, r.randint(0, 9)]), other=r.randint(0, 9))
    if k in ('around', 'stop'):
        op.update(e=gen_call(r), mode=r.choice(['real', 'script', 'script', 'stats', 'stats']), counts=[r.choice([0, 0, 1, 2, 5]) for _ in range(5)], peek=r.random() < 0.5)
    if k == 'stop': op.update(frac=r.random(), kind=r.choice(['error', 'interrupt', 'memory']))
    if k == 'shift': op['ray'] = O.gen_ray(r)
    if k == 'filter': op['logm'] = r.choice([5.0, 7.0, 8.0])
    if k == 'transform': op['e'] = O.gen_ext(r, w, ['collapse', 'sidm_timescale', 'cored'])
    if k == 'fluctuate': op['e'] = dict(ext='uldm', lam=0.3, amp=r.choice([0.02, 0.2]), size=0.1, var=0.02, ncut=1000, scale=r.choice([0.01, 0.1]), shape='aperture', rescale=False)
    if k == 'add': op['e'] = dict(O.gen_ext(r, w, ['gc']), rho=5.6)
    if k == 'sampler': op.update(map=r.choice(['one', 'few', 'row', 'random', 'zeros-first']), s=r.choice([2, 5, 20, 31]), r=r.choice([0.1, 1.0, 3.0]), cx=r.choice([0.0, 0.7, -2.0]), cy=r.choice([0.0, -0.3]), z=r.choice([0.2, 0.5, 1.1]), n=r.choice([0, 1, 7, 600]))
    return op


def generate(r, i, tier):
    w = O.gen_world(r, 1, 9, r.choice([['TNFW'], ['TNFW'], ['TNFW', 'NFW', 'PT_MASS', 'ULDM']]))
    w.update(geo='DOUBLE_CONE', tsub=r.choice([0, 1, 2]), tfield=0, scatter=r.random() < 0.5)
    ops = [gen_op(r, w) for _ in range(r.randint(1, 5))]
    if r.random() < 0.3: ops.insert(0, dict(op='shift', src=-1, other=0, ray=O.gen_ray(r)))
    return dict(world=w, ops=ops)


def accuracy(sp, z):
    """the critical density is interpolated in redshift, in steps of 0.02; it diverges at the source"""
    return 6e-3 + 3e-4 / z + 1.2e-4 / max((sp['zs'] - z) ** 2 - 1e-4, 1e-5)


def bad(kind, msg): raise Violation(kind, msg)


def aim(s, real, e):
    """the rays of a call; with 'at' the first passes close to one halo"""
    rays = [list(q) for q in e['rays']]
    if e['at'] is not None and real.halos:
        h = real.halos[e['at'] % len(real.halos)]
        rays[0] = [round(float(h.x) + 0.03, 4), 0.0, round(float(h.y) - 0.02, 4), 0.0]
    return rays


def radii(e): return [e['rmax'][0]] * len(e['rays']) if e['scalar'] else list(e['rmax'])


def run(s, real, e, rays):
    from pyHalo.realization_extensions import RealizationExtensions
    from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
    from pyHalo.Rendering.MassFunctions.gaussian import Gaussian
    from pyHalo.Rendering.correlated_structure import CorrelatedStructure
    rr = [s.ray(q) for q in rays]
    rx, ry = [a for a, b in rr], [b for a, b in rr]
    rm = radii(e)
    # the resolution that gives npix pixels across the first aperture
    pix = 2 * rm[0] / (e['npix'] + 0.5)
    mf = DeltaFunction if e['mf'] == 'DELTA' else Gaussian
    if e['kind'] == 'pbh':
        return RealizationExtensions(real).add_primordial_black_holes(e['frac'], e['logm'], 1.0, rx, ry, rm, pix, e['rescale'], e['mf'], e['sig'])
    kw = dict(mass_fraction=e['frac'], logM=e['logm'], draw_poisson=e['pois'], mass_function_type=e['mf'])
    if e['mf'] == 'GAUSSIAN': kw['logM_sigma'] = e['sig']
    kw0 = copy.deepcopy(kw)
    if e['kind'] == 'corr':
        out = RealizationExtensions(real).add_correlated_structure(mf, kw, 'PT_MASS', rx, ry, pix, rm[0] if e['scalar'] else rm, e['rescale'])
    else:
        c = CorrelatedStructure(mf, kw, real.geometry, real.lens_cosmo, [0.1, 0.2], [0.1, 0.1], real)
        out = [c.render(m, a, b, pix) for m, a, b in zip(rm, rx, ry)]
    if {k: kw.get(k) for k in kw0} != kw0: bad('arguments', 'the mass function arguments were changed')
    return out


class Cell:
    """one image on one plane"""


def cells(s, real, e, rays):
    """projected mass and convergence map in every aperture on every plane with halos in it"""
    from lenstronomy.LensModel.lens_model import LensModel
    out = []
    rm = radii(e)
    pix = 2 * rm[0] / (e['npix'] + 0.5)
    for i, (q, r0) in enumerate(zip(rays, rm)):
        for z in sorted(set(h.z for h in real.halos)):
            t = s.dc(z) / s.dc(s.w['zs'])
            cx, cy = O.Session.ray_at(q, t)
            near = [(np.hypot(h.x - cx, h.y - cy), k) for k, h in enumerate(real.halos) if h.z == z]
            if any(abs(d / r0 - 1) < 2e-3 for d, k in near): return None       # at the edge of an aperture: not decided here
            idx = [k for d, k in near if d < r0]
            if not idx: continue
            c = Cell()
            n = max(20, int(2 * r0 / pix))
            g = np.linspace(-r0, r0, n)
            xx, yy = np.meshgrid(g, g)
            kap = np.zeros_like(xx)
            for k in idx:
                h = real.halos[k]
                names = h.lenstronomy_ID
                kap += LensModel(list(names)).kappa((xx + cx).ravel(), (yy + cy).ravel(), [dict(a) for a in h.lenstronomy_params[0]]).reshape(xx.shape)
            inside = np.sqrt(xx ** 2 + yy ** 2) <= r0
            kap[~inside] = 0.0
            kap[np.isnan(kap)] = 0.0
            asec = s.astro.kpc_proper_per_arcmin(z).value / 60 * 1e-3
            c.i, c.z, c.cx, c.cy, c.r, c.n, c.idx = i, z, cx, cy, r0, n, idx
            c.mass = max(0.0, float(kap.sum()) * P.sigma_crit(s.sp, z) * asec ** 2 * np.pi * r0 ** 2 / inside.sum())
            c.scale = float(np.abs(kap).sum()) * P.sigma_crit(s.sp, z) * asec ** 2 * np.pi * r0 ** 2 / inside.sum()
            c.p = np.clip(kap, 0, None)
            c.x, c.y = xx, yy
            out.append(c)
    return out


def add_list(h):
    try: return [float(h.lenstronomy_params[0][0][k]) for k in ('alpha_Rs', 'theta_E', 'sigma0', 'amp') if k in h.lenstronomy_params[0][0]]
    except (AttributeError, KeyError, TypeError): return []


def around(s, ctx, scn, i, op, hist):
    real, e = s.pool[i], op['e']
    rays = aim(s, real, e)
    cs = cells(s, real, e, rays)
    if cs is None: return None
    what = '%s(%s)' % (e['kind'], ', '.join('%s=%s' % (k, v) for k, v in sorted(e.items()) if k != 'kind'))
    names = PEEK if op['peek'] else ()
    snap = snapshot(real, names)
    seed = scn['seed'] + 17 * ctx.steps
    mean = 10 ** e['logm'] * (1.0 if e['mf'] == 'DELTA' else np.exp((e['sig'] * np.log(10)) ** 2 / 2))
    want = [e['frac'] * c.mass / mean for c in cs]
    pois = e['pois'] or e['kind'] == 'pbh'
    if sum(want) > 400 and not (pois and op['mode'] == 'script'):       # keep the number of objects small: scripted counts, or the part of the mass that leaves 400
        if pois: op = dict(op, mode='script')
        else: return None
    d, mode = None, op['mode']
    if mode == 'real': rng.mode_real(seed)
    else:
        d = Draws(seed, op['counts'], mode != 'stats', (lambda lam: 500) if mode == 'stats' else None)
        rng.mode_script(d.quant, d.poisson)
    res = run(s, real, e, rays)
    rng.mode_real(seed + 1)
    unchanged(real, snap, names, what)
    # ---- objects of each plane
    if e['kind'] == 'class':
        if len(res) != len(rays): bad('lengths', what)
        objs = []
        for k, o in enumerate(res):
            m, x, y, r3d, z, flag = o[:6]
            if len(set(len(a) for a in (m, x, y, r3d, z, flag))) != 1: bad('lengths', '%s: arrays of lengths %s' % (what, [len(a) for a in (m, x, y, r3d, z, flag)]))
            if any(v is not None for v in r3d) or any(flag): bad('flags', what)
            objs += [(float(a), float(b), float(c), float(q), k) for a, b, c, q in zip(m, x, y, z)]
            ids = sorted(set(int(j) for j in o[7]))
            if ids != sorted(set(j for c in cs if c.i == k for j in c.idx)): bad('halos', '%s: halos %s in the aperture of image %d, expected %s' % (what, ids, k, sorted(set(j for c in cs if c.i == k for j in c.idx))))
    else:
        tags = [h.unique_tag for h in real.halos]
        kept = [h for h in res.halos if h.unique_tag in set(tags)]
        if [h.unique_tag for h in kept] != tags: bad('originals', '%s: original halos lost, repeated or reordered' % what)
        for a, b in zip(real.halos, kept):
            for nm in ('mass', 'x', 'y', 'z', 'r3d', 'is_subhalo', 'mdef'):
                dd = same(plain(getattr(a, nm)), plain(getattr(b, nm)))
                if dd: bad('originals', '%s: %s of an original halo: %s' % (what, nm, dd))
        new = [h for h in res.halos if h.unique_tag not in set(tags)]
        for h in new:
            if h.mdef != 'PT_MASS' or h.is_subhalo: bad('class', '%s: %s sub=%s' % (what, h.mdef, h.is_subhalo))
        objs = [(h.mass, h.x, h.y, h.z, None) for h in new]
        inherits(real, res, what, s)
        W.arrays_agree(res, what)
        # the mass moved into the new objects is taken from the halos it came from, once
        hit = set(k for c in cs for k in c.idx)
        for k, (a, b) in enumerate(zip(real.halos, kept)):
            if not (op['peek'] or k in hit): continue     # a copy taken before a property was drawn draws its own
            f = 1 - e['frac'] if e['rescale'] and k in hit else 1.0
            u, v = add_list(a), add_list(b)
            if type(a).__name__ not in SCALES: continue
            for p, q in zip(u, v):
                if abs(q - f * p) > 1e-6 * abs(p) + 3e-10: bad('rescaled', '%s: %s of mass %r (%s an aperture): lensing amplitude %r, was %r, expected factor %r' % (what, type(a).__name__, a.mass, 'in' if k in hit else 'outside', q, p, f))
    zz = set(c.z for c in cs)
    for m, x, y, z, k in objs:
        if z not in zz: bad('plane', '%s: object at z=%r, where no halo is in an aperture' % (what, z))
        if e['mf'] == 'DELTA' and abs(m / 10 ** e['logm'] - 1) > 1e-9: bad('mass', '%s: mass %r' % (what, m))
        ok = any(np.hypot(x - c.cx, y - c.cy) <= c.r * (1 + (SMOOTH if mode == 'script' else 6.0) * 1.5 / c.n) + 2e-3 for c in cs if c.z == z and (k is None or k == c.i))
        if not ok: bad('aperture', '%s: object at z=%r, (%r, %r) in no aperture' % (what, z, x, y))
    # ---- numbers
    count = {}
    for c, w in zip(cs, want):
        if not pois: count[id(c)] = (int(np.round(w)) if abs(w % 1 - 0.5) > 0.02 + accuracy(s.sp, c.z) * w else None)
    if d is not None and pois:
        left = [l for l in d.pois]
        for c, w in sorted(zip(cs, want), key=lambda p: (accuracy(s.sp, p[0].z) * p[0].scale, p[1])):         # the best known first
            tol = accuracy(s.sp, c.z) * e['frac'] * c.scale / mean
            if w <= 2 * tol:                    # nothing to render
                got = [l for l in left if l[0] <= 4 * tol]
                count[id(c)] = got[0][1] if got else 0
                if got: left.remove(got[0])
                continue
            got = [l for l in left if abs(l[0] - w) <= tol]
            if not got: bad('expected-number', '%s: plane z=%r, image %d: projected mass %.6g calls for %.6g objects, drew with %s' % (what, c.z, c.i, c.mass, w, ['%.6g' % l[0] for l in left]))
            best = min(got, key=lambda l: abs(l[0] - w))
            same_lam = len([l for l in got if abs(l[0] / best[0] - 1) < 5e-3]) > 1
            count[id(c)] = None if same_lam and len(set(l[1] for l in got)) > 1 else best[1]
            left.remove(best)
        if left: bad('expected-number', '%s: drew with %s where no halo is in an aperture' % (what, left))
        if len(objs) != sum(c for _, c in d.pois): bad('number', '%s: %d objects, drew %s' % (what, len(objs), d.pois))
    if d is not None or not pois:
        for z in zz:
            n = [count[id(c)] for c in cs if c.z == z]
            if None not in n and sum(n) != len([o for o in objs if o[3] == z]): bad('number', '%s: %d objects at z=%r, expected %s' % (what, len([o for o in objs if o[3] == z]), z, n))
    # ---- positions follow the convergence
    if mode == 'stats':
        for c in cs:
            o = [q for q in objs if q[3] == c.z and (q[4] is None or q[4] == c.i)]
            if len(o) < 200 or (e['kind'] != 'class' and len([k for k in cs if k.z == c.z]) > 1): continue
            x, y = np.array([q[1] for q in o]) - c.cx, np.array([q[2] for q in o]) - c.cy
            p = c.p / c.p.sum()
            sg = c.r / c.n
            for nm, f, extra in (('x', lambda a, b: a / c.r, 0), ('y', lambda a, b: b / c.r, 0), ('x^2', lambda a, b: (a / c.r) ** 2, (sg / c.r) ** 2), ('xy', lambda a, b: a * b / c.r ** 2, 0), ('y^2', lambda a, b: (b / c.r) ** 2, (sg / c.r) ** 2)):
                t = f(c.x, c.y)
                mu = float((p * t).sum()) + extra
                sd = max(float((p * t ** 2).sum()) - float((p * t).sum()) ** 2, 0.0) ** 0.5 + 3.0 / c.n
                if abs(f(x, y).mean() - mu) > 6 * sd / len(o) ** 0.5 + 2e-3: bad('distribution', '%s: plane z=%r: mean %s of %d objects is %.4f of the radius, %.4f in the convergence map' % (what, c.z, nm, len(o), f(x, y).mean(), mu))
            ctx.count('maps compared')
        if e['mf'] == 'GAUSSIAN' and len(objs) >= 200:
            v = norm.cdf((np.log10([q[0] for q in objs]) - e['logm']) / e['sig'])
            if abs(v.mean() - 0.5) > 6 * 0.2887 / len(objs) ** 0.5: bad('distribution', '%s: masses, mean rank %.4f' % (what, v.mean()))
    ctx.state(e['kind'], e['mf'], len(rays), e['rescale'], hist, mode, min(len(objs), 2), min(len(cs), 3), any(c.scale > c.mass * 1.001 for c in cs))
    ctx.fault('scripted counts and draws' if d is not None else 'ordinary draws')
    ctx.count('apertures with halos', len(cs))
    ctx.log(what, len(objs), [round(c.mass) for c in cs])
    return res if e['kind'] != 'class' else None


def sampler(s, ctx, scn, op):
    """the two-dimensional sampler on maps of every shape"""
    from pyHalo.Rendering.SpatialDistributions.correlated import Correlated2D
    g = np.random.default_rng(scn['seed'] + ctx.steps)
    n, r0 = op['s'], op['r']
    m = np.zeros((n, n))
    if op['map'] == 'one': m[g.integers(n), g.integers(n)] = 3.0
    elif op['map'] == 'few':
        for _ in range(3): m[g.integers(n), g.integers(n)] = g.random() + 0.1
    elif op['map'] == 'row': m[g.integers(n), :] = 1.0
    elif op['map'] == 'random': m = g.random((n, n)) ** 3
    else: m[n // 2:, n // 2:] = 1.0
    m0 = m.copy()
    d = Draws(scn['seed'] + ctx.steps, [0], op['n'] < 100)
    rng.mode_script(lambda k, site: q_any(d, k), d.poisson)
    x, y = Correlated2D(s.geo).draw(op['n'], r0, m, op['z'], op['cx'], op['cy'])
    rng.mode_real(scn['seed'])
    if not np.array_equal(m, m0): bad('arguments', 'the map was changed by drawing from it')
    if len(x) != op['n'] or len(y) != op['n']: bad('lengths', 'sampler: %d and %d positions of %d' % (len(x), len(y), op['n']))
    asec = s.astro.kpc_proper_per_arcmin(op['z']).value / 60
    x, y = np.asarray(x) / asec - op['cx'], np.asarray(y) / asec - op['cy']
    c = np.linspace(-r0, r0, n)
    iy, ix = np.where(m > 0)
    tol = SMOOTH * r0 / n + 2e-3 * (r0 + abs(op['cx']) + abs(op['cy']))
    for a, b in zip(x, y):
        if not (np.maximum(np.abs(c[ix] - a), np.abs(c[iy] - b)) <= tol).any(): bad('distribution', 'sampler: (%r, %r) is not near any pixel with probability > 0 of a %s map of %d^2 pixels, radius %r' % (a, b, op['map'], n, r0))
    if op['n'] >= 600:
        xx, yy = np.meshgrid(c, c)
        p = m / m.sum()
        for nm, t, v in (('x', xx / r0, x / r0), ('y', yy / r0, y / r0)):
            mu = float((p * t).sum())
            sd = (max(float((p * t ** 2).sum()) - mu ** 2, 0) + 1.0 / n ** 2) ** 0.5
            if abs(v.mean() - mu) > 6 * sd / op['n'] ** 0.5 + 3e-3 * (1 + abs(op['cx'] / r0) + abs(op['cy'] / r0)): bad('distribution', 'sampler: mean %s %.4f, map %.4f (%s, %d^2)' % (nm, v.mean(), mu, op['map'], n))
    ctx.state('sampler', op['map'], n, op['n'])
    ctx.log('sampler', x[:5], y[:5])


def q_any(d, n):
    q = d.g.random(n)
    if d.ex and n:
        m = d.g.random(n) < 0.3
        q[m] = d.g.choice([0.0, 2.0 ** -53, 0.5, 1 - 1e-9, rng.BELOW_ONE], size=int(m.sum()))
    return q


def execute(scn, ctx):
    rng.mode_real(scn['seed'])
    s = session(scn['world'])
    hist = ['new']

    def put(y, i, label):
        s.pool.append(y); s.shifted.append(s.shifted[i]); s.center.append(s.center[i]); hist.append(label)
    for op in scn['ops']:
        ctx.steps += 1
        i = op['src'] % len(s.pool)
        real = s.pool[i]
        k = op['op']
        rng.mode_real(scn['seed'] + 13 * ctx.steps)
        if k == 'around':
            y = around(s, ctx, scn, i, op, hist[i])
            if y is not None and op['mode'] != 'stats': put(y, i, 'extended')
        elif k == 'stop':
            names = PEEK if op['peek'] else ()
            snap = snapshot(real, names)
            rays = aim(s, real, op['e'])
            d = Draws(scn['seed'] + ctx.steps, op['counts'], True)
            rng.mode_script(d.quant, lambda lam: op['counts'][0])
            if not op['e']['pois'] and op['e']['frac']: continue        # the number cannot be scripted
            st = rng.save()
            cnt = faults.forked(lambda: faults.count_lines(lambda: run(s, real, op['e'], rays)))[1]
            if not isinstance(cnt, int) or cnt < 2: continue
            rng.restore(st)
            faults.arm(1 + int(op['frac'] * (cnt - 1)), op['kind'])
            try: run(s, real, op['e'], rays)
            except (Injected, InjectedInterrupt, InjectedMemoryError): pass
            finally:
                if faults.disarm()[1]: ctx.fault('call stopped by ' + op['kind'])
            unchanged(real, snap, names, 'a call that was stopped')
            around(s, ctx, scn, i, op, 'stopped')
        elif k == 'shift' and s.shifted[i] is None:
            put(real.shift_background_to_source(*s.ray(op['ray'])), i, 'moved'); s.shifted[-1] = op['ray']
        elif k == 'filter':
            r = s.ray([0.0, 0.0, 0.0, 0.0])
            put(real.filter(2.0, op['logm'], [r[0]], [r[1]]), i, 'filtered')
        elif k == 'transform' and O.applicable(real, op['e']): put(O.apply_ext(s, real, op['e']), i, 'transformed')
        elif k in ('fluctuate', 'add'): put(O.apply_ext(s, real, op['e']), i, 'fluctuating' if k == 'fluctuate' else 'extended')
        elif k == 'join': put(real.join(s.pool[op['other'] % len(s.pool)]), i, 'joined')
        elif k == 'copy': put(copy.deepcopy(real), i, 'copied')
        elif k == 'sampler': sampler(s, ctx, scn, op)


def simplify(scn):
    hs = scn['world']['halos']
    for i in range(len(hs)):
        if len(hs) > 1: yield dict(scn, world=dict(scn['world'], halos=hs[:i] + hs[i + 1:]))
