"""P04: the value of every derived property of a halo, read in any order, against the same property read first of all on an untouched copy.

Two random regimes: 'const' (every lazy draw takes one quantile, so lazy and batch evaluation must coincide) and 'addr' (the stream of a halo
is addressed by halo, calling function and draw number, so a value drawn in another order is the same and a value drawn twice is not)."""
import copy, pickle
import numpy as np
from sim import faults, ops as O, worlds as W, rng
from sim.core import plain, same, stable_hash, Violation, INJECTED

PLAN = {'quick': dict(runs=210, wall=150, limit=90, min=80), 'thorough': dict(runs=9000, wall=780, limit=120, min=500)}
RULE = 'distinct (halo class, property, set of properties already cached) reached'
SHRINK = ['ops', 'pre']
SIMTIME = 'none used: the property does not involve a clock'
NAMES = W.DERIVED + ['mass_3d@0.5', 'mass_3d@3.0', 'call:density_profile_3d:1.0', 'call:density_profile_3d:arr', 'call:density_profile_3d_lenstronomy:1.0', 'call:mass_2d:2.0', 'call:mass_2d:r200',
                     'call:deflection_angle:0.3', 'call:kappa:0.4', 'call:logarithmic_profile_slope:arr', 'call:log_slope_2d:arr', 'lenstronomy_params_split', 'halo_effective_age', 't_over_tc', 'sidm_timescale', 'basic']
AGES = ('halo_effective_age', 't_over_tc', 'sidm_timescale')
CLASSES = [['TNFW'], ['TNFW', 'TNFW', 'NFW'], ['TNFW', 'PT_MASS', 'ULDM', 'GNFW', 'SPL_CORE', 'PJAFFE', 'NFW', 'GAUSSIAN_KAPPA']]
PRE = ['collapse', 'collapse', 'collapse_by_mass', 'sidm_list', 'sidm_list', 'sidm_timescale', 'sidm_xsec', 'cored', 'sis', 'gc', 'bh']
BATCH = ['precompute_realization', 'precompute_concentrations', 'precompute_nfw_params', 'precompute_infall_times', 'precompute_tnfw_subhalos', 'precompute_tnfw_field_halos',
         'precompute_tnfw_bound_masses', 'precompute_sidm_evolving_profiles']


def gen_op(r, w, mode):
    k = r.choice(['read'] * 14 + ['burst'] * 3 + ['copy', 'pickle', 'halo_copy', 'export', 'export', 'discard', 'bound', 'split', 'shift'] + (['batch'] * 3 if mode == 'const' else []))
    op = dict(op=k, src=r.randint(0, 9), h=r.randint(0, 50))
    if k == 'read': op['name'] = r.choice(NAMES)
    elif k == 'burst': op['names'] = r.sample(NAMES, r.randint(3, 8))
    elif k == 'batch': op['f'] = r.choice(BATCH[:1] * 4 + BATCH)
    elif k == 'discard': op['e'] = O.gen_ext(r, w, PRE + ['pbh', 'corr'])
    elif k == 'split': op['z'] = r.choice([h['z'] for h in w['halos']])
    if mode == 'const' and k in ('read', 'burst', 'export', 'batch') and r.random() < 0.2: op.update(stop=r.choice(['error', 'interrupt', 'memory']), k=int(10 ** r.uniform(0.0, 2.3)))
    return op


def generate(r, i, tier):
    w = O.gen_world(r, 1, 6, r.choice(CLASSES))
    mode = r.choice(['const', 'addr'])
    w['csub'] = r.choice([6, 6, 0, 1, 2, 4, 5])
    w['cfield'] = r.choice([6, 6, 0, 1, 2, 3])
    if r.random() < 0.5: w['csub'] = w['cfield'] = 6
    w['tsub'] = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12] + ([7] if mode == 'addr' else []))
    w['tfield'] = r.choice([0, 0, 1, 2, 3, 4, 5])
    pre = [O.gen_ext(r, w, PRE) for _ in range(r.choice([0, 1, 1, 2]))]
    early = [[r.randint(0, 5), r.choice([0.0, 0.001, 0.02, 1.0, 4.0, 7.0, 8.0, 8.5, 8.5, 9.0, 9.0, 9.4, 10.5, 14.0])] for _ in range(r.choice([0, 0, 1, 2, 3]))]
    ops = [gen_op(r, w, mode) for _ in range(r.randint(4, 14))]
    if mode == 'const' and r.random() < 0.25:
        # a batch first of all, on subhalos of every accretion epoch
        w['tsub'] = r.choice([0, 8, 11, 12])
        early = [[j, r.choice([0.0, 0.001, 0.02, 1.0, 4.0, 7.0, 8.0, 8.5, 9.0, 9.4, 10.5, 14.0])] for j in range(6)]
        pre = pre[:1]
        ops.insert(0, dict(op='batch', src=0, h=0, f=r.choice(['precompute_realization', 'precompute_realization', 'precompute_tnfw_subhalos', 'precompute_tnfw_bound_masses'])))
    return dict(world=w, mode=mode, q=r.choice([0.5, 0.2, 0.8, 0.35]), pre=pre, early=early, ops=ops)


CUR = [None, 0]       # halo being read, copy of the halo list it belongs to


class Streams:
    """draw n of halo i made by function f is the same number on every copy; each copy counts its own draws"""
    def __init__(self, seed): self.seed, self.n, self.next = seed, {}, 1

    def __call__(self, n, site):
        a = (CUR[1], CUR[0], site)
        c = self.n.get(a, 0)
        self.n[a] = c + 1
        return np.random.Generator(np.random.PCG64(stable_hash(self.seed, CUR[0], site, c))).random(n)

    def clone(self, cid):
        new = self.next
        self.next += 1
        for a, c in list(self.n.items()):
            if a[0] == cid: self.n[(new,) + a[1:]] = c
        return new


def read(i, h, name):
    CUR[0] = i
    if name == 'basic': return W.basic(h)
    if name in AGES and not hasattr(type(h), name): return 'n/a'       # the SIDM transform labels halos it leaves alone
    try:
        return W.read(h, name)
    except KeyError:
        if name in AGES: return 'refused:KeyError'     # halos that were not given a timescale
        raise


def tol(w, cls, name):
    exact = w['csub'] == w['cfield'] == 6
    return 1e-9 if exact else 3e-2 if name.startswith('call:log') else 1e-2


def build(scn):
    w = scn['world']
    s = O.Session(w)
    real = s.pool[0]
    for i, dz in scn.get('early', []):
        h = real.halos[i % len(real.halos)] if real.halos else None
        if h is not None and h.is_subhalo: h.set_infall_redshift(h.z + dz)       # accretion epochs the models rarely draw
    for n, e in enumerate(scn['pre']):
        CUR[0] = 'pre%d' % n
        if O.applicable(real, e):
            y = O.apply_ext(s, real, e)
            y = y[1] if e['ext'] == 'collapse_by_mass' else y
            real = y.join(real) if e['ext'] == 'bh' else y
    return s, real


def scripted(scn):
    if scn['mode'] == 'const':
        rng.mode_script(rng.lazy_constant(scn['q'], scn['seed']))
    else:
        st = Streams(scn['seed'])
        rng.mode_script(st)
        return st


def check(scn, want, i, h, name, seen, ctx, what):
    got = read(i, h, name)
    ctx.count('reads')
    cls = type(h).__name__
    ctx.state(cls, name, sorted(seen.get(i, ())))
    seen.setdefault(i, set()).add(name)
    d = same(want[name][i], got, rtol=tol(scn['world'], cls, name), atol=3e-10)
    if d:
        raise Violation('order:%s' % name.split('@')[0], '%s of a %s (%s): read first %s, now (%s) %s' % (name, cls, d, want[name][i], what, got))
    return got


def batch(f, y, s, w):
    import pyHalo.Halos.batch_halo_util as B
    tn = [h for h in y.halos if type(h).__name__ == 'TNFWSubhalo']
    if f == 'precompute_realization': B.precompute_realization(y)
    elif f == 'precompute_concentrations': B.precompute_concentrations([h for h in y.halos if hasattr(h, '_concentration_class')])
    elif f == 'precompute_nfw_params': B.precompute_nfw_params([h for h in y.halos if h.mdef in ('TNFW', 'NFW', 'TNFWC')])
    elif f == 'precompute_infall_times': B.precompute_infall_times(y.halos, s.lc)
    elif f == 'precompute_tnfw_subhalos' and w['tsub'] in (0, 8, 11, 12): B.precompute_tnfw_subhalos(tn, s.model['truncation_model_subhalos'])
    elif f == 'precompute_tnfw_field_halos': B.precompute_tnfw_field_halos([h for h in y.halos if type(h).__name__ == 'TNFWFieldHalo'], s.model['truncation_model_field_halos'])
    elif f == 'precompute_tnfw_bound_masses': B.precompute_tnfw_bound_masses(tn)
    elif f == 'precompute_sidm_evolving_profiles': B.precompute_sidm_evolving_profiles([h for h in y.halos if type(h).__name__ == 'TNFWCHaloEvolving'])


def stopped(op, f, ctx):
    """what an operation is about to do is begun and stopped at an executed line"""
    if 'stop' not in op: return
    faults.arm(op['k'], op['stop'])
    try: f()
    except INJECTED: pass
    except Exception:
        if not faults.disarm()[1]: raise       # a library call may wrap the error; the call itself must do without
    finally:
        if faults.disarm()[1]: ctx.fault('%s stopped by %s' % (op['op'], op['stop']))


def execute(scn, ctx):
    w = scn['world']
    streams = scripted(scn)
    clone = streams.clone if streams else lambda c: 0
    CUR[1] = 0
    s, real = build(scn)
    n = len(real.halos)
    want = {}
    for name in NAMES:
        st, v = faults.forked(lambda: [plain(read(i, h, name)) for i, h in enumerate(real.halos)])
        if st != 'ok':
            [read(i, h, name) for i, h in enumerate(real.halos)]
            raise RuntimeError('fork: %s' % v)
        want[name] = v
    seen = {}
    # pool of (index, halo) lists: the same halos by several routes
    pool = [(real, list(range(n)), 0)]
    for op in scn['ops']:
        y, idx, cid = pool[op['src'] % len(pool)]
        CUR[1] = cid
        k = op['op']
        ctx.steps += 1
        j = op['h'] % max(1, len(idx))
        if k in ('read', 'burst') and idx: stopped(op, lambda: [read(idx[j], y.halos[j], nm) for nm in ([op['name']] if k == 'read' else op['names'])], ctx)
        if k == 'read' and idx:
            check(scn, want, idx[j], y.halos[j], op['name'], seen, ctx, 'after %s' % sorted(seen.get(idx[j], ())))
        elif k == 'burst' and idx:
            for nm in op['names']:
                check(scn, want, idx[j], y.halos[j], nm, seen, ctx, 'after %s' % sorted(seen.get(idx[j], ())))
        elif k == 'copy':
            pool.append((copy.deepcopy(y), list(idx), clone(cid)))
        elif k == 'pickle':
            try:
                q = pickle.loads(pickle.dumps(y.halos))
            except (AttributeError, TypeError, pickle.PicklingError):
                ctx.count('not picklable')
                continue
            z = copy.copy(y)
            z.halos = q
            pool.append((z, list(idx), clone(cid)))
        elif k == 'halo_copy' and idx:
            CUR[1] = clone(cid)
            check(scn, want, idx[j], copy.copy(y.halos[j]), NAMES[op['h'] % len(NAMES)], {}, ctx, 'on a copy')
        elif k == 'export':
            stopped(op, lambda: [read(i, h, 'lenstronomy_params') for i, h in zip(idx, y.halos)], ctx)
            for i, h in zip(idx, y.halos):
                check(scn, want, i, h, 'lenstronomy_params', seen, ctx, 'in an export')
        elif k == 'batch':
            CUR[0] = 'batch'
            f = op['f']
            stopped(op, lambda: batch(f, y, s, w), ctx)
            batch(f, y, s, w)
            ctx.state('batch', f, n)
            seen.setdefault('b', set()).add(f)
        elif k == 'discard' and O.applicable(y, op['e']) and scn['mode'] == 'const':
            # an extension reads what it needs from the halos; its result is thrown away
            O.apply_ext(s, y, op['e'])
        elif k == 'bound':
            if scn['mode'] == 'const':
                try: y.filter_bound_mass(1e6)
                except Exception as e:
                    if type(e) is not Exception: raise
        elif k == 'split':
            for part in y.split_at_z(op['z']):
                t = {id(h): i for i, h in zip(idx, y.halos)}
                pool.append((part, [t[id(h)] for h in part.halos], cid))
        elif k == 'shift':
            pass
    for y, idx, CUR[1] in pool:
        for i, h in zip(idx, y.halos):
            for nm in NAMES:
                v = check(scn, want, i, h, nm, seen, ctx, 'at the end')
                ctx.log(nm, v)


def simplify(scn):
    hs = scn['world']['halos']
    for i in range(len(hs)):
        if len(hs) > 1:
            yield dict(scn, world=dict(scn['world'], halos=hs[:i] + hs[i + 1:]))
    for i, o in enumerate(scn['ops']):
        if o['op'] == 'burst':
            for m in range(len(o['names'])):
                yield dict(scn, ops=scn['ops'][:i] + [dict(o, names=o['names'][:m] + o['names'][m + 1:])] + scn['ops'][i + 1:])
