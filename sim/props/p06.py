"""P06: selection and combination of realizations against a reference model that works on lists of halo identities."""
import math
import numpy as np
from sim import faults, ops as O, worlds as W, rng
from sim.core import plain, same, Violation, INJECTED

PLAN = {'quick': dict(runs=500, wall=150, limit=90, min=150), 'thorough': dict(runs=12000, wall=780, limit=90, min=1000)}
RULE = 'distinct (operation kind, size class of selected/parent, shift status, provenance depth) reached'
SHRINK = ['ops']


def gen_op(r, w):
    k = r.choice(['filter'] * 4 + ['filter_subhalos'] * 3 + ['bound'] * 2 + ['split'] * 2 + ['at_z'] * 2 + ['halos_at_z'] + ['join'] * 5 +
                 ['from'] * 2 + ['eq'] * 2 + ['export', 'shift', 'splitjoin', 'counts', 'read'])
    op = dict(op=k, src=r.randint(0, 50))
    zs = sorted(set(h['z'] for h in w['halos']))
    pts = [[h['x'], h['y']] for h in w['halos']]
    logm = r.choice([5.0, 6.0, 7.0, 7.5, 8.0, 9.0, 11.0, round(r.uniform(6, 10), 3)])
    if k == 'filter':
        op.update(ap=r.choice([0.0, 0.1, 0.4, 1.0, 30.0, round(r.uniform(0, 2), 3)]), logm=logm, units=r.choice(['ANGLES', 'ANGLES', 'KPC']),
                  weight=r.random() < 0.6, wmin=r.choice([0.1, 0.1, 0.5, 0.9, 0.0, 0.02]), rays=[O.gen_ray(r, 1.0) for _ in range(r.randint(1, 4))])
        if op['units'] == 'KPC':
            op['ap'] = r.choice([0.0, 1.0, 5.0, 20.0, 1e4])
        if r.random() < 0.4:      # an aperture that just includes or just excludes one halo
            op.update(tgt=r.randint(0, 30), f=r.choice([0.9, 0.99, 1.01, 1.1]), logm=r.choice([logm, 11.0]))
    elif k == 'filter_subhalos':
        op.update(ap=r.choice([0.0, 0.2, 0.5, 1.0, 30.0]), logm=logm, coords=[r.choice(pts) if r.random() < 0.5 else [r.uniform(-2, 2), r.uniform(-2, 2)] for _ in range(r.randint(1, 4))])
    elif k == 'bound':
        op.update(rank=r.choice([-1, 0, 1, 2, 5, 99]), f=r.choice([1.0, 1.0, 1.001, 0.999]))
    elif k == 'split' or k == 'splitjoin':
        op.update(z=r.choice(zs) if r.random() < 0.6 else r.uniform(0, w['zs']))
    elif k in ('at_z', 'halos_at_z', 'counts'):
        op.update(z=r.choice(zs) if r.random() < 0.85 else r.uniform(0.01, w['zs']))
        if k == 'at_z' and r.random() < 0.5:
            op.update(rng=r.choice([0.5, 1.0, 5.0]), cx=r.uniform(-1, 1), cy=r.uniform(-1, 1))
        if k == 'at_z':
            op['sheet'] = r.random() < 0.5
    elif k in ('join', 'eq'):
        op.update(other=r.randint(0, 50), jrc=r.random() < 0.3)
    elif k == 'from':
        op.update(mask=r.getrandbits(40), order=r.random() < 0.3)
    elif k == 'shift':
        op.update(ray=O.gen_ray(r))
    elif k == 'read':
        op.update(h=r.randint(0, 30), name=r.choice(W.DERIVED))
    if r.random() < 0.2: op.update(stop=r.choice(['error', 'interrupt', 'memory']), k=int(10 ** r.uniform(0.0, 2.0)))
    return op


def generate(r, i, tier):
    w = O.gen_world(r, 0 if r.random() < 0.1 else 1, 16, r.choice([['TNFW'], ['TNFW'], ['TNFW', 'PT_MASS', 'ULDM'], ['TNFW', 'NFW', 'GNFW', 'PJAFFE']]))
    if r.random() < 0.3 and w['halos']:      # negative masses appear in realizations of fluctuations
        w['neg'] = r.randint(0, len(w['halos']) - 1)
    return dict(world=w, ops=[gen_op(r, w) for _ in range(r.randint(2, 10))] if w['halos'] else [dict(op='eq', src=0, other=0), dict(op='join', src=0, other=0, jrc=False)])


def ids(hs):
    return [id(h) for h in hs]


def check_selection(what, parent, res, expected, maybe=(), ordered=False):
    """res.halos are exactly the expected halo objects (plus any of `maybe`, whose rule is an exact tie)"""
    got = ids(res.halos if hasattr(res, 'halos') else res)
    exp = ids(expected)
    opt = set(ids(maybe))
    if len(set(got)) != len(got) and len(set(exp)) == len(exp):
        raise Violation('duplicated:' + what, '%d halos, %d distinct' % (len(got), len(set(got))))
    known = set(exp) | opt
    lost = [i for i in exp if i not in set(got)]
    extra = [i for i in got if i not in known]
    if lost:
        raise Violation('lost:' + what, '%d of %d halos the rule selects are missing' % (len(lost), len(exp)))
    if extra:
        raise Violation('extra:' + what, '%d halos the rule does not select (or copies of halos) are present' % len(extra))


def center_at(real, d):
    cx, cy = real.rendering_center
    return float(cx(d)), float(cy(d))


def check_inherit(what, s, parent, res, sheet=None, rc=None):
    if res.lens_cosmo is not parent.lens_cosmo:
        raise Violation('inherit-lens_cosmo:' + what)
    if res.geometry is not parent.geometry:
        raise Violation('inherit-geometry:' + what)
    want = list(parent.rendering_classes) if rc is None else rc
    if [id(c) for c in res.rendering_classes] != [id(c) for c in want]:
        raise Violation('inherit-rendering-classes:' + what, '%s, expected %s' % (res.rendering_classes, want))
    for t in (0.0, 0.3, 0.77, 1.0):
        a, b = center_at(parent, s.dmax * t), center_at(res, s.dmax * t)
        if a != b:
            raise Violation('inherit-center:' + what, '%s expected %s' % (b, a))
    want = bool(parent.apply_mass_sheet_correction) if sheet is None else sheet
    if bool(res.apply_mass_sheet_correction) != want:
        raise Violation('inherit-mass-sheet-flag:' + what)
    W.arrays_agree(res, what)


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)


def execute(scn, ctx):
    w = scn['world']
    s = O.Session(w)
    if 'neg' in w:
        h = s.pool[0].halos[w['neg']]
        h.mass = -h.mass
        from pyHalo.single_realization import Realization
        p = s.pool[0]
        s.pool[0] = Realization.from_halos(p.halos, p.lens_cosmo, p.kwargs_halo_model, p.apply_mass_sheet_correction, p.rendering_classes, geometry=p.geometry)
    pool = s.pool
    shifted = [None]
    depth = [0]

    def add(x, sh, dp):
        pool.append(x); shifted.append(sh); depth.append(dp)
    for op in scn['ops']:
        ctx.steps += 1
        i = op['src'] % len(pool)
        p = pool[i]
        before = (ids(p.halos), W.obs_real(p, deep=False), [id(c) for c in p.rendering_classes])
        k = op['op']
        new = []

        def call(f):
            if 'stop' in op:        # the call is begun and stopped at an executed line, then made again
                faults.arm(op['k'], op['stop'])
                try: f()
                except INJECTED: pass
                finally:
                    if faults.disarm()[1]: ctx.fault('%s stopped by %s' % (k, op['stop']))
            return f()
        if 'neg' in w and k in ('export', 'read', 'bound'):
            continue                # the halo of negative mass is there for the selection rules (|mass|) only
        if k == 'filter':
            rays = [s.ray(q) for q in op['rays']]
            exp, maybe = [], []
            chis = s.lc.cosmo.D_C_z(w['zs'])

            def weight(chi):
                return min(1.0, max(op['wmin'], chi * (chis - chi) / (chis / 2) ** 2)) if op['weight'] else 1.0

            def dist(h, chi, q):
                d = math.hypot(h.x - float(q[0](chi)), h.y - float(q[1](chi)))
                return d * math.pi / 180 / 3600 * chi * 1e3 if op['units'] == 'KPC' else d
            ap = op['ap']
            if 'tgt' in op and p.halos:
                h = p.halos[op['tgt'] % len(p.halos)]
                chi = s.lc.cosmo.D_C_z(h.z)
                if weight(chi) > 0: ap = min(dist(h, chi, q) for q in rays) / weight(chi) * op['f']
            # an argument at its default value is left out of the call
            kw = {k: v for k, v, default in (('aperture_units', op['units'], 'ANGLES'), ('geometric_weighting', op['weight'], True), ('w_min', op['wmin'], 0.1)) if v != default}
            res = call(lambda: p.filter(ap, op['logm'], [a for a, b in rays], [b for a, b in rays], **kw))
            for h in p.halos:
                if abs(h.mass) >= 10 ** op['logm']:
                    exp.append(h); continue
                chi = s.lc.cosmo.D_C_z(h.z)
                cut = ap * weight(chi)
                hit, tie = False, False
                for q in rays:
                    d = dist(h, chi, q)
                    if near(d, cut): tie = True
                    elif d < cut: hit = True
                if hit: exp.append(h)
                elif tie: maybe.append(h)
            check_selection('filter', p, res, exp, maybe)
            check_inherit('filter', s, p, res)
            new = [res]
        elif k == 'filter_subhalos':
            c = op['coords']
            res = call(lambda: p.filter_subhalos(op['ap'], op['logm'], [a for a, b in c], [b for a, b in c]))
            exp, maybe = [], []
            for h in p.halos:
                d = min(math.hypot(h.x - a, h.y - b) for a, b in c)
                if not h.is_subhalo or abs(h.mass) > 10 ** op['logm'] and not near(abs(h.mass), 10 ** op['logm']): exp.append(h)
                elif near(abs(h.mass), 10 ** op['logm']) or near(d, op['ap']): maybe.append(h)
                elif d < op['ap']: exp.append(h)
            check_selection('filter_subhalos', p, res, exp, maybe)
            check_inherit('filter_subhalos', s, p, res)
            new = [res]
        elif k == 'bound':
            subs = [h for h in p.halos if h.is_subhalo]
            try:
                bm = {id(h): h.bound_mass for h in subs}
            except Exception as e:
                if type(e) is not Exception: raise
                continue            # a class without bound mass in the population: the call is refused
            vals = sorted(bm.values())
            thr = op['f'] * (vals[min(op['rank'], len(vals) - 1)] if vals and op['rank'] >= 0 else 0.0 if op['rank'] < 0 else 1.0)
            res = call(lambda: p.filter_bound_mass(thr))
            check_selection('filter_bound_mass', p, res, [h for h in p.halos if not h.is_subhalo or bm[id(h)] >= thr])
            check_inherit('filter_bound_mass', s, p, res)
            new = [res]
        elif k in ('split', 'splitjoin'):
            a, b = call(lambda: p.split_at_z(op['z']))
            lo, hi = [h for h in p.halos if h.z < op['z']], [h for h in p.halos if h.z > op['z']]
            tie = [h for h in p.halos if h.z == op['z']]
            check_selection('split-low', p, a, lo, tie)
            check_selection('split-high', p, b, hi, tie)
            if sorted(ids(a.halos) + ids(b.halos)) != sorted(ids(p.halos)):
                raise Violation('split-partition', '%d + %d halos from %d' % (len(a.halos), len(b.halos), len(p.halos)))
            check_inherit('split', s, p, a); check_inherit('split', s, p, b)
            j = call(lambda: a.join(b))
            if sorted(set(ids(j.halos))) != sorted(set(ids(p.halos))) or len(j.halos) != len(p.halos):
                raise Violation('split-join', '%d halos from %d' % (len(j.halos), len(p.halos)))
            if not (j == p and p == j):
                raise Violation('split-join-eq')
            new = [j] if k == 'splitjoin' else [a, b]
        elif k == 'at_z':
            from pyHalo.single_realization import realization_at_z
            exp = [h for h in p.halos if h.z == op['z']]
            maybe = []
            if 'rng' in op:
                d = {id(h): math.hypot(h.x - op['cx'], h.y - op['cy']) for h in exp}
                maybe = [h for h in exp if near(d[id(h)], op['rng'])]
                exp = [h for h in exp if d[id(h)] < op['rng'] and h not in maybe]
                res, idx = call(lambda: realization_at_z(p, op['z'], op['cx'], op['cy'], op['rng'], op['sheet']))
            else:
                res, idx = call(lambda: realization_at_z(p, op['z'], mass_sheet_correction=op['sheet']))
            check_selection('realization_at_z', p, res, exp, maybe)
            if [id(p.halos[j]) for j in idx] != ids(res.halos):
                raise Violation('indexes:realization_at_z', '%s' % (idx,))
            check_inherit('realization_at_z', s, p, res, sheet=op['sheet'])
            new = [res]
        elif k == 'halos_at_z':
            hs, idx = call(lambda: p.halos_at_z(op['z']))
            check_selection('halos_at_z', p, hs, [h for h in p.halos if h.z == op['z']])
            if [id(p.halos[j]) for j in idx] != ids(hs):
                raise Violation('indexes:halos_at_z', '%s' % (idx,))
        elif k == 'counts':
            z = op['z']
            c = (p.number_of_halos_before_redshift(z), p.number_of_halos_at_redshift(z), p.number_of_halos_after_redshift(z))
            e = (sum(h.z < z for h in p.halos), sum(h.z == z for h in p.halos), sum(h.z > z for h in p.halos))
            if c != e:
                raise Violation('counts', '%s expected %s' % (c, e))
            check_selection('subhalos', p, p.subhalos, [h for h in p.halos if h.is_subhalo])
            check_selection('field_halos', p, p.field_halos, [h for h in p.halos if not h.is_subhalo])
        elif k in ('join', 'eq'):
            j = op['other'] % len(pool)
            q = pool[j]
            qb = (ids(q.halos), W.obs_real(q, deep=False), [id(c) for c in q.rendering_classes])
            tp, tq = set(h.unique_tag for h in p.halos), set(h.unique_tag for h in q.halos)
            for a, b in ((p, q), (q, p)):
                if bool(a == b) != (tp == tq):
                    raise Violation('eq', '== gives %s for tag sets of size %d and %d with %d in common' % (a == b, len(tp), len(tq), len(tp & tq)))
            if k == 'join':
                res = call(lambda: p.join(q, op['jrc']))
                got = [h.unique_tag for h in res.halos]
                if sorted(got) != sorted(tp | tq):
                    raise Violation('join', '%d halos for a union of %d tags (%d + %d)' % (len(got), len(tp | tq), len(tp), len(tq)))
                members = set(ids(p.halos)) | set(ids(q.halos))
                if any(id(h) not in members for h in res.halos):
                    raise Violation('extra:join', 'a halo object of neither realization')
                check_inherit('join', s, p, res, rc=(list(p.rendering_classes) + list(q.rendering_classes)) if op['jrc'] else None)
                if shifted[i] == shifted[j]:
                    new = [res]
            d = same(plain(qb), plain((ids(q.halos), W.obs_real(q, deep=False), [id(c) for c in q.rendering_classes])))
            if d:
                raise Violation('parent-changed:' + k, d)
        elif k == 'from':
            from pyHalo.single_realization import Realization
            hs = [h for n, h in enumerate(p.halos) if op['mask'] >> (n % 40) & 1]
            if op['order']: hs = hs[::-1]
            res = call(lambda: Realization.from_halos(list(hs), p.lens_cosmo, p.kwargs_halo_model, p.apply_mass_sheet_correction, p.rendering_classes,
                                                      p.rendering_center[0], p.rendering_center[1], p.geometry))
            if ids(res.halos) != ids(hs):
                raise Violation('from_halos', 'halo list differs')
            check_inherit('from_halos', s, p, res)
            new = [res] if shifted[i] is None else []     # from_halos has no shift argument
        elif k == 'shift':
            if shifted[i] is None:
                rx, ry = s.ray(op['ray'])
                res = p.shift_background_to_source(rx, ry)
                W.arrays_agree(res, 'shift')
                pool.append(res); shifted.append(op['ray']); depth.append(depth[i] + 1)
        elif k == 'export':
            p.lensing_quantities()
        elif k == 'read':
            if p.halos:
                W.read(p.halos[op['h'] % len(p.halos)], op['name'])
        after = (ids(p.halos), W.obs_real(p, deep=False), [id(c) for c in p.rendering_classes])
        d = same(plain(before), plain(after))
        if d:
            raise Violation('parent-changed:' + k, d)
        for x in new:
            add(x, shifted[i], depth[i] + 1)
            ctx.state(k, min(len(x.halos), 4), min(len(p.halos), 4), len(x.halos) == len(p.halos), shifted[i] is not None, min(depth[i], 3))
        ctx.log(k, [len(x.halos) for x in new], [plain(x.masses) for x in new])
    # shift status: a derived realization of a shifted one is not shifted again, one of an unshifted one is
    probe = s.ray([0.7, 0.0, -0.3, 0.0])
    import copy
    for x, sh in list(zip(pool, shifted))[1:]:
        mov = [h for h in x.halos if not h.fixed_position]
        if not mov:
            continue
        pos = {h.unique_tag: (h.x, h.y) for h in mov}
        y = x.shift_background_to_source(*probe)
        c = center_at(y, 0.5 * s.dmax)
        moved = abs(c[0] - 0.7) < 1e-9 and abs(c[1] + 0.3) < 1e-9
        hm = [abs(h.x - pos[h.unique_tag][0] - 0.7) < 1e-9 and abs(h.y - pos[h.unique_tag][1] + 0.3) < 1e-9 for h in y.halos if h.unique_tag in pos]
        if sh is not None and (moved or any(hm)):
            raise Violation('shift-status', 'a realization derived from a shifted one was shifted a second time')
        if sh is None and not (moved and all(hm)):
            raise Violation('shift-status', 'a realization derived from an unshifted one refuses to shift')
