"""P07: source alignment against a model that tracks every halo's expected position in every realization of the session."""
import numpy as np
from sim import ops as O, worlds as W, rng, faults as F
from sim.core import plain, same, Violation, INJECTED, Injected

PLAN = {'quick': dict(runs=420, wall=150, limit=90, min=100), 'thorough': dict(runs=9000, wall=780, limit=90, min=600)}
RULE = 'distinct (operation, shift status before, provenance depth, fixed/threshold/tie classes present, fault point function) reached'
SHRINK = ['ops']
ATOL = 1e-9


def gen_op(r, w):
    k = r.choice(['shift'] * 6 + ['shift_fault'] * 3 + ['ray_fails'] * 2 + ['export'] * 4 + ['read'] * 3 + ['filter'] * 3 + ['split'] * 2 + ['join'] * 3 +
                 ['at_z'] * 2 + ['ext'] * 5 + ['from'])
    op = dict(op=k, src=r.randint(0, 50))
    zs = sorted(set(h['z'] for h in w['halos']))
    if k in ('shift', 'shift_fault', 'ray_fails'):
        op.update(ray=O.gen_ray(r, r.choice([0.5, 2.0])), zmin=r.choice([0, 0, 0, r.choice(zs), r.uniform(0, w['zs'])]))
        if k == 'shift_fault':
            op.update(at=r.random(), kind=r.choice(['error', 'interrupt', 'memory']))
        if k == 'ray_fails':
            op.update(which=r.choice(['x', 'y']), how=r.choice(['range', 'raise']))
    elif k == 'read':
        op.update(h=r.randint(0, 30), name=r.choice(W.DERIVED))
    elif k == 'filter':
        op.update(ap=r.choice([0.5, 1.5, 30.0]), logm=r.choice([6.0, 7.0, 8.0, 12.0]), ray=O.gen_ray(r, 0.5))
    elif k == 'split':
        op.update(z=r.choice(zs))
    elif k == 'at_z':
        op.update(z=r.choice(zs))
    elif k == 'join':
        op.update(other=r.randint(0, 50))
    elif k == 'ext':
        op.update(e=O.gen_ext(r, w), seed=r.randint(0, 2 ** 31))
    return op


def generate(r, i, tier):
    mix = r.choice([['TNFW'], ['TNFW'], ['TNFW', 'TNFW', 'PT_MASS'], ['TNFW', 'PT_MASS', 'ULDM', 'GNFW', 'SPL_CORE', 'PJAFFE', 'NFW', 'GAUSSIAN_KAPPA']])
    w = O.gen_world(r, 1, 9, mix)
    return dict(world=w, ops=[gen_op(r, w) for _ in range(r.randint(3, 9))])


class Tracker:
    def __init__(self, s):
        self.s = s
        self.real, self.pos, self.path, self.depth = [], [], [], []

    def add(self, real, pos, path, depth):
        self.real.append(real); self.pos.append(pos); self.path.append(path); self.depth.append(depth)

    def check(self, i, what, export=True):
        r, pos, path = self.real[i], self.pos[i], self.path[i]
        if sorted(h.unique_tag for h in r.halos) != sorted(pos):
            raise Violation('halo-set:' + what, '%d halos, %d expected' % (len(r.halos), len(pos)))
        for h in r.halos:
            x, y = pos[h.unique_tag]
            if abs(h.x - x) > ATOL or abs(h.y - y) > ATOL:
                raise Violation('position:' + what, 'halo %s z=%s fixed=%s at (%r, %r), expected (%r, %r)' %
                                (type(h).__name__, h.z, h.fixed_position, h.x, h.y, x, y))
        W.arrays_agree(r, what)
        s = self.s
        for t in (0.05, 0.5, 0.93):
            cx, cy = r.rendering_center
            e = O.Session.ray_at(path, t) if path else (0.0, 0.0)
            g = float(cx(t * s.dmax)), float(cy(t * s.dmax))
            if abs(g[0] - e[0]) > 1e-8 or abs(g[1] - e[1]) > 1e-8:
                raise Violation('center:' + what, 'rendering centre %s, expected %s' % (g, e))
        if export:
            self.check_export(i, what)

    def check_export(self, i, what):
        r, pos, path = self.real[i], self.pos[i], self.path[i]
        s = self.s
        names, zs, kw, _ = r.lensing_quantities()
        n = 0
        for h in r.halos:
            x, y = pos[h.unique_tag]
            for _ in h.lenstronomy_ID:
                k = kw[n]
                n += 1
                if type(h).__name__ == 'GaussianHalo' or 'center_x' not in k:
                    continue
                if abs(k['center_x'] - x) > 6e-5 or abs(k['center_y'] - y) > 6e-5:
                    raise Violation('export-position:' + what, '%s exported at (%r, %r), the halo is at (%r, %r)' %
                                    (type(h).__name__, k['center_x'], k['center_y'], x, y))
        for k, z in zip(kw[n:], list(zs)[n:]):
            e = O.Session.ray_at(path, s.lc.cosmo.D_C_z(float(z)) / s.dmax) if path else (0.0, 0.0)
            g = k.get('ra_0', k.get('center_x')), k.get('dec_0', k.get('center_y'))
            if abs(g[0] - e[0]) > 1e-8 or abs(g[1] - e[1]) > 1e-8:
                raise Violation('sheet-position:' + what, 'mass sheet at z=%s centred on %s, the path is at %s' % (z, g, e))
        return names, zs, kw


def strip(kw):
    return [{k: plain(v) for k, v in d.items() if k not in ('center_x', 'center_y', 'ra_0', 'dec_0')} for d in kw]


class Failing:
    """a ray interpolator that cannot answer"""
    def __init__(self, f, how, dmax):
        self.f, self.how, self.dmax = f, how, dmax

    def __call__(self, d):
        if self.how == 'raise':
            raise Injected('ray')
        raise ValueError('A value in x_new is above the interpolation range.')


def execute(scn, ctx):
    s = O.Session(scn['world'])
    T = Tracker(s)
    p = s.pool[0]
    T.add(p, {h.unique_tag: (h.x, h.y) for h in p.halos}, None, 0)
    for op in scn['ops']:
        ctx.steps += 1
        i = op['src'] % len(T.real)
        p, pos, path, dp = T.real[i], T.pos[i], T.path[i], T.depth[i]
        k = op['op']
        made = None
        if k in ('shift', 'shift_fault', 'ray_fails'):
            rx, ry = s.ray(op['ray'])
            zmin = op['zmin']
            if k == 'ray_fails' and path is None:
                bad = Failing(rx, op['how'], s.dmax)
                moving = any(not h.fixed_position and h.z >= zmin for h in p.halos)
                try:
                    p.shift_background_to_source(bad if op['which'] == 'x' else rx, bad if op['which'] == 'y' else ry, zmin)
                    if moving:
                        raise Violation('ray-failure-swallowed', 'a ray that raised was ignored')
                except (Injected, ValueError):
                    ctx.fault('ray interpolator fails')
                for j in range(len(T.real)):
                    T.check(j, 'after failed ray', export=(j == i))
            if k == 'shift_fault' and path is None:
                st = rng.save()
                ok, n = F.forked(lambda: F.count_lines(lambda: p.shift_background_to_source(rx, ry, zmin)))
                if ok == 'ok' and n:
                    F.arm(1 + int(op['at'] * n), op['kind'])
                    try:
                        p.shift_background_to_source(rx, ry, zmin)
                    except INJECTED:
                        pass
                    _, fired, where = F.disarm()
                    if fired:
                        ctx.fault('exception inside shift_background_to_source (%s)' % op['kind'])
                        ctx.state('fault', where.rsplit(':', 1)[0])
                    for j in range(len(T.real)):
                        T.check(j, 'after interrupted shift', export=(j == i))
                rng.restore(st)
            known = [(h, {n: W.read(h, n) for n in ('c', 'z_infall', 'bound_mass') if op['src'] % 2}) for h in p.halos]
            before = strip(p.lensing_quantities(add_mass_sheet_correction=False)[2]) if op['src'] % 3 == 0 else None
            y = p.shift_background_to_source(rx, ry, zmin)
            if path is None:
                exp = {}
                for h in p.halos:
                    a, b = pos[h.unique_tag]
                    if not h.fixed_position and h.z >= zmin:
                        dx, dy = O.Session.ray_at(op['ray'], s.lc.cosmo.D_C_z(h.z) / s.dmax)
                        a, b = a + dx, b + dy
                    exp[h.unique_tag] = (a, b)
                npath = op['ray']
            else:
                exp, npath = dict(pos), path
            made = (y, exp, npath)
            by = {h.unique_tag: h for h in y.halos}
            for h, vals in known:
                g = by.get(h.unique_tag)
                if g is not None and vals:
                    d = same(vals, {n: W.read(g, n) for n in vals})
                    if d:
                        raise Violation('shift-changes-halo', 'after the shift %s' % d)
            if before is not None:
                d = same(before, strip(y.lensing_quantities(add_mass_sheet_correction=False)[2]))
                if d:
                    raise Violation('shift-changes-export', d)
        elif k == 'export':
            T.check_export(i, 'export')
        elif k == 'read' and p.halos:
            W.read(p.halos[op['h'] % len(p.halos)], op['name'])
        elif k == 'filter':
            a, b = s.ray(op['ray'])
            y = p.filter(op['ap'], op['logm'], [a], [b])
            made = (y, {h.unique_tag: pos[h.unique_tag] for h in y.halos}, path)
        elif k == 'split':
            a, b = p.split_at_z(op['z'])
            T.add(a, {h.unique_tag: pos[h.unique_tag] for h in a.halos}, path, dp + 1)
            made = (b, {h.unique_tag: pos[h.unique_tag] for h in b.halos}, path)
        elif k == 'at_z':
            from pyHalo.single_realization import realization_at_z
            y, _ = realization_at_z(p, op['z'])
            made = (y, {h.unique_tag: pos[h.unique_tag] for h in y.halos}, path)
        elif k == 'join':
            j = op['other'] % len(T.real)
            if T.path[j] == path and all(T.pos[j].get(t, q) == q for t, q in pos.items()):
                y = p.join(T.real[j])
                e = dict(pos); e.update(T.pos[j])
                made = (y, e, path)
        elif k == 'from' and path is None:
            from pyHalo.single_realization import Realization
            y = Realization.from_halos(list(p.halos), p.lens_cosmo, p.kwargs_halo_model, p.apply_mass_sheet_correction, p.rendering_classes,
                                       geometry=p.geometry)
            made = (y, dict(pos), path)
        elif k == 'ext' and O.applicable(p, op['e']) and len(p.halos) < 60:
            rng.mode_real(op['seed'])
            y = O.apply_ext(s, p, op['e'])
            if op['e']['ext'] == 'collapse_by_mass':
                y = y[1]
            e = {h.unique_tag: pos.get(h.unique_tag, (h.x, h.y)) for h in y.halos}
            if op['e']['ext'] != 'bh' and not set(pos) <= set(e):
                raise Violation('halo-set:' + op['e']['ext'], 'halos lost')
            made = (y, e, path)
        if made is not None:
            y, e, npath = made
            T.add(y, e, npath, dp + 1)
            T.check(len(T.real) - 1, k + (':' + op['e']['ext'] if k == 'ext' else ''))
            fixed = sum(h.fixed_position for h in y.halos)
            ctx.state(k, op['e']['ext'] if k == 'ext' else '', path is not None, min(dp, 3), bool(fixed), bool(op.get('zmin')), any(h.z == op.get('zmin') for h in y.halos))
            ctx.log(k, plain(y.x), plain(y.y))
        T.check(i, 'source of ' + k, export=k in ('shift', 'shift_fault', 'ray_fails', 'ext'))
    for j in range(len(T.real)):
        T.check(j, 'end')
    # once only: aligning anything a second time changes nothing
    probe = s.ray([0.9, 0.0, -0.6, 0.0])
    for j in range(len(T.real)):
        y = T.real[j].shift_background_to_source(*probe)
        for h in y.halos:
            x0, y0 = T.pos[j][h.unique_tag]
            m = T.path[j] is None and not h.fixed_position
            if abs(h.x - x0 - 0.9 * m) > ATOL or abs(h.y - y0 + 0.6 * m) > ATOL:
                raise Violation('shift-status', 'realization %d (shifted: %s): halo moved by (%r, %r)' % (j, T.path[j] is not None, h.x - x0, h.y - y0))
        ctx.steps += 1
    for j in range(len(T.real)):
        T.check(j, 'end, after probing', export=False)
