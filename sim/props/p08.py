"""P08: the lensing export, against the halos it describes, against earlier exports, and against a twin session that never read or
exported anything before the final export (lazy draws take a constant quantile, so the twin must agree)."""
import numpy as np
from sim import ops as O, worlds as W, rng
from sim.core import plain, same, Violation

PLAN = {'quick': dict(runs=450, wall=150, limit=90, min=100), 'thorough': dict(runs=9000, wall=780, limit=90, min=600)}
RULE = 'distinct (operation, halo class, cached state, shift status, export options) reached'
SHRINK = ['ops']
NAMES = ['c', 'nfw_params', 'params_physical', 'profile_args', 'bound_mass', 'mass_3d', 'mass_3d@0.5', 'mass_3d@2.0', 'vmax_nfw', 'z_infall']
SHEETS = [{}, dict(kappa_scale=0.5), dict(kappa_scale_subhalos=0.0), dict(log_mlow_sheets=8.0), dict(zmin=0.4), dict(zmax=0.6), dict(subtract_exact_sheets=True)]


def gen_op(r, w):
    k = r.choice(['read'] * 5 + ['export'] * 5 + ['scribble'] * 4 + ['rescale'] * 4 + ['shift'] * 3 + ['ext'] * 3 + ['filter', 'split'])
    op = dict(op=k, src=r.randint(0, 50), h=r.randint(0, 50))
    if k == 'read':
        op['name'] = r.choice(NAMES + ['lenstronomy_params', 'lenstronomy_params'])
    elif k in ('export', 'scribble'):
        op.update(add=r.random() < 0.8, cls=r.random() < 0.3, kw=r.randint(0, len(SHEETS) - 2 if any(h['mdef'] != 'TNFW' for h in w['halos']) else len(SHEETS) - 1))
    elif k == 'rescale':
        op['f'] = r.choice([0.5, 0.9, 2.0])
    elif k == 'shift':
        op.update(ray=O.gen_ray(r, 1.0))
    elif k == 'ext':
        op.update(e=O.gen_ext(r, w, ['collapse', 'collapse', 'collapse_by_mass', 'sidm_list', 'sidm_timescale', 'sidm_xsec', 'cored', 'sis', 'gc']))
    elif k == 'filter':
        op.update(logm=r.choice([6.5, 7.5]), ray=O.gen_ray(r, 0.5))
    elif k == 'split':
        op.update(z=r.choice([h['z'] for h in w['halos']]))
    return op


def generate(r, i, tier):
    mix = r.choice([['TNFW'], ['TNFW', 'TNFW', 'NFW'], ['TNFW', 'PT_MASS', 'ULDM', 'GNFW', 'SPL_CORE', 'PJAFFE', 'NFW', 'GAUSSIAN_KAPPA']])
    w = O.gen_world(r, 1, 8, mix)
    if r.random() < 0.6:
        w['csub'] = w['cfield'] = 6
    w['tsub'] = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 9])
    w['tfield'] = r.choice([0, 0, 1, 2, 3, 4, 5])
    return dict(world=w, q=r.choice([0.5, 0.2, 0.8, 0.35]), ops=[gen_op(r, w) for _ in range(r.randint(3, 10))])


def check_struct(real, out, add, what, s):
    names, zs, kw, _ = out
    if not (len(names) == len(zs) == len(kw)):
        raise Violation('lengths', '%s: %d models, %d redshifts, %d keyword dictionaries' % (what, len(names), len(zs), len(kw)))
    if len(set(map(id, kw))) != len(kw):
        raise Violation('shared-dictionaries', '%s: one dictionary appears twice in an export' % what)
    n = 0
    for h in real.halos:
        hid = list(h.lenstronomy_ID)
        got = list(names[n:n + len(hid)])
        if got != hid:
            raise Violation('order', '%s: models %s at the position of a %s (%s)' % (what, got, type(h).__name__, hid))
        for j in range(len(hid)):
            k = kw[n + j]
            if float(zs[n + j]) != float(h.z):
                raise Violation('redshift', '%s: %s at z=%s exported at z=%s' % (what, type(h).__name__, h.z, zs[n + j]))
            if 'center_x' in k and type(h).__name__ != 'GaussianHalo':
                if abs(k['center_x'] - h.x) > 6e-5 or abs(k['center_y'] - h.y) > 6e-5:
                    raise Violation('position', '%s: %s at (%r, %r) exported at (%r, %r)' % (what, type(h).__name__, h.x, h.y, k['center_x'], k['center_y']))
        if type(h).__name__ in ('TNFWSubhalo', 'TNFWFieldHalo', 'NFWFieldHalo', 'NFWSubhhalo'):
            k = kw[n]
            kpa = s.lc.cosmo.kpc_proper_per_asec(h.z)
            rs = h.nfw_params[1]
            tol = 5e-4 + 2e-4 / h.z             # distances are interpolated in redshift, separately for each use
            if abs(k['Rs'] * kpa - rs) > tol * rs + 1e-9:
                raise Violation('current-Rs', '%s: Rs exported %r kpc, halo %r kpc' % (what, k['Rs'] * kpa, rs))
            if 'r_trunc' in k:
                rt = h.params_physical['r_trunc_kpc']
                if abs(k['r_trunc'] * kpa - rt) > tol * rt + 1e-9:
                    raise Violation('current-rt', '%s: r_trunc exported %r kpc, halo %r kpc' % (what, k['r_trunc'] * kpa, rt))
                rho = h.params_physical['rhos']
                a = s.lc.nfw_physical2angle_fromNFWparams(rho * 1e9, rs * 1e-3, h.z)[1]
                if abs(k['alpha_Rs'] - a) > tol * abs(a) + 3e-10:
                    raise Violation('current-alpha', '%s: alpha_Rs exported %r, halo normalization gives %r' % (what, k['alpha_Rs'], a))
        n += len(hid)
    sheets = list(names[n:])
    if not (add and real.apply_mass_sheet_correction) and sheets:
        raise Violation('sheets', '%s: %d extra lens models without mass sheets' % (what, len(sheets)))
    if any(x != 'CONVERGENCE' for x in sheets):
        raise Violation('sheets', '%s: %s' % (what, sheets))


def export(real, op):
    kw = dict(SHEETS[op['kw']])
    if real.rendering_classes == [None]:
        kw = {k: v for k, v in kw.items() if k == 'subtract_exact_sheets'}
    kw0 = dict(kw)
    out = real.lensing_quantities(add_mass_sheet_correction=op['add'], use_class_mass_ranges=op['cls'], kwargs_mass_sheet=kw)
    if kw != kw0:
        raise Violation('argument-changed', '%s -> %s' % (kw0, kw))
    return out


def obs(out):
    return dict(names=plain(list(out[0])), z=[float(z) for z in out[1]], kw=[plain(k) for k in out[2]])


def spoil(out):
    names, zs, kw, _ = out
    for d in kw:
        for k in list(d):
            v = d[k]
            if isinstance(v, np.ndarray) and v.ndim:
                v[...] = -77.
            elif isinstance(v, list):
                v.clear()
            elif isinstance(v, dict):
                v.clear()
            d[k] = -77.
        d['junk'] = 1
    names[:] = []
    kw[:] = []
    if isinstance(zs, np.ndarray): zs[...] = -1
    else: zs[:] = []


PARTNER = {}


def run(scn, s, ctx, watch):
    """apply the state changing operations; with watch also the reads and exports, each checked"""
    for op in scn['ops']:
        p = s.pool[op['src'] % len(s.pool)]
        k = op['op']
        if watch: ctx.steps += 1
        h = p.halos[op['h'] % len(p.halos)] if p.halos else None
        if k == 'read' and watch and h is not None:
            W.read(h, op['name'])
            ctx.state('read', type(h).__name__, op['name'])
        elif k in ('export', 'scribble') and watch:
            a = export(p, op)
            check_struct(p, a, op['add'], k, s)
            oa = obs(a)
            ctx.log(k, oa)
            ctx.state(k, op['kw'], op['add'], op['cls'], len(p.halos) > 0, s.pool.index(p) > 0)
            if k == 'scribble':
                spoil(a)
                ctx.fault('caller overwrites what an export returned')
            b = export(p, op)
            d = same(oa, obs(b))
            if d:
                raise Violation('export-changes' if k == 'export' else 'export-aliased', 'second export: %s' % d)
        elif k == 'rescale' and h is not None:
            nfw = type(h).__name__ in ('TNFWSubhalo', 'TNFWFieldHalo', 'NFWFieldHalo', 'NFWSubhhalo')
            if not nfw: continue
            if any(v is h for r in s.pool for o in r.halos for v in vars(o).values()): continue        # a transformed halo reads its source when it is first used
            before = None
            if watch and op['h'] % 2:
                before = dict(a=h.lenstronomy_params[0][0]['alpha_Rs'], m=h.mass_3d(1.0))
                if type(h).__name__ == 'TNFWSubhalo': before['b'] = h.bound_mass
                if 'TNFW' in type(h).__name__: before['r'] = h.params_physical['rhos']
            h.rescale_normalization(op['f'], log=False, force=True)
            if before:
                after = dict(a=h.lenstronomy_params[0][0]['alpha_Rs'], m=h.mass_3d(1.0))
                if 'b' in before: after['b'] = h.bound_mass
                if 'r' in before: after['r'] = h.params_physical['rhos']
                for q in before:
                    if abs(after[q] - op['f'] * before[q]) > 1e-9 * abs(before[q]):
                        raise Violation('rescale:' + q, '%s: %r after rescaling %r by %s' % (type(h).__name__, after[q], before[q], op['f']))
                ctx.state('rescaled', type(h).__name__, s.pool.index(p) > 0)
        elif k == 'shift':
            y = p.shift_background_to_source(*s.ray(op['ray']))
            if y is not p: s.pool.append(y)
        elif k == 'ext' and O.applicable(p, op['e']) and len(p.halos) < 40:
            # transformed halos are new objects built from the current state of the old ones
            y = O.apply_ext(s, p, op['e'])
            s.pool.append(y[1] if op['e']['ext'] == 'collapse_by_mass' else y)
            if watch: ctx.state('ext', op['e']['ext'])
        elif k == 'filter':
            a, b = s.ray(op['ray'])
            s.pool.append(p.filter(0.5, op['logm'], [a], [b]))
        elif k == 'split':
            s.pool.extend(p.split_at_z(op['z']))


def final(s, exact):
    out = []
    for r in s.pool:
        out.append(dict(export=obs(r.lensing_quantities()), halos=[{n: W.read(h, n) for n in NAMES} for h in r.halos]))
    return out


def execute(scn, ctx):
    w = scn['world']
    exact = w['csub'] == 6
    res = []
    for watch in (True, False):
        rng.mode_script(rng.lazy_constant(scn['q'], scn['seed']))
        s = O.Session(w)
        run(scn, s, ctx, watch)
        if watch:
            for r in s.pool:
                check_struct(r, r.lensing_quantities(), True, 'final', s)
        res.append(final(s, exact))
    rng.mode_real(1)
    d = same(res[1], res[0], rtol=1e-8 if exact else 2e-2, atol=1e-12)
    if d:
        raise Violation('stale', 'session that read and exported before, against one that did not: %s' % d)
    ctx.log(res[0])
