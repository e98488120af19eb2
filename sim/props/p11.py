"""P11: transforms convert exactly the selected halos.  Chains of SIDM, core-collapse, cored-halo and SIS transforms on real realizations,
interleaved with reads, joins, shifts, added objects and calls stopped half way.  After every transform an independent model of the selection rule
says which halos had to be converted and to what; everything else must come through as the same object, the converted halos must describe the
halos they replace, and the source realization must be what it was."""
import copy
import numpy as np
from scipy.special import ndtri
from sim import faults, ops as O, worlds as W, rng
from sim.core import plain, same, Violation, Injected, InjectedInterrupt, InjectedMemoryError

PLAN = {'quick': dict(runs=300, wall=150, limit=90, min=80), 'thorough': dict(runs=12000, wall=780, limit=120, min=600)}
RULE = 'distinct (transform, options, operations before it, numbers of converted and untouched halos, random regime) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'
KINDS = ['collapse', 'collapse', 'collapse_by_mass', 'collapse_by_mass', 'sidm_list', 'sidm_list', 'sidm_timescale', 'sidm_timescale', 'sidm_xsec', 'sidm_xsec', 'cored', 'cored', 'sis']
BASIC = ['mass', 'x', 'y', 'z', 'is_subhalo', 'unique_tag']
PEEK = ['z_infall', 'z_eval', 'c', 'nfw_params', 'profile_args', 'bound_mass', 'vmax_nfw', 'lenstronomy_params']
PLAIN = ('TNFWSubhalo', 'TNFWFieldHalo')
CLASS = {'SPL_CORE': ('PowerLawSubhalo', 'PowerLawFieldHalo'), 'GNFW': ('GeneralNFWSubhalo', 'GeneralNFWFieldHalo'), 'TNFWC': ('TNFWCHaloParametric',) * 2,
         'CC_COMPOSITE': ('CoreCollapsedHalo',) * 2, 'CC_BH': ('CoreCollapsedHaloBH',) * 2, 'CNFW': ('CoreNFWHalo',) * 2, 'EVOLVING': ('TNFWCHaloEvolving',) * 2}
HAS_C = ('TNFWCHaloParametric', 'TNFWCHaloEvolving', 'CoreCollapsedHalo', 'CoreCollapsedHaloBH', 'CoreNFWHalo', 'MassiveGalaxy')


def gen_op(r, w):
    k = r.choice(['ext'] * 7 + ['read', 'read', 'readall', 'join', 'shift', 'filter', 'add', 'copy', 'stop', 'stop'])
    op = dict(op=k, src=r.choice([-1, r.randint(0, 9)]), other=r.randint(0, 9), h=r.randint(0, 50), name=r.choice(PEEK), logm=r.choice([5.0, 7.0, 8.0]))
    if k in ('ext', 'stop'):
        op['e'] = O.gen_ext(r, w, KINDS)
        e = op['e']
        if 'prob' in e: e['prob'] = r.choice([0.0, 0.3, 0.7, 1.0, 1.0])
        for q in ('ps', 'pf'):
            if q in e: e[q] = [r.choice([0.0, 0.3, 0.7, 1.0]) for _ in e[q]]
        if 'tc' in e: e['tc'] = 10 ** r.uniform(-0.5, 2.5) if e['ext'] == 'sidm_list' else [round(r.uniform(-0.5, 2.5), 2) for _ in e['tc']]
        if 'sig' in e: e['sig'] = r.choice([None, [0.2, 0.5], [0.0, 0.0]])
        if e['ext'] == 'cored': e['idx'] = sorted(e['idx'] + ([-1, 400] if r.random() < 0.1 else []))
        op.update(peek=r.random() < 0.5, again=r.random() < 0.4, u=r.choice([0.0, 0.1, 0.5, 0.9, rng.BELOW_ONE, None]))
    if k == 'stop': op.update(frac=r.random(), kind=r.choice(['error', 'interrupt', 'memory']))
    if k == 'shift': op['ray'] = O.gen_ray(r)
    if k == 'add': op['e'] = O.gen_ext(r, w, ['gc', 'bh', 'uldm', 'pbh'])
    return op


def generate(r, i, tier):
    w = O.gen_world(r, 1, 9, r.choice([['TNFW'], ['TNFW'], ['TNFW'], ['TNFW', 'NFW', 'PT_MASS', 'ULDM', 'GNFW']]))
    w.update(csub=r.choice([0, 1, 6]), cfield=r.choice([0, 1, 6]), tsub=r.choice([0, 0, 8, 9, 1, 2, 11]), tfield=r.choice([0, 1, 2]), scatter=r.random() < 0.7)
    if r.random() < 0.3:                    # masses at the edges of the selections
        for h in w['halos']: h['m'] = r.choice([1e6, 1e7, 1e8, 1e9, 1e10, float(np.nextafter(1e8, 0)), float(np.nextafter(1e8, 1e9))])
    ops = [gen_op(r, w) for _ in range(r.randint(2, 8))]
    if r.random() < 0.3: ops.insert(0, dict(ops[0], op='shift', src=-1, ray=O.gen_ray(r)))
    return dict(world=w, ops=ops, preset=preset(r) if r.random() < 0.1 else None)


def preset(r):
    return dict(which=r.choice(['collapse', 'collapse', 'parametric', 'fixed']), p=r.choice([[0.0, 0.0], [1.0, 1.0], [1.0, 0.0]]), pf=r.choice([[0.0, 0.0], [1.0, 1.0], [0.0, 1.0]]),
                profile=r.choice(['TNFWC', 'SPL_CORE', 'GNFW']), gc=r.random() < 0.3, xs=r.choice([-8.0, 7.0]))


# ------------------------------------------------------------------ model of the selection rules
def age(h, lam):
    """effective age of a halo: its age, or time since formation with the clock running lam times faster after infall"""
    lc = h.lens_cosmo
    if not h.is_subhalo: return float(h.halo_age)
    return float(lc.sidm_halo_effective_age(h.z, h.z_infall, lam))


def rule_sidm(h, tc, e, lam, u):
    """(class or None for untouched, t_over_tc) for a halo with core collapse time tc"""
    t = age(h, lam) / tc
    cc = e['profile'] == 'CC_COMPOSITE'
    thr = 0.15 if (e['evolving'] and not cc) else 1.0
    if abs(t / thr - 1) < 1e-9: return 'any', t
    if t < thr: return None, t
    if e['prob'] in (0.0, 1.0): pick = e['prob'] == 1.0
    elif u is None: return 'any', t
    else: pick = u < e['prob']
    if not pick: return None, t
    if cc: return ('CC_BH' if e.get('gamma') == -1.0 else 'CC_COMPOSITE'), t
    return ('EVOLVING' if e['evolving'] else 'TNFWC'), t


def rule(real, e, u, out):
    """for every halo: (expected kind or None = same object or 'any', expected t_over_tc or None)"""
    k = e['ext']
    hs = real.halos
    if k in ('collapse', 'cored'):
        idx = set(O.indices(real, e))
        return [(e['profile'], None) if i in idx else (None, None) for i in range(len(hs))]
    if k == 'sis':
        return [({'GNFW': 'MassiveGalaxy', 'SIS': 'SIS'}[e['model']], None) if h.mass >= e['thr'] else (None, None) for h in hs]
    if k == 'collapse_by_mass':
        exp = []
        for h in hs:
            res = None
            if h.mdef == 'TNFW':
                for rg, p in zip(e['rs'] if h.is_subhalo else e['rf'], e['ps'] if h.is_subhalo else e['pf']):
                    if h.mass >= 10 ** rg[0] and h.mass < 10 ** rg[1]:
                        if e['fn']: p = O._prob(h)
                        if p in (0.0, 1.0): res = e['profile'] if p else None
                        elif u is None: res = 'any'
                        else: res = e['profile'] if u < p else None
                        break
            exp.append((res, None))
        return exp
    exp = []
    for h in hs:
        if k == 'sidm_list' and e['mode'] == 'xcore': exp.append(('TNFWC', None)); continue
        if k == 'sidm_list' and e['mode'] == 'xcore_cc': exp.append(('CC_BH' if e['gamma'] == -1.0 else 'CC_COMPOSITE', None)); continue
        b = 0 if np.log10(h.mass) < 8 else 1
        e2 = e
        if k == 'sidm_list':
            lam = e['scaling']
            if e['mode'] == 'tovertc':
                e2 = dict(e, profile='TNFWC', evolving=True)
                a = float(h.halo_age)
                exp.append(rule_sidm(h, a / e['tovertc'], e2, 1.0, u))
                continue
            tc = e['tc']
        else:
            lam = 10 ** e['scaling']
            e2 = dict(e, gamma=None)
            if k == 'sidm_timescale':
                if e['sig'] is None or e['sig'][b] == 0.0: tc = 10 ** e['tc'][b]
                elif u is None: exp.append(('any', None)); continue
                else: tc = 10 ** (e['tc'][b] + e['sig'][b] * float(ndtri(min(max(u, 1e-16), rng.BELOW_ONE))))
            else:
                rhos, rs, _ = [float(x) for x in h.nfw_params]
                sg = 10 ** e['xs'][b]
                if e['fn']: tc = 1e3 / sg
                else:
                    # Essig et al. 2019: t_c = 150 / C / (sigma rho_s r_s sqrt(4 pi G rho_s)), C = 0.75
                    tc = 150 / 0.75 / (2.0889e-10 * sg * rhos * rs) / np.sqrt(4 * np.pi * 4.3009e-6 * rhos) * 0.97779
        exp.append(rule_sidm(h, tc, e2, lam, u))
        if k == 'sidm_xsec' and not e['fn'] and exp[-1][1] is not None:
            t = exp[-1][1]
            thr = 0.15 if (e['evolving'] and e['profile'] != 'CC_COMPOSITE') else 1.0
            exp[-1] = ('any', ('approx', t)) if abs(t / thr - 1) < 0.02 else (exp[-1][0], ('approx', t))
    return exp


def get(h, name): return W.read(h, name)


def refused(v): return isinstance(v, str) and v.startswith('refused')


def describe(old, new, kind, e, t, ctx, what):
    """the new halo describes the halo it replaces"""
    cls = type(new).__name__
    want = CLASS[kind][0 if old.is_subhalo else 1] if kind in CLASS else kind
    if cls != want: raise Violation('class', '%s: %s became a %s, expected %s' % (what, type(old).__name__, cls, want))
    for nm in BASIC + ([] if kind == 'CNFW' else ['r3d']):
        d = same(plain(getattr(old, nm)), plain(getattr(new, nm)))
        if d: raise Violation('carry:' + nm, '%s: %s of a converted halo (%s): %s' % (what, nm, cls, d))
    if new.lens_cosmo is not old.lens_cosmo and same(plain(new.lens_cosmo.z_lens), plain(old.lens_cosmo.z_lens)): raise Violation('carry:lens_cosmo', what)
    if old.is_subhalo:
        a, b = get(old, 'z_infall'), get(new, 'z_infall')
        if a != b: raise Violation('carry:z_infall', '%s: infall redshift %r of a %s, was %r' % (what, b, cls, a))
        a, b = get(old, 'bound_mass'), get(new, 'bound_mass')
        if not refused(a) and not refused(b) and same(a, b): raise Violation('carry:bound_mass', '%s: bound mass %r of a %s, was %r' % (what, b, cls, a))
        if not refused(a) and refused(b) and cls not in ('PowerLawSubhalo', 'GeneralNFWSubhalo'): raise Violation('carry:bound_mass', '%s: a %s has no bound mass (%s)' % (what, cls, b))
    if cls in HAS_C:
        a, b = get(old, 'c'), get(new, 'c')
        if same(a, b): raise Violation('carry:c', '%s: concentration %r of a %s, was %r' % (what, b, cls, a))
    if cls in ('PowerLawSubhalo', 'PowerLawFieldHalo', 'GeneralNFWSubhalo', 'GeneralNFWFieldHalo'):
        a, b = get(old, 'c'), float(new.profile_args[0])
        if abs(a / b - 1) > 1e-9: raise Violation('carry:c', '%s: concentration %r of a %s, was %r' % (what, b, cls, a))
    if t is not None:
        tol = 1e-6
        if isinstance(t, tuple): t, tol = t[1], 0.02
        lab = float(new.t_over_tc)
        if abs(lab / t - 1) > tol: raise Violation('t_over_tc', '%s: t/t_c = %r of a %s, expected %r' % (what, lab, cls, t))
    k, par = e['ext'], None
    L = get(new, 'lenstronomy_params')
    if refused(L): return
    L0 = L[0]
    pos = (round(float(old.x), 4), round(float(old.y), 4))
    if abs(L0['center_x'] - pos[0]) > 2e-4 or abs(L0['center_y'] - pos[1]) > 2e-4: raise Violation('carry:center', '%s: a %s at %r exported at %r' % (what, cls, pos, (L0['center_x'], L0['center_y'])))
    if cls == 'CoreNFWHalo' and abs(L0['r_core'] / L0['Rs'] / e['beta'] - 1) > 1e-3 + 1e-9 / L0['r_core']: raise Violation('profile', '%s: r_core/Rs=%r, beta=%r' % (what, L0['r_core'] / L0['Rs'], e['beta']))
    if kind == 'SPL_CORE' and L0['gamma'] != -2.3: raise Violation('profile', '%s: slope %r' % (what, L0['gamma']))
    if kind == 'GNFW' and (L0['gamma_inner'], L0['gamma_outer']) != (2.2, 3.2): raise Violation('profile', '%s: slopes %r' % (what, (L0['gamma_inner'], L0['gamma_outer'])))
    if kind in ('CC_COMPOSITE',):
        g = e.get('gamma', 2.5 if k in ('sidm_timescale', 'sidm_xsec') else 2.6)
        if L0['gamma_inner'] != g: raise Violation('profile', '%s: inner slope %r, requested %r' % (what, L0['gamma_inner'], g))
    if cls in ('TNFWCHaloParametric', 'TNFWCHaloEvolving'):
        x = e.get('x', 0.05) if k != 'cored' else e['beta']
        rt, rs = float(old.profile_args[1]), float(old.nfw_params[1])
        pa = new.profile_args
        if abs(pa[3] / rt - 1) > 1e-9: raise Violation('profile', '%s: truncation radius %r, was %r' % (what, pa[3], rt))
        if cls == 'TNFWCHaloParametric':
            # the scale radius shrinks to x_core_halo * rs (or the truncation radius), with the core just inside it
            ref = x * rs if rt >= x * rs else rt
            if abs(pa[1] / ref - 1) > 0.03 or pa[2] > pa[1]: raise Violation('profile', '%s: rs=%r core=%r for x_core_halo=%r (rs=%r rt=%r)' % (what, pa[1], pa[2], x, rs, rt))
        # the mass within r200 is conserved
        m0, m1 = get(old, 'mass_3d'), get(new, 'mass_3d')
        if not refused(m0) and not refused(m1) and m0 > 1e-2 * old.mass:
            ctx.count('masses compared')
            if abs(m1 / m0 - 1) > 0.05: raise Violation('mass', '%s: %r solar masses inside r200 of a %s, was %r' % (what, m1, cls, m0))


INHERIT = [('lens_cosmo', 'is'), ('geometry', 'is'), ('rendering_classes', 'eq'), ('apply_mass_sheet_correction', 'eq'), ('rendering_center', 'val'), ('kwargs_halo_model', 'val')]


def inherits(src, res, what, s):
    for nm, how in INHERIT:
        a, b = getattr(src, nm), getattr(res, nm)
        if how == 'is' and a is not b and type(a) is not type(b): raise Violation('inherit:' + nm, '%s: %r, was %r' % (what, b, a))
        if how == 'is' and a is not b and hasattr(a, '__dict__'):
            for q in ('z_lens', 'z_source', 'cone_opening_angle', '_zlens', '_zsource'):
                if getattr(a, q, None) != getattr(b, q, None): raise Violation('inherit:' + nm, '%s: %s %r, was %r' % (what, q, getattr(b, q, None), getattr(a, q, None)))
        if how == 'eq':
            if isinstance(a, list) or isinstance(b, list):
                if a is None or b is None or [type(x) for x in a] != [type(x) for x in b]: raise Violation('inherit:' + nm, '%s: %r, was %r' % (what, b, a))
            elif a != b: raise Violation('inherit:' + nm, '%s: %r, was %r' % (what, b, a))
        if how == 'val' and nm == 'rendering_center':
            for p, q in zip(a, b):
                if (p is None) != (q is None): raise Violation('inherit:center', '%s: rendering centre %r, was %r' % (what, b, a))
                if p is not None:
                    d = np.linspace(0.0, 0.98 * s.dmax, 7)
                    if np.max(np.abs(np.array([float(p(x)) - float(q(x)) for x in d]))) > 1e-12: raise Violation('inherit:center', what)
        if nm == 'kwargs_halo_model' and a is not b and sorted(a) != sorted(b): raise Violation('inherit:model', what)


def snapshot(real, names=()):
    return dict(ids=[id(h) for h in real.halos], basic=[[plain(getattr(h, n)) for n in BASIC + ['r3d', 'mdef']] + [type(h).__name__] for h in real.halos],
                deep=[[get(h, n) for n in names] for h in real.halos])


def unchanged(real, snap, names, what):
    now = snapshot(real, names)
    for q in ('ids', 'basic', 'deep'):
        d = None if snap[q] == now[q] else same(snap[q], now[q]) or ('objects' if q == 'ids' else None)
        if d: raise Violation('source:' + q, 'the source realization was changed by %s: %s' % (what, d))


def moved(real, shifted):
    """whether the realization counts as already moved: moving it again has no effect"""
    return shifted


def run(s, real, e):
    out = O.apply_ext(s, real, e)
    return out if e['ext'] == 'collapse_by_mass' else (None, out)


def transform(s, ctx, scn, real, shifted, op, hist):
    e = op['e']
    what = '%s(%s)' % (e['ext'], ', '.join('%s=%s' % (k, v) for k, v in sorted(e.items()) if k != 'ext'))
    names = PEEK if op['peek'] else ()
    snap = snapshot(real, names)
    args0 = copy.deepcopy({k: v for k, v in e.items()})
    u = op['u']
    if u is None: rng.mode_real(scn['seed'] + 7 * ctx.steps)
    else:
        a = rng.addressed(scn['seed'] + 7 * ctx.steps)
        rng.mode_script(lambda n, site: a(n, site) if site.startswith('Halos/') else np.full(n, u))
    st = rng.save()
    idx, res = run(s, real, e)
    if e != args0: raise Violation('arguments', '%s changed its arguments' % what)
    if op['peek'] and op['again'] and u is None:
        rng.restore(st)
        idx2, res2 = run(s, real, e)
        if idx is not None and list(idx) != list(idx2): raise Violation('repeat', '%s with the same random stream selects %s, then %s' % (what, list(idx), list(idx2)))
        a = [[type(h).__name__, W.basic(h), [get(h, n) for n in ('z_infall', 'c', 'bound_mass')]] for h in res.halos if type(h).__name__ not in ('PowerLawSubhalo', 'PowerLawFieldHalo', 'GeneralNFWSubhalo', 'GeneralNFWFieldHalo')]
        b = [[type(h).__name__, W.basic(h), [get(h, n) for n in ('z_infall', 'c', 'bound_mass')]] for h in res2.halos if type(h).__name__ not in ('PowerLawSubhalo', 'PowerLawFieldHalo', 'GeneralNFWSubhalo', 'GeneralNFWFieldHalo')]
        d = same(a, b)
        if d: raise Violation('repeat', '%s with the same random stream: %s' % (what, d))
    rng.mode_real(scn['seed'] + 11 * ctx.steps)
    if res is real: raise Violation('source:same', '%s returned the realization it was given' % what)
    if len(res.halos) != len(real.halos): raise Violation('number', '%s: %d halos, was %d' % (what, len(res.halos), len(real.halos)))
    exp = rule(real, e, u, res)
    if idx is not None:
        got = sorted(int(i) for i in idx)
        for i, (k, _) in enumerate(exp):
            if (k is None and i in got) or (k not in (None, 'any') and i not in got):
                h = real.halos[i]
                raise Violation('selection', '%s: halo of mass %r (%s) %sselected' % (what, h.mass, 'subhalo' if h.is_subhalo else 'field', 'wrongly ' if i in got else 'not '))
        if len(set(got)) != len(got) or any(i < 0 or i >= len(real.halos) for i in got): raise Violation('selection', '%s: indexes %s' % (what, got))
        exp = [(e['profile'] if i in got else None, None) for i in range(len(exp))]
    conv = 0
    for i, (old, new) in enumerate(zip(real.halos, res.halos)):
        kind, t = exp[i]
        if kind is None:
            if new is not old: raise Violation('selection', '%s: halo of mass %r (%s, %s) that was not selected became %s' % (what, old.mass, type(old).__name__, 'subhalo' if old.is_subhalo else 'field', 'a ' + type(new).__name__ if type(new) is not type(old) else 'another object'))
            if t is not None and hasattr(new, 't_over_tc'):
                tt, tol = (t[1], 0.02) if isinstance(t, tuple) else (t, 1e-6)
                if abs(float(new.t_over_tc) / tt - 1) > tol: raise Violation('t_over_tc', '%s: untouched halo has t/t_c = %r, expected %r' % (what, float(new.t_over_tc), tt))
        elif kind == 'any':
            if new is not old: conv += 1
        else:
            if new is old: raise Violation('selection', '%s: halo of mass %r (%s) was selected but not converted' % (what, old.mass, 'subhalo' if old.is_subhalo else 'field'))
            conv += 1
            describe(old, new, kind, e, t, ctx, what)
    unchanged(real, snap, names, what)
    inherits(real, res, what, s)
    W.arrays_agree(res, what)
    ctx.state(e['ext'], e.get('profile', e.get('model')), e.get('mode'), e.get('evolving'), hist, min(conv, 3), min(len(real.halos) - conv, 3), u)
    ctx.log(what, conv, [type(h).__name__ for h in res.halos])
    # converted halos are objects of their own: changing one changes no other
    new = [h for h, o in zip(res.halos, real.halos) if h is not o]
    if op['again'] and len(new) > 1 and e['ext'] != 'sis':
        import pyHalo.Halos.halo_base as hb
        before = [get(h, 'lenstronomy_params') for h in real.halos + new[1:]]
        x = copy.deepcopy(new[0])
        for key in list(getattr(new[0], '_args', {})) if isinstance(getattr(new[0], '_args', None), dict) else []:
            pass
        new[0].rescale_normalization(3.0, force=True, log=False)
        after = [get(h, 'lenstronomy_params') for h in real.halos + new[1:]]
        new[0].rescale_normalization(1 / 3.0, force=True, log=False)
        d = same(before, after)
        if d: raise Violation('shared', '%s: rescaling one converted halo changed another: %s' % (what, d))
    # halos move with the background exactly when they had not moved before
    if shifted is not None:
        r = s.ray([0.3, 0.1, -0.2, 0.2])
        y = res.shift_background_to_source(r[0], r[1])
        for a, b in zip(y.halos, res.halos):
            if a.x != b.x or a.y != b.y: raise Violation('inherit:shift', '%s: halos that had been moved to the source were moved again' % what)
    return res


def run_preset(ctx, scn):
    from pyHalo.PresetModels.sidm import SIDM_core_collapse, SIDM_parametric, SIDM_parametric_fixedbins
    p = scn['preset']
    kw = dict(sigma_sub=0.01, log_mlow=7.5, log_mhigh=10.0, cone_opening_angle_arcsec=3.0, LOS_normalization=0.3)
    if p['gc']: kw.update(add_globular_clusters=True, kwargs_globular_clusters=dict(log10_mgc_mean=5.3, log10_mgc_sigma=0.3, rendering_radius_arcsec=0.05))
    rng.mode_real(scn['seed'])
    if p['which'] == 'collapse':
        prof = {'TNFWC': dict(x_core_halo=0.05), 'SPL_CORE': dict(log_slope_halo=-2.3, x_core_halo=0.1), 'GNFW': dict(gamma_inner=2.2, gamma_outer=3.2)}[p['profile']]
        y = SIDM_core_collapse(0.5, 1.5, [[7.5, 8], [8, 10]], [[7.5, 8], [8, 10]], p['p'], p['pf'], collapsed_halo_profile=p['profile'], **kw, **prof)
    elif p['which'] == 'parametric':
        y = SIDM_parametric(0.5, 1.5, [[7.0, 8.0], [8.0, 10.5]], [p['xs'], p['xs']], **kw)
    else:
        y = SIDM_parametric_fixedbins(0.5, 1.5, p['xs'], p['xs'], **kw)
    names = {'collapse': CLASS.get(p['profile']), 'parametric': CLASS['EVOLVING'], 'fixed': CLASS['EVOLVING']}[p['which']]
    n = [0, 0]
    for h in y.halos:
        cls = type(h).__name__
        if cls in ('GlobularCluster', 'BlackHole', 'MassiveGalaxy', 'SIS'): continue
        if p['which'] == 'collapse':
            b = 0 if h.mass < 1e8 else 1
            c = (p['p'] if h.is_subhalo else p['pf'])[b] == 1.0
            if h.mass >= 1e10: c = False
        else: c = p['xs'] > 0
        if cls != (names if c else PLAIN)[0 if h.is_subhalo else 1]: raise Violation('preset', '%s: %s of mass %r is a %s (%s)' % (p['which'], 'subhalo' if h.is_subhalo else 'field halo', h.mass, cls, p))
        n[c] += 1
    W.arrays_agree(y, p['which'])
    ctx.state('preset', p['which'], p['profile'], p['gc'], p['p'], p['pf'], p['xs'])
    ctx.log('preset', n)


def execute(scn, ctx):
    w = scn['world']
    rng.mode_real(scn['seed'])
    s = O.Session(w)
    pool, sh, hist = [s.pool[0]], [None], ['new']
    for op in scn['ops']:
        ctx.steps += 1
        i = op['src'] % len(pool)
        real, n = pool[i], len(pool[i].halos)
        k = op['op']
        rng.mode_real(scn['seed'] + 13 * ctx.steps)
        if k == 'ext' and O.applicable(real, op['e']):
            pool.append(transform(s, ctx, scn, real, sh[i], op, hist[i]))
            sh.append(sh[i]); hist.append('transformed')
        elif k == 'stop' and O.applicable(real, op['e']):
            snap = snapshot(real, PEEK if op['peek'] else ())
            st = rng.save()
            cnt = faults.forked(lambda: faults.count_lines(lambda: run(s, real, op['e'])))[1]
            if not isinstance(cnt, int) or cnt < 2: continue
            rng.restore(st)
            faults.arm(1 + int(op['frac'] * (cnt - 1)), op['kind'])
            try:
                run(s, real, op['e'])
            except (Injected, InjectedInterrupt, InjectedMemoryError):
                pass
            finally:
                if faults.disarm()[1]: ctx.fault('transform stopped by ' + op['kind'])
            unchanged(real, snap, PEEK if op['peek'] else (), 'a transform that was stopped')
            pool.append(transform(s, ctx, scn, real, sh[i], op, 'stopped'))
            sh.append(sh[i]); hist.append('transformed')
        elif k == 'read' and n: get(real.halos[op['h'] % n], op['name'])
        elif k == 'readall':
            for h in real.halos:
                for nm in PEEK: get(h, nm)
        elif k == 'join':
            pool.append(real.join(pool[op['other'] % len(pool)])); sh.append(sh[i]); hist.append('joined')
        elif k == 'shift' and sh[i] is None:
            r = s.ray(op['ray'])
            pool.append(real.shift_background_to_source(*r)); sh.append(op['ray']); hist.append('moved')
        elif k == 'filter':
            r = s.ray([0.0, 0.0, 0.0, 0.0])
            pool.append(real.filter(2.0, op['logm'], [r[0]], [r[1]])); sh.append(sh[i]); hist.append('filtered')
        elif k == 'copy':
            pool.append(copy.deepcopy(real)); sh.append(sh[i]); hist.append('copied')
        elif k == 'add' and O.applicable(real, op['e']):
            y = O.apply_ext(s, real, op['e'])
            pool.append(real.join(y) if op['e']['ext'] == 'bh' else y); sh.append(sh[i]); hist.append('added')
    if scn.get('preset'): run_preset(ctx, scn)


def simplify(scn):
    if scn.get('preset'): yield dict(scn, preset=None)
    hs = scn['world']['halos']
    for i in range(len(hs)):
        if len(hs) > 1: yield dict(scn, world=dict(scn['world'], halos=hs[:i] + hs[i + 1:]))
