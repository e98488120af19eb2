"""P13: a call stopped at the k-th executed pyHalo line (error, Ctrl-C, out of memory) or by a failing user callback, possibly several times;
afterwards every object that existed answers as if the call had never started, and repeating the call gives the undisturbed result.

Random properties that existing halos have not drawn yet come from a constant quantile here, so that an answer cannot depend on when it
is drawn."""
import numpy as np
from sim import calls, faults, rng, ops as O, worlds as W
from sim.core import plain, same, Violation, INJECTED, Injected, InjectedInterrupt

PLAN = {'quick': dict(runs=110, wall=200, limit=120, min=60), 'thorough': dict(runs=9000, wall=800, limit=120, min=500)}
RULE = 'distinct (call, fault kind, function in which the fault surfaced) triples'
SHRINK = ['ops', 'warm']
SIMTIME = 'none used: the property does not involve a clock'
KINDS = ['error', 'interrupt', 'memory']
SELF = ['shift', 'filter', 'lensing', 'exact', 'bound', 'join', 'read', 'conc', 'massfn', 'dist', 'precompute', 'render', 'infall', 'geo', 'ray', 'at_z', 'rescale_off', 'setup', 'setup', 'bad', 'bad', 'bad']


def generate(r, i, tier):
    w = O.gen_world(r, 2, 7)
    w['tsub'] = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 8])
    w['csub'] = r.choice([6, 6, 0, 1])
    w['cfield'] = r.choice([6, 6, 0, 1, 2, 4])
    if w['csub'] == 6 and r.random() < 0.7: w['cfield'] = 6
    k = r.random()
    if k < 0.5:
        target = dict(c='self', q=r.choice(SELF), a=r.randint(0, 30), ray=O.gen_ray(r, 0.6), z=round(r.uniform(0.15, 1.1), 3), lm=round(r.uniform(4.0, 11.9), 2), name=r.choice(W.DERIVED))
    elif k < 0.85:
        target = dict(c='ext', e=O.gen_ext(r, w))
    else:
        target = calls.gen_call(r, ('preset', 'helper', 'render'))
    ops = []
    for _ in range(r.choice([1, 2, 3, 4])):
        ops.append(dict(kind=r.choice(KINDS), f=r.random()) if r.random() < 0.85 else dict(kind='callback', n=r.randint(1, 6)))
    return dict(world=w, target=target, ops=ops, warm=[dict(h=r.randint(0, 20), name=r.choice(W.DERIVED)) for _ in range(r.choice([0, 0, 2, 6]))], q=r.choice([0.5, 0.3, 0.7]))


class Callback:
    """user-supplied functions that fail at a chosen call"""
    n = None

    @classmethod
    def tick(cls):
        if cls.n is not None:
            cls.n -= 1
            if cls.n <= 0:
                cls.n = None
                raise Injected('user callback fails')


class Ray:
    def __init__(self, f): self.f = f

    def __call__(self, *a):
        Callback.tick()
        return self.f(*a)


class S(O.Session):
    def ray(self, spec):
        a, b = O.Session.ray(self, spec)
        return Ray(a), Ray(b)


def target_call(scn, s):
    """(function that makes the call, function that observes what it returned)"""
    t, real = scn['target'], s.pool[0]
    if t['c'] == 'ext':
        if not O.applicable(real, t['e']): return lambda: None
        return lambda: calls.observe(O.apply_ext(s, real, t['e']))
    if t['c'] != 'self':
        return lambda: calls.observe(calls.build(t)())
    q, a = t['q'], t['a']
    h = real.halos[a % len(real.halos)]
    c = s.lc.cosmo
    m = 10 ** t['lm']
    if q == 'shift': return lambda: calls.observe(real.shift_background_to_source(*s.ray(t['ray'])))
    if q == 'filter': return lambda: calls.observe(real.filter(0.6, 7.0, *[[x] for x in s.ray(t['ray'])]))
    if q == 'lensing': return lambda: calls.observe(real)
    if q == 'exact': return lambda: calls.observe(list(real.lensing_quantities(kwargs_mass_sheet=dict(subtract_exact_sheets=True))[:3]))
    if q == 'bound': return lambda: calls.observe(real.filter_bound_mass(1e7))
    if q == 'join':
        return lambda: calls.observe(real.split_at_z(t['z'])[0].join(real))
    if q == 'read': return lambda: [W.read(h, n) for n in (t['name'], 'lenstronomy_params')]
    if q == 'conc':
        k = 'concentration_model_subhalos' if a % 2 else 'concentration_model_field_halos'
        return lambda: plain(s.model[k].nfw_concentration(m, t['z'] * 3))
    if q == 'massfn':
        from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen
        kw = dict(log_mlow=7., log_mhigh=10., LOS_normalization=0.3, m_pivot=1e8, delta_power_law_index=0.0, draw_poisson=True)
        return lambda: plain(ShethTormen.from_redshift(t['z'], 0.05, s.geo, kw).draw())
    if q == 'dist': return lambda: plain([c.D_C_z(t['z']), c.D_A(t['z'], 1.4), c.halo_age(t['z']), c.kpc_proper_per_asec(t['z'])])
    if q == 'precompute':
        from pyHalo.Halos.batch_halo_util import precompute_realization
        return lambda: [precompute_realization(real), [W.read(x, 'c') for x in real.halos]][1]
    if q == 'render' and s.rc is not None: return lambda: plain(list(s.rc[a % 2].render()))
    if q == 'infall': return lambda: plain([s.lc.setup_infall_model('DIRECT_INFALL', {'log_m_host': 13.1}) if a % 7 == 99 else None, s.lc.z_accreted_from_zlens(1e8)])
    if q == 'setup': return lambda: [s.lc.setup_infall_model('HYBRID_INFALL', {'log_m_host': 13.1}), plain([s.lc.z_accreted_from_zlens(x) for x in (1e7, 1e9)])][1]
    if q == 'bad': return refused(s, real, t)
    if q == 'geo':
        from pyHalo.Cosmology.geometry import Geometry
        return lambda: plain([s.geo.volume_element_comoving(t['z'], 0.02), Geometry(c, s.w['zl'], s.w['zs'], 5.0, 'CONE').volume_MPC3])
    if q == 'ray': return lambda: calls.observe(real.filter(0.6, 6.5, *[[x, y] for x, y in zip(s.ray(t['ray']), s.ray(t['ray'][::-1]))]))
    if q == 'at_z': return lambda: [len(real.halos_at_z(s.w['zl'])[0]), plain(real.mass_at_z_exact(s.w['zl'])), calls.observe(W.at_z(real, s.w['zl']), False)]
    return lambda: calls.observe(real, False)


def refused(s, real, t):
    """a call that fails by itself, because of what it was given"""
    from pyHalo.concentration_models import preset_concentration_models
    from pyHalo.single_realization import Realization
    from pyHalo.realization_extensions import RealizationExtensions as X
    x, y = s.ray(t['ray'])

    def short(d):
        if d > 0.4 * s.dmax: raise ValueError('outside the interpolation range')
        return x(d)

    class Model:
        def __init__(self, z_lens, log_m_host): raise ValueError('user model fails')
    f = [lambda: s.lc.setup_infall_model('DIRECT_INFALL_CLUSTER', {'log_m_host': 13.0}),
         lambda: s.lc.setup_infall_model('DIRECT_INFAL', {'log_m_host': 13.0}),
         lambda: s.lc.setup_infall_model(Model, {'log_m_host': 13.0}),
         lambda: s.lc.setup_infall_model('HYBRID_INFALL', {'log_m_host': 'large'}),
         lambda: real.filter(0.6, 7.0, [x], [y], aperture_units='ARCSEC'),
         lambda: real.filter(0.6, 7.0, [short], [y]),
         lambda: real.filter(0.6, 7.0, [x], None),
         lambda: real.shift_background_to_source(short, y),
         lambda: real.lensing_quantities(kwargs_mass_sheet=dict(kappa=0.5)),
         lambda: real.lensing_quantities(kwargs_mass_sheet=dict(zmin='low')),
         lambda: Realization.from_halos(list(real.halos) + [None], s.lc, s.model, False, None),
         lambda: Realization([1e8], [0.1], [0.1], [None], ['TNFVV'], [0.5], [False], s.lc, kwargs_halo_model=s.model),
         lambda: X(real).toSIDM_from_cross_section([[12.0, 12.1]], [1.0], 0.0),
         lambda: X(real).add_core_collapsed_halos(list(range(len(real.halos))), halo_profile='NOTHING'),
         lambda: X(real).add_ULDM_fluctuations(1e-6, -22, {'x': [0]}, 'square', 10),
         lambda: X(real).core_collapse_by_mass([[6, 12]], [[6, 12], [12, 13]], [1.0], [1.0]),
         lambda: X(real).add_globular_clusters(5.0, 0.5, 0.2, gc_density_profile='JAFFE', center_x=[0.1], center_y=[0.1, 0.2]),
         lambda: preset_concentration_models('NOTHING', {}),
         lambda: s.geo.__class__(s.lc.cosmo, s.w['zl'], s.w['zs'], 4.0, 'SPHERE'),
         lambda: s.lc.cosmo.D_C_z('far'),
         lambda: s.lc.cosmo.halo_age(None),
         lambda: real.halos[t['a'] % len(real.halos)].__class__(1e8),
         lambda: s.model['concentration_model_subhalos'].nfw_concentration('heavy', 0.5)][t['a'] * 7 % 23]

    def call():
        try:
            return ['returned', type(f()).__name__]
        except INJECTED: raise
        except Exception as e: return ['refused', type(e).__name__]
    return call


def obs_all(s):
    out = dict(real=W.obs_real(s.pool[0], deep=True), export=calls.observe(s.pool[0])['export'])
    c = s.lc.cosmo
    out['cosmo'] = plain([c.D_C_z(0.37), c.D_C_z(s.w['zs']), c.halo_age(0.37), c.D_A(0.2, 0.9), c.rho_crit(0.4), s.geo.volume_element_comoving(0.4, 0.02), s.geo.rendering_scale(0.7),
                          c.colossus.H0, s.lc.sigma_crit_lensing, s.lc.z_accreted_from_zlens(1e8), s.lc.two_halo_boost(1e13, s.w['zl'])])
    out['conc'] = plain([s.model[k].nfw_concentration(m, z) for k in ('concentration_model_subhalos', 'concentration_model_field_halos') for m, z in ((1e7, 0.5), (3e9, 1.1))])
    if s.rc is not None:
        out['render'] = [plain(list(x.render())) for x in s.rc]
    return out


def script(scn, n=0):
    rng.mode_script(rng.lazy_constant(scn['q'], scn['seed'] + n))


def execute(scn, ctx):
    w = scn['world']
    rtol = 1e-10 if w['csub'] == w['cfield'] == 6 else 2e-3
    if scn['target']['c'] == 'ext': rtol = max(rtol, 1e-12)
    script(scn)
    s = S(w)
    for o in scn['warm']:
        W.read(s.pool[0].halos[o['h'] % len(s.pool[0].halos)], o['name'])
    f = target_call(scn, s)
    before_args = [calls.snap(w)]

    def attempt():
        script(scn, 1)
        return f()

    def observe_all():
        script(scn, 2)
        return obs_all(s)

    def fork(g):
        st, v = faults.forked(g)
        if st != 'ok':
            g()
            raise RuntimeError('fork: %s %s' % (st, v))
        return v
    want = fork(attempt)
    before = fork(observe_all)
    if scn['target'].get('q') == 'bad':
        # first as it fails by itself
        attempt()
        ctx.fault('a call that is refused')
        d = same(before, fork(observe_all), rtol=rtol)
        if d: raise Violation('left-changed', '%s was refused: existing objects now answer %s' % (scn['target'], d))
    n = fork(lambda: faults.count_lines(attempt))
    for op in scn['ops']:
        ctx.steps += 1
        where, fired = None, False
        if op['kind'] == 'callback':
            Callback.n = op['n']
        else:
            if n == 0: break
            faults.arm(1 + int(op['f'] * n), op['kind'])
        try:
            attempt()
        except INJECTED as e:
            fired = True
        except Exception as e:
            # the fault surfaced as another error
            fired = True
        finally:
            if op['kind'] == 'callback': Callback.n, where = None, 'callback'
            else: _, f2, where = faults.disarm()
        if fired: ctx.fault('%s inside a call' % op['kind'] if op['kind'] != 'callback' else 'user callback fails')
        ctx.state(scn['target'].get('q') or scn['target'].get('e', {}).get('ext') or scn['target']['c'], op['kind'], (where or '').rsplit(':', 1)[0])
        ctx.log(where, fired)
        d = same(before, fork(observe_all), rtol=rtol)
        if d:
            raise Violation('left-changed', '%s stopped at %s (%s): existing objects now answer %s' % (scn['target'], where, op['kind'], d))
        if not fired: break
    got = attempt()
    d = same(want, plain(got), rtol=rtol)
    if d:
        raise Violation('retry', '%s repeated after being stopped: %s' % (scn['target'], d))
    ctx.log(got)


def simplify(scn):
    for i, o in enumerate(scn['ops']):
        if o['kind'] in ('interrupt', 'memory'):
            yield dict(scn, ops=scn['ops'][:i] + [dict(o, kind='error')] + scn['ops'][i + 1:])
    hs = scn['world']['halos']
    for i in range(len(hs)):
        if len(hs) > 1:
            yield dict(scn, world=dict(scn['world'], halos=hs[:i] + hs[i + 1:]))
