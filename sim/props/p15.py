"""P15: concentration models under query histories that grow, rebuild and interrupt their internal tables, alternate between cosmologies and
copies, with every scatter draw decided by the simulator; each answer is compared with a direct evaluation of the published relation."""
import copy, pickle
import numpy as np
from scipy.special import ndtri
from sim import faults, rng, worlds as W
from sim.core import plain, Violation, Injected, InjectedInterrupt, InjectedMemoryError

PLAN = {'quick': dict(runs=260, wall=150, limit=90, min=80), 'thorough': dict(runs=12000, wall=780, limit=90, min=600)}
RULE = 'distinct (model, query shape, scatter, table state, fault since the last rebuild) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'
TOL = 1e-3
FLOOR = 1.2

MODELS = [('DIEMERJOYCE19', {}), ('DIEMERJOYCE19', {}), ('DIEMERJOYCE19', dict(use_interpolation_table=False)), ('LUDLOW2016', {}), ('LUDLOW2016', {}),
          ('PEAK_HEIGHT_POWERLAW', dict(c0=18., beta=0.8, zeta=-0.2)), ('PEAK_HEIGHT_POWERLAW', dict(c0=12., beta=1.1, zeta=0.3, redshift_evolution='RHO_CRIT', m_pivot=10 ** 7)),
          ('BINNED_HALO_MASS', dict(log10_mass_bins=[[6, 8], [8, 10.7]], normalization_list=[20.0, 14.0], beta_list=[0.7, 0.9], zeta_list=[-0.4, -0.3])),
          ('BOSE2016', dict(log_mc=7.5)), ('BOSE2016_LUDLOW', dict(log_mc=8.2)), ('LAROCHE2022', dict(log_mc=8.0)),
          ('WDM_HYPERBOLIC', dict(log_mc=7.5, a=0.5, b=0.4, concentration_cdm_class='DIEMERJOYCE19')),
          ('WDM_POLYNOMIAL', dict(log_mc=8.5, concentration_cdm_class='DIEMERJOYCE19', c_scale=30.0, c_power=-0.3, c_power_inner=0.9)),
          ('FROM_FORMATION_HISTORY', dict(log_mc=7.8, dlogT_dlogk=1.5, concentration_cdm_class='DIEMERJOYCE19')),
          ('LUDLOW_WDM', dict(log_mc=7.2, dlogT_dlogk=-2.1)), ('CONSTANT', dict(c=16.0))]

# calibration of the LUDLOW_WDM suppression: a and b at (-dlogT/dlogk, log10 half-mode mass, z)
GRID = ([1.0, 2.0, 2.7, 3.2, 4.0], [6.0, 7.0, 8.0], [0.0, 1.0, 2.0, 3.0, 4.0])
GRID_A = [0.554, 0.484, 0.432, 0.276, 0.116, 0.474, 0.46, 0.376, 0.206, 0.053, 0.486, 0.429, 0.319, 0.12, -0.048, 0.497, 0.457, 0.37, 0.288,
          0.131, 0.472, 0.446, 0.35, 0.216, 0.057, 0.477, 0.393, 0.329, 0.134, -0.021, 0.49, 0.412, 0.367, 0.268, 0.121, 0.454, 0.406,
          0.343, 0.24, 0.074, 0.455, 0.388, 0.287, 0.123, -0.017, 0.453, 0.428, 0.363, 0.271, 0.128, 0.442, 0.412, 0.337, 0.225, 0.072,
          0.409, 0.392, 0.282, 0.146, 0.004, 0.432, 0.414, 0.348, 0.255, 0.103, 0.425, 0.419, 0.318, 0.166, 0.065, 0.412, 0.379, 0.283,
          0.119, 0.01]
GRID_B = [0.805, 0.766, 0.85, 0.927, 0.938, 0.739, 0.782, 0.868, 0.952, 1.015, 0.782, 0.778, 0.892, 0.946, 1.045, 0.545, 0.513, 0.552,
          0.617, 0.715, 0.533, 0.574, 0.606, 0.711, 0.721, 0.549, 0.56, 0.638, 0.702, 0.749, 0.499, 0.46, 0.495, 0.543, 0.646, 0.468, 0.485,
          0.553, 0.57, 0.686, 0.498, 0.509, 0.56, 0.64, 0.684, 0.457, 0.464, 0.499, 0.492, 0.631, 0.445, 0.471, 0.499, 0.555, 0.657, 0.45,
          0.504, 0.518, 0.641, 0.685, 0.42, 0.447, 0.477, 0.483, 0.584, 0.42, 0.476, 0.501, 0.565, 0.622, 0.424, 0.473, 0.514, 0.59, 0.665]


def gen_query(r, binned=False):
    lo, hi = (6.0, 10.7) if binned else r.choice([(6.0, 10.0), (6.0, 10.0), (5.0, 11.5), (4.0, 14.0), (3.0, 15.0)])
    shape = r.choice(['float', 'float', 'int', 'npfloat', 'npint', 'np32', 'array', 'array', 'array1', 'empty'])
    n = {'array': r.choice([2, 5]), 'list': 3, 'array1': 1, 'empty': 0}.get(shape, 1)
    ms = [round(r.uniform(lo, hi), 6) if r.random() < 0.85 else r.choice([lo, hi, 8.0]) for _ in range(n)]
    z = r.choice([0.0, 0.01, 0.5, 0.5, 1.5, round(r.uniform(0, 4), 4), round(r.uniform(0, 10), 4), round(r.uniform(8, 14), 3)])
    return dict(shape=shape, ms=ms, z=z, quiet=r.random() < 0.2, batch=shape in ('float', 'array', 'array1') and r.random() < 0.3)


def generate(r, i, tier):
    models = []
    for _ in range(r.choice([1, 2, 3])):
        j = r.randrange(len(MODELS))
        models.append(dict(m=j, cosmo=r.randrange(3), scatter=r.random() < 0.5, sigma=r.choice([0.2, 0.1, 0.4])))
    ops = []
    for _ in range(r.randint(3, 14)):
        k = r.choice(['query'] * 9 + ['break'] * 3 + ['lowfail', 'other', 'other', 'copy', 'pickle', 'new'])
        op = dict(op=k, i=r.randint(0, 20), seed=r.randint(0, 2 ** 31))
        if k in ('query', 'break', 'lowfail'): op['q'] = gen_query(r)
        if k == 'break': op.update(frac=r.random(), kind=r.choice(['error', 'interrupt', 'memory']))
        if k == 'lowfail': op['nth'] = r.choice([1, 2, 5, 30, 60])
        if k == 'other': op['cosmo'] = r.randrange(3)
        ops.append(op)
    return dict(models=models, ops=ops)


# ------------------------------------------------------------------ direct evaluation
def _col(fn, own, *a, **k):
    from colossus.cosmology import cosmology as cc
    keep = cc.current_cosmo
    cc.setCurrent(own)
    try:
        return fn(*a, **k)
    finally:
        cc.setCurrent(keep)


def cdm(kind, m, z, ast, own):
    from colossus.halo.concentration import concentration
    return float(_col(concentration, own, m * ast.h, mdef='200c', z=z, model={'D': 'diemer19', 'L': 'ludlow16'}[kind]))


def peak(m, z, c0, beta, zeta, ast, own, redshift_evolution='PEAK_HEIGHT', m_pivot=1e8):
    from colossus.lss import peaks
    nu = lambda q, y: _col(peaks.peakHeight, own, q * ast.h, y)
    f = nu(m, 0.0) / nu(m, z) if redshift_evolution == 'PEAK_HEIGHT' else ast.critical_density(z).value / ast.critical_density(0.0).value
    return c0 * (nu(m, z) / nu(m_pivot, z)) ** -beta * f ** zeta


def bose_z(z): return (1 + z) ** (0.026 * z - 0.04)


def reference(spec, m, z, ast, own):
    """(median of the scattered relation, factor applied after scatter and floor or None)"""
    name, k = MODELS[spec['m']]
    if name == 'CONSTANT': return k['c'], None
    if name == 'DIEMERJOYCE19': return cdm('D', m, z, ast, own), None
    if name == 'LUDLOW2016': return cdm('L', m, z, ast, own), None
    if name == 'PEAK_HEIGHT_POWERLAW': return peak(m, z, ast=ast, own=own, **k), None
    if name == 'BINNED_HALO_MASS':
        j = 0 if m < 1e8 else 1
        return peak(m, z, k['normalization_list'][j], k['beta_list'][j], k['zeta_list'][j], ast, own, 'RHO_CRIT'), None
    mc = 10 ** k['log_mc']
    if name in ('BOSE2016', 'BOSE2016_LUDLOW'): return cdm('L' if 'LUDLOW' in name else 'D', m, z, ast, own), (1 + 60.0 * mc / m) ** -0.17
    if name == 'LAROCHE2022': return cdm('D', m, z, ast, own), (1 + 21.42 * (mc / m) ** 1.62) ** -0.42 * bose_z(z)
    if name == 'WDM_POLYNOMIAL': return cdm('D', m, z, ast, own), (1 + k['c_scale'] * (mc / m) ** k['c_power_inner']) ** k['c_power'] * bose_z(z)
    if name in ('WDM_HYPERBOLIC', 'FROM_FORMATION_HISTORY'):
        if name == 'WDM_HYPERBOLIC': a, b = k['a'], k['b']
        else: a, b = 0.75 * (0.7 / k['dlogT_dlogk']) ** 0.4, 0.94 * abs(np.log(1.76 + 0.6) / np.log(k['dlogT_dlogk'] + 0.6)) ** 0.7
        return cdm('D', m, z, ast, own), 0.5 * (1 + np.tanh((np.log10(m / mc) - a) / (2 * b)))
    from scipy.interpolate import RegularGridInterpolator
    x = (min(max(-k['dlogT_dlogk'], 1.0), 4.0), min(max(k['log_mc'], 6.0), 8.0), min(max(z, 0.0), 4.0))
    a, b = [float(np.squeeze(RegularGridInterpolator(GRID, np.asarray(v).reshape(5, 3, 5))(x))) for v in (GRID_A, GRID_B)]
    return cdm('L', m, z, ast, own), 0.5 * (1 + np.tanh((np.log10(m / mc) - a) / (2 * b)))


# ------------------------------------------------------------------ run
class M:
    pass


def make(spec, lcs):
    name, k = MODELS[spec['m']]
    o = M()
    o.spec, o.lc = spec, lcs[spec['cosmo']]
    o.ast, o.own = o.lc.cosmo.astropy, o.lc.cosmo.colossus
    if name == 'LUDLOW_WDM':
        from pyHalo.concentration_models import preset_concentration_models
        c, kk = preset_concentration_models(name, dict(k, cosmo=o.ast, scatter=spec['scatter'], scatter_dex=spec['sigma']))
        o.model = c(**kk)
    elif name in ('BOSE2016', 'BOSE2016_LUDLOW', 'LAROCHE2022'):
        o.model = W.conc_model(name, k, o.lc, spec['scatter'], spec['sigma'])
    else:
        o.model = W.conc_model(name, k, o.lc, spec['scatter'], spec['sigma'])
    o.fault = 'new'
    return o


def masses(q, binned):
    ms = [min(max(x, 6.0), 10.7) if binned else x for x in q['ms']]
    v = [10.0 ** x for x in ms]
    s = q['shape']
    if s == 'float': return v[0], v
    if s == 'int': return int(v[0]), [float(int(v[0]))]
    if s == 'npfloat': return np.float64(v[0]), v
    if s == 'npint': return np.int64(v[0]), [float(int(v[0]))]
    if s == 'np32': return np.float32(v[0]), [float(np.float32(v[0]))]
    if s == 'list': return v, v
    return np.array(v, dtype=float), v


def call(o, q, seed):
    """(result, quantiles drawn)"""
    g = np.random.default_rng(seed)
    drawn = []

    def quant(n, site):
        v = g.random(n)
        m = g.random(n) < 0.2
        v[m] = g.choice([1e-12, 0.5, 1 - 1e-12], size=int(m.sum()))
        drawn.extend(v.tolist())
        return v
    rng.mode_script(quant, lambda lam: 0)
    name = MODELS[o.spec['m']][0]
    arg, v = masses(q, name == 'BINNED_HALO_MASS')
    kw = {'force_no_scatter': True} if q['quiet'] and name in ('DIEMERJOYCE19', 'LUDLOW2016', 'PEAK_HEIGHT_POWERLAW', 'BINNED_HALO_MASS') else {}
    if q.get('batch'):      # many halos of one redshift in one evaluation
        from pyHalo.Halos.batch_halo_util import batch_nfw_concentration
        f = lambda: batch_nfw_concentration(o.model, np.array(v), q['z'], **kw)
    else: f = lambda: o.model.nfw_concentration(arg, q['z'], **kw)
    try:
        out = f()
    finally:
        rng.mode_real(seed)
    return out, drawn, v, bool(kw)


def check(o, q, seed, ctx):
    spec = o.spec
    name = MODELS[spec['m']][0]
    out, drawn, v, quiet = call(o, q, seed)
    if name == 'CONSTANT':
        if np.any(np.asarray(out) != 16.0) or q.get('batch') and np.shape(out) != (len(v),): raise Violation('median', 'constant model returns %r' % (out,))
        return
    scalar = q['shape'] not in ('list', 'array', 'array1', 'empty') and not q.get('batch')
    if scalar != (np.ndim(out) == 0): raise Violation('shape', '%s: %s for a %s' % (name, np.shape(out), q['shape']))
    got = np.atleast_1d(np.asarray(out, float))
    if len(got) != len(v): raise Violation('shape', '%s: %d concentrations for %d masses' % (name, len(got), len(v)))
    n = len(v) if spec['scatter'] and not quiet else 0
    if len(drawn) != n: raise Violation('draws', '%s: %d scatter draws for %d halos (scatter %s)' % (name, len(drawn), len(v), spec['scatter'] and not quiet))
    for j, m in enumerate(v):
        med, f = reference(spec, m, q['z'], o.ast, o.own)
        c = med * np.exp(spec['sigma'] * ndtri(drawn[j])) if n else med
        c = max(c, FLOOR)
        if f is not None: c = max(c * f, FLOOR)
        if not abs(got[j] - c) <= TOL * c:
            raise Violation('median' if not n else 'scatter', '%s%s at m=%.6g z=%g: %.8g, direct evaluation %.8g (last: %s)' % (name, ' with scatter' if n else '', m, q['z'], got[j], c, o.fault))
        if got[j] < FLOOR: raise Violation('floor', '%s: %g' % (name, got[j]))
    ctx.state(name, q['shape'] + (' batch' if q.get('batch') else ''), bool(n), o.fault)
    ctx.log(plain(got))
    o.fault = 'queried'


def execute(scn, ctx):
    lcs = [W.lens_cosmo(cosmo=j) for j in range(3)]
    ms = [make(s, lcs) for s in scn['models']]
    for op in scn['ops']:
        ctx.steps += 1
        o = ms[op['i'] % len(ms)]
        k = op['op']
        if k == 'query': check(o, op['q'], op['seed'], ctx)
        elif k == 'break':
            n, _ = (faults.forked(lambda: faults.count_lines(lambda: call(o, op['q'], op['seed'])))[1], 0)
            if not isinstance(n, int) or n < 2: continue
            faults.arm(1 + int(op['frac'] * (n - 1)), op['kind'])
            try:
                call(o, op['q'], op['seed'])
            except (Injected, InjectedInterrupt, InjectedMemoryError):
                pass
            finally:
                _, fired, where = faults.disarm()
            if fired:
                ctx.fault('query stopped by ' + op['kind'])
                o.fault = 'interrupted'
            rng.mode_real(op['seed'])
        elif k == 'lowfail':
            import pyHalo.Halos.concentration as mod
            orig = getattr(mod, 'concentration', None)
            if orig is None: continue
            cnt = [0]

            def bad(*a, **kk):
                cnt[0] += 1
                if cnt[0] == op['nth']: raise Injected('concentration relation failed')
                return orig(*a, **kk)
            mod.concentration = bad
            try:
                call(o, op['q'], op['seed'])
            except Injected:
                ctx.fault('failing lower-level evaluation')
                o.fault = 'failed'
            finally:
                mod.concentration = orig
                rng.mode_real(op['seed'])
        elif k == 'other':
            lc = W.lens_cosmo(cosmo=op['cosmo'])
            lc.cosmo.colossus
            ctx.fault('another cosmology made current')
        elif k in ('copy', 'pickle'):
            c = copy.copy(o)
            c.model = copy.deepcopy(o.model) if k == 'copy' else pickle.loads(pickle.dumps(o.model))
            c.fault = k
            ms.append(c)
        elif k == 'new':
            ms.append(make(o.spec, lcs))
    # every model still answers a fixed set of queries
    for o in ms:
        for m, z in ((7.3, 0.5), (9.1, 2.2)):
            check(o, dict(shape='float', ms=[m], z=z, quiet=False), 5, ctx)
