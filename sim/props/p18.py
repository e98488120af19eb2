"""P18: mass functions under histories of draws in which the simulator decides every Poisson outcome and every quantile (extremes included), draws
are interrupted at chosen lines, objects are copied, pickled and interleaved, other cosmologies are made current and the caller reuses its arguments;
each draw is compared with the inverse CDF, the expected number and mass with independent integrals over log mass."""
import copy, pickle
import numpy as np
from scipy.special import ndtri
from sim import faults, rng, worlds as W
from sim.core import plain, same, Violation, Injected, InjectedInterrupt, InjectedMemoryError

PLAN = {'quick': dict(runs=500, wall=140, limit=60, min=150), 'thorough': dict(runs=24000, wall=780, limit=60, min=1500)}
RULE = 'distinct (mass function class, kind of range and index, draw outcome, quantile kind, what happened since the last draw) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'
PRESETS_SUB = ['SHMF_LOVELL2020', 'SHMF_LOVELL2014', 'SHMF_SCHIVE2016', 'STUCKER_SHMF', 'POWER_LAW', 'POWER_LAW_TURNOVER_SHMF', 'SHMF_MIXED_WDM_TURNOVER']
PRESETS_LOS = ['LOVELL2020', 'LOVELL2014', 'SCHIVE2016', 'STUCKER', 'POWER_LAW_TURNOVER', 'MIXED_WDM_TURNOVER', 'SHETH_TORMEN']
ABC = {'SHMF_LOVELL2020': (36.15, 2.5, -0.2), 'LOVELL2020': (1.95, 0.8, -1.0), 'SHMF_LOVELL2014': (1.0, 1.0, -1.3), 'LOVELL2014': (1.0, 1.0, -1.3),
       'SHMF_SCHIVE2016': (1.0, 1.1, -2.2), 'SCHIVE2016': (1.0, 1.1, -2.2)}
MEDGE = [0.0, 2.0 ** -53, 1e-12, 0.5, 1 - 1e-12, rng.BELOW_ONE]


def gen_mf(r):
    kind = r.choice(['sub'] * 4 + ['los'] * 3 + ['gauss', 'delta', 'deltaz', 'plain', 'plain'])
    lo = r.choice([6.0, 6.0, 5.0, 7.0, 4.0, round(r.uniform(4, 9), 2)])
    hi = r.choice([lo + 0.01, lo + 0.3, 10.0, 10.0, 10.7, 9.0, 12.0, 15.0, lo, lo - 1.0, round(r.uniform(6, 12), 2)])
    idx = r.choice([-1.9, -1.9, -2.0, -1.0, -1.83, -2.3, -1.5, -2.3 + 0.3, -1.3 + 0.3, -2.0 + 1e-9, -1.0 - 1e-8, round(r.uniform(-3, -0.5), 3)])
    return dict(kind=kind, lo=lo, hi=hi, idx=idx, n=r.choice([0.0, 1e-6, 0.3, 1.0, 3.5, 12.0, 40.0, 900.0, round(10 ** r.uniform(-3, 3), 4)]), poisson=r.random() < 0.6,
                mc=round(r.uniform(4.5, 10.5), 3), abc=[r.choice([0.5, 1.0, 1.95, 36.15]), r.choice([0.8, 1.0, 2.5]), r.choice([-0.2, -1.0, -2.2])], frac=r.choice([0.0, 0.3, 0.8, 1.0]),
                slope=r.choice([-1.2, -2.0, -3.0, -3.7]), preset=r.choice(PRESETS_SUB if kind == 'sub' else PRESETS_LOS),
                z=round(r.uniform(0.02, 1.4), 2), dz=r.choice([0.02, 0.02, 0.01, 0.1]), cosmo=r.randrange(3), losnorm=r.choice([1.0, 0.3, 2.0, 0.0]), dplaw=r.choice([0.0, 0.1, -0.2]),
                pivot=r.choice([1e8, 1e8, 1e7]), angle=r.choice([5.0, 8.0, 1.0]), geo=r.choice(['DOUBLE_CONE', 'CONE', 'CYLINDER']), sigma=r.choice([0.0, 0.1, 0.5, 1.0]),
                mass=round(r.uniform(3, 7), 2), mfrac=r.choice([0.01, 0.5]))


def generate(r, i, tier):
    mfs = [gen_mf(r) for _ in range(r.randint(1, 4))]
    ops = []
    for _ in range(r.randint(3, 12)):
        k = r.choice(['draw'] * 8 + ['stop', 'stop', 'copy', 'pickle', 'cosmo', 'reuse', 'eval', 'cold', 'cold', 'new'])
        op = dict(op=k, i=r.randrange(12), seed=r.randint(0, 2 ** 31), nd=r.choice([0, 1, 1, 2, 7, 7, 60, 1000]), edge=r.choice([0.0, 0.3, 1.0]))
        if k == 'stop': op.update(frac=r.random(), kind=r.choice(['error', 'interrupt', 'memory']))
        if k == 'cosmo': op['cosmo'] = r.randrange(3)
        ops.append(op)
    return dict(mfs=mfs, ops=ops)


# ------------------------------------------------------------------ reference model
GX, GW = np.polynomial.legendre.leggauss(60)


def integral(lo, hi, fun):
    ed = np.linspace(lo * np.log(10), hi * np.log(10), max(2, int(3 * (hi - lo)) + 2))
    t = 0.0
    for a, b in zip(ed[:-1], ed[1:]):
        m = np.exp(0.5 * (b - a) * GX + 0.5 * (a + b))
        t += 0.5 * (b - a) * float(np.sum(GW * m * fun(m)))
    return t


def power_moment(lo, hi, e):
    """integral of m^(e-1) over [10^lo, 10^hi], exact for every exponent"""
    L = (hi - lo) * np.log(10)
    return 10 ** (lo * e) * (L if e == 0 else np.expm1(e * L) / e)


def inverse_cdf(lo, hi, idx, q):
    e, L = 1 + idx, (hi - lo) * np.log(10)
    mL = 10 ** lo
    if e == 0: return mL * np.exp(L * q)
    if e < 0:       # measured from whichever end keeps the digits
        return mL * np.exp(np.log1p(q * np.expm1(e * L)) / e)
    return mL * np.exp(np.log1p(q * np.expm1(e * L)) / e)


def wdm(m, mc, a, b, c): return (1 + a * (10 ** mc / m) ** b) ** c


class MF:
    pass


def colossus_st(m, h, z, own):
    from colossus.cosmology import cosmology as cc
    from colossus.lss.mass_function import massFunction
    keep = cc.current_cosmo
    cc.setCurrent(own)
    try:
        return massFunction(m * h, z, q_out='dndlnM', model='sheth99') / m * h ** 3
    finally:
        cc.setCurrent(keep)


def make(s):
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw, WDMPowerLaw, MixedWDMPowerLaw
    from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen, ShethTormenTurnover, ShethTormenMixedWDM
    from pyHalo.Rendering.MassFunctions.gaussian import Gaussian
    from pyHalo.Rendering.MassFunctions.delta_function import DeltaFunction
    from pyHalo.mass_function_models import preset_mass_function_models
    o = MF()
    o.s, o.since, o.args, o.turn = s, 'new', {}, None
    k, lo, hi, idx = s['kind'], s['lo'], s['hi'], s['idx']
    o.kind = 'power'
    empty = lo >= hi
    if k == 'gauss':
        o.kind = 'gauss'
        o.obj, o.name = Gaussian(s['n'], s['mass'], s['sigma'], s['poisson']), 'GAUSSIAN'
        o.n, o.M = s['n'], 10 ** s['mass'] * np.exp((s['sigma'] * np.log(10)) ** 2 / 2)
        return o
    if k in ('delta', 'deltaz'):
        o.kind = 'delta'
        o.name = 'DELTA_FUNCTION'
        o.M = 10 ** s['mass']
        if k == 'delta':
            o.obj, o.n = DeltaFunction(10 ** s['mass'], 3.0, s['n'] * 10 ** s['mass'] / 3.0, s['poisson']), s['n']
        else:
            lc = W.lens_cosmo(0.5, 1.5, s['cosmo'])
            geo = W.geometry(lc, s['angle'], s['geo'])
            o.args = dict(LOS_normalization=s['losnorm'], mass_fraction=s['mfrac'], mass=10 ** s['mass'] * 1e4, draw_poisson=s['poisson'])
            o.M *= 1e4
            o.obj = DeltaFunction.from_redshift(s['z'], s['dz'], geo, o.args)
            o.n = o.obj.rho * o.obj.volume / o.M
            v = geo.volume_element_comoving(s['z'], s['dz'])
            if same(float(o.obj.volume), float(v), 1e-12): raise Violation('volume', 'delta function over %r Mpc^3, element %r' % (o.obj.volume, v))
        return o
    cls_of = {CDMPowerLaw: 0, ShethTormen: 0, WDMPowerLaw: 1, ShethTormenTurnover: 1, MixedWDMPowerLaw: 2, ShethTormenMixedWDM: 2}
    name = s['preset']
    kw = dict(log_mlow=lo, log_mhigh=hi, draw_poisson=s['poisson'], log_mc=s['mc'])
    if 'STUCKER' in name: kw['dlogT_dlogk'] = s['slope']
    if name in ('POWER_LAW_TURNOVER_SHMF', 'POWER_LAW_TURNOVER', 'SHMF_MIXED_WDM_TURNOVER', 'MIXED_WDM_TURNOVER'):
        kw.update(a_wdm=s['abc'][0], b_wdm=s['abc'][1], c_wdm=s['abc'][2])
    if 'MIXED' in name: kw['mixed_DM_frac'] = s['frac']
    given = dict(kw)
    if k == 'plain': cls, out = CDMPowerLaw, kw
    elif name == 'SHETH_TORMEN': cls, out = ShethTormen, kw
    else: cls, out = preset_mass_function_models(name, kw)
    if kw != given: raise Violation('arguments', '%s changed the arguments it was given' % name)
    if cls not in cls_of: raise Violation('class', '%s for %s' % (cls.__name__, name))
    o.type = cls_of[cls]
    o.name = cls.__name__
    if o.type:
        o.abc = tuple(ABC[name]) if name in ABC else tuple(s['abc'])
        if 'STUCKER' in name: o.abc = tuple(float(out[q]) for q in ('a_wdm', 'b_wdm', 'c_wdm'))
        if [float(out[q]) for q in ('a_wdm', 'b_wdm', 'c_wdm')] != list(o.abc): raise Violation('preset', '%s: %s' % (name, [out[q] for q in ('a_wdm', 'b_wdm', 'c_wdm')]))
        t = lambda m: wdm(m, s['mc'], *o.abc)
        o.turn = t if o.type == 1 else (lambda m: (s['frac'] + (1 - s['frac']) * np.sqrt(t(m))) ** 2)
        if 'STUCKER' in name:
            beta = -s['slope'] * 0.5 ** (-0.2) / (0.5 ** (-0.2) - 1) / 5
            for fr, m in zip((0.2, 0.5, 0.8), np.array((0.2651, 1.638, 16.51)) * beta ** np.array((0.3656, -0.0994, -0.9466))):
                if not abs(t(m * 10 ** s['mc']) - fr) < 2e-3: raise Violation('preset', '%s slope %g: suppression %g at the mass where it is %g' % (name, s['slope'], t(m * 10 ** s['mc']), fr))
    out = dict(out)
    if cls in (CDMPowerLaw, WDMPowerLaw, MixedWDMPowerLaw):
        o.norm = 0.0 if empty else s['n'] / power_moment(lo, hi, 1 + idx)
        o.idx = idx
        out.update(power_law_index=idx, normalization=o.norm)
        o.args = out
        o.obj = cls(**out)
    else:
        lc = W.lens_cosmo(0.5, 1.5, s['cosmo'])
        geo = W.geometry(lc, s['angle'], s['geo'])
        out.update(m_pivot=s['pivot'], LOS_normalization=s['losnorm'], delta_power_law_index=s['dplaw'])
        o.args = out
        o.obj = cls.from_redshift(s['z'], s['dz'], geo, out)
        if empty: o.idx = o.norm = 0.0
        else:
            m = np.logspace(lo, hi, 10)
            y = np.log10(colossus_st(m, lc.cosmo.h, s['z'], lc.cosmo.colossus))
            x = np.log10(m / s['pivot'])
            xm, ym = x.mean(), y.mean()
            sl = float(np.sum((x - xm) * (y - ym)) / np.sum((x - xm) ** 2))
            o.idx = sl + s['dplaw']
            o.norm = s['losnorm'] * geo.volume_element_comoving(s['z'], s['dz']) * 10 ** (ym - sl * xm) / s['pivot'] ** o.idx
    if empty:
        o.kind = 'empty'
        o.n = o.M = 0.0
        return o
    if o.turn is None:
        o.n, o.M = o.norm * power_moment(lo, hi, 1 + o.idx), o.norm * power_moment(lo, hi, 2 + o.idx)
    else:
        dn = lambda m: o.norm * m ** o.idx * o.turn(m)
        o.n, o.M = integral(lo, hi, dn), integral(lo, hi, lambda m: m * dn(m))
    o.cold = o.norm * power_moment(lo, hi, 1 + o.idx)
    return o


# ------------------------------------------------------------------ checks
def close(a, b, tol): return abs(a - b) <= tol * abs(b) or a == b


def describe(o):
    s = o.s
    return '%s [%g, %g] index %r%s' % (o.name, s['lo'], s['hi'], getattr(o, 'idx', None), ' mc=%g abc=%s' % (s['mc'], o.abc) if o.turn else '')


def moments(o):
    n, M = float(o.obj.n_mean), float(o.obj.first_moment)
    tol = 1e-6 if o.turn is None else 1e-5
    if not close(n, o.n, tol): raise Violation('n_mean', '%s: expected number %r, the integral gives %r' % (describe(o), n, o.n))
    if not close(M, o.M, tol): raise Violation('first_moment', '%s: expected mass %r, the integral gives %r' % (describe(o), M, o.M))


def call(o, op):
    """(masses, quantiles in the order drawn, Poisson means asked for)"""
    g = np.random.default_rng(op['seed'])
    qs, lams = [], []

    def quant(n, site):
        v = g.random(n)
        if op['edge']:
            w = g.random(n) < op['edge']
            v[w] = g.choice(MEDGE, size=int(w.sum()))
        qs.append(v)
        return v

    def pois(lam):
        lams.append(lam)
        return op['nd']
    rng.mode_script(quant, pois)
    try:
        m = o.obj.draw()
    finally:
        rng.mode_real(op['seed'])
    return m, qs, lams


def check_draw(o, op, ctx):
    s = o.s
    m, qs, lams = call(o, op)
    what = describe(o)
    if not isinstance(m, np.ndarray) or m.ndim != 1: raise Violation('type', '%s: %s' % (what, type(m).__name__))
    base = o.n if o.turn is None else (0.0 if o.kind == 'empty' else o.cold)
    if o.kind == 'empty': base = 0.0
    if s['poisson']:
        if len(lams) > 1 or (base > 0 and len(lams) != 1): raise Violation('count', '%s: %d Poisson draws' % (what, len(lams)))
        if lams and not close(lams[0], base, 1e-6): raise Violation('count', '%s: Poisson mean %r, expected number %r' % (what, lams[0], base))
        nd = op['nd'] if base > 0 else 0
    else:
        if lams: raise Violation('count', '%s: a Poisson draw although draw_poisson is off' % what)
        nd = int(np.round(base))
        if abs(base - nd) > 0.5 - 1e-6: return                      # a tie: rounding may go either way
    ctx.state(o.name, o.kind, min(nd, 8), op['edge'], o.since, s['poisson'])
    o.since = 'drawn'
    if nd == 0:
        if len(m): raise Violation('count', '%s: %d masses when none was drawn' % (what, len(m)))
        return
    ctx.count('masses', len(m))
    if o.kind == 'delta':
        if len(m) != nd or np.any(m != o.M): raise Violation('mass', '%s: %s' % (what, m[:5]))
        return
    q = qs[0] if qs else np.zeros(0)
    if len(q) != nd: raise Violation('count', '%s: %d quantiles for %d halos' % (what, len(q), nd))
    if o.kind == 'gauss':
        ref = 10 ** (s['mass'] + s['sigma'] * ndtri(np.clip(q, 1e-16, rng.BELOW_ONE)))
        if len(m) != nd or np.any(np.abs(m / ref - 1) > 1e-9): raise Violation('inverse-cdf', '%s: %s for quantiles %s' % (what, m[:4], q[:4]))
        return
    mL, mH = 10 ** s['lo'], 10 ** s['hi']
    e = abs(1 + o.idx)
    tol = 1e-9 + (1e-15 * (mH / mL) ** e / e if e > 1e-6 else 0.0) + (1e-8 if s['kind'] == 'los' else 0.0)
    if tol > 0.3: return                                           # quantiles near one cannot be resolved in double precision
    ref = inverse_cdf(s['lo'], s['hi'], o.idx, q)
    if np.any(m < mL * (1 - 1e-9)) or np.any(m > mH * (1 + tol)): raise Violation('range', '%s: masses from %r to %r' % (what, float(m.min()), float(m.max())))
    if o.turn is None:
        if len(m) != nd: raise Violation('count', '%s: %d masses for a draw of %d' % (what, len(m), nd))
        bad = np.abs(m / ref - 1) > tol
        if bad.any():
            j = int(np.argmax(bad))
            raise Violation('inverse-cdf', '%s: quantile %r gives %r, inverse CDF %r' % (what, float(q[j]), float(m[j]), float(ref[j])))
        return
    f = o.turn(ref)
    if len(qs) != 2 or len(qs[1]) != nd: raise Violation('thinning', '%s: draws of %s quantiles' % (what, [len(x) for x in qs]))
    u = qs[1]
    fo = o.obj.turnover(ref)
    if np.any(fo < 0) or np.any(fo > 1): raise Violation('thinning', '%s: retention probability %s' % (what, fo[:4]))
    if np.any(np.abs(fo - f) > 1e-9 + 3 * tol): raise Violation('thinning', '%s: retention probability %r at m=%r, formula %r' % (what, fo[:3], ref[:3], f[:3]))
    dt = 1e-9 + 3 * tol
    sure, maybe = u < f - dt, np.abs(u - f) <= dt
    if int(sure.sum()) > len(m) or len(m) > int((sure | maybe).sum()):
        raise Violation('thinning', '%s: %d of %d halos survive, expected %d' % (what, len(m), nd, int(sure.sum())))
    if not maybe.any() and np.any(np.abs(m / ref[sure] - 1) > tol): raise Violation('thinning', '%s: survivors are not the halos kept' % what)


def cold_twin(o, op, ctx):
    """the same quantiles given to the cold model: the survivors are a subset of its masses"""
    from pyHalo.Rendering.MassFunctions.mass_function_base import CDMPowerLaw
    if o.turn is None or o.kind == 'empty': return
    t = copy.copy(o)
    t.obj = CDMPowerLaw(o.s['lo'], o.s['hi'], o.idx if o.s['kind'] == 'sub' else o.obj._index if hasattr(o.obj, '_index') else o.idx, o.s['poisson'], o.norm)
    t.turn = None
    a, b = call(o, op)[0], call(t, op)[0]
    ref = set(np.round(np.log10(b), 9).tolist()) if o.s['kind'] == 'sub' else None
    if len(a) > len(b): raise Violation('subset', '%s: %d halos, %d in the cold model' % (describe(o), len(a), len(b)))
    if ref is not None and abs(o.s['hi'] - o.s['lo']) < 7:
        miss = [x for x in np.log10(a).tolist() if round(x, 9) not in ref and not np.any(np.abs(np.log10(b) - x) < 1e-6)]
        if miss: raise Violation('subset', '%s: mass 10^%r is not in the cold model' % (describe(o), miss[0]))
    ctx.count('cold twins')


def evaluate(o, op):
    if o.kind != 'power' or not hasattr(o.obj, 'evaluate'): return
    g = np.random.default_rng(op['seed'])
    m = 10 ** g.uniform(o.s['lo'], o.s['hi'], 5)
    ref = o.norm * m ** o.idx * (o.turn(m) if o.turn else 1.0)
    for a in (m, float(m[0])):
        v = np.atleast_1d(o.obj.evaluate(a))
        if np.any(np.abs(v - ref[:len(v)]) > 1e-6 * np.abs(ref[:len(v)])): raise Violation('evaluate', '%s: dN/dm %s, formula %s' % (describe(o), v, ref))


def execute(scn, ctx):
    os = [make(s) for s in scn['mfs']]
    for o in os: moments(o)
    for op in scn['ops']:
        ctx.steps += 1
        o = os[op['i'] % len(os)]
        k = op['op']
        if k == 'draw': check_draw(o, op, ctx)
        elif k == 'cold': cold_twin(o, op, ctx)
        elif k == 'eval': evaluate(o, op)
        elif k == 'stop':
            n = faults.forked(lambda: faults.count_lines(lambda: call(o, op)))[1]
            if not isinstance(n, int) or n < 2: continue
            faults.arm(1 + int(op['frac'] * (n - 1)), op['kind'])
            try:
                call(o, op)
            except (Injected, InjectedInterrupt, InjectedMemoryError):
                pass
            finally:
                fired = faults.disarm()[1]
            if fired:
                ctx.fault('draw stopped by ' + op['kind'])
                o.since = 'stopped'
            rng.mode_real(op['seed'])
        elif k in ('copy', 'pickle'):
            c = copy.copy(o)
            c.obj = copy.deepcopy(o.obj) if k == 'copy' else pickle.loads(pickle.dumps(o.obj))
            c.since = k
            os.append(c)
        elif k == 'cosmo':
            W.lens_cosmo(cosmo=op['cosmo']).cosmo.colossus
            ctx.fault('another cosmology made current')
            o.since = 'cosmology'
        elif k == 'reuse':
            for q in list(o.args):
                if isinstance(o.args[q], float): o.args[q] = o.args[q] * 0.5 + 1.0
            o.args['draw_poisson'] = not o.args.get('draw_poisson')
            ctx.fault('caller reuses its arguments')
            o.since = 'reuse'
        elif k == 'new': os.append(make(o.s))
    for o in os:
        moments(o)
        check_draw(o, dict(seed=7, nd=5, edge=0.0), ctx)
        evaluate(o, dict(seed=11))
        ctx.log(plain(o.obj.n_mean), plain(o.obj.first_moment))
