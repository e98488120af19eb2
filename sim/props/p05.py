"""P05: a halo's random properties are drawn once.  Real halos of every class under histories of reads, exports, selections, joins, copies, pickles,
shifts and extensions; every value is recorded when it is first read and must be the same at every later read, on every copy and through every
realization that holds the halo, and nothing may consume random numbers for halos whose properties have all been drawn.  At the end the
properties of each halo must describe one object."""
import copy, pickle
import numpy as np
from sim import faults, ops as O, worlds as W, rng
from sim.core import plain, same, Violation, Injected, InjectedInterrupt, InjectedMemoryError

PLAN = {'quick': dict(runs=300, wall=150, limit=90, min=80), 'thorough': dict(runs=12000, wall=780, limit=120, min=600)}
RULE = 'distinct (operation, halo classes, how many properties were drawn before, random regime) combinations'
SHRINK = ['ops', 'pre']
SIMTIME = 'none used: the property does not involve a clock'
NAMES = ['z_infall', 'z_eval', 'c', 'nfw_params', 'profile_args', 'params_physical', 'bound_mass', 'bound_mass_galacticus_definition', 'time_since_infall', 'vmax_nfw',
         'lenstronomy_params', 'mass_3d', 'mass_3d@1.0', 'call:density_profile_3d:1.0']
MOVES = ('lenstronomy_params',)
PRE = ['collapse', 'sidm_list', 'sidm_timescale', 'cored', 'sis', 'gc', 'bh', 'collapse_by_mass']
CLASSES = [['TNFW'], ['TNFW'], ['TNFW', 'NFW'], ['TNFW', 'ULDM', 'GNFW', 'SPL_CORE', 'PJAFFE', 'NFW', 'PT_MASS', 'GAUSSIAN_KAPPA']]
BATCH = ['precompute_realization', 'precompute_realization', 'precompute_concentrations', 'precompute_concentrations', 'precompute_nfw_params', 'precompute_infall_times']
DEFINED = ('TruncationGalacticus', 'TruncationGalacticusZinfall', 'TruncationGalacticusApproxCDM', 'TruncationGalacticusMilkyWay')


def gen_op(r, w):
    k = r.choice(['read'] * 8 + ['all'] * 3 + ['allreal'] * 2 + ['again'] * 3 + ['copy', 'copy', 'pickle', 'halo_copy', 'export', 'export', 'join', 'filter', 'filter_sub', 'bound', 'bound',
                  'split', 'shift', 'from', 'at_z', 'ext', 'stop', 'stop', 'stop', 'batch', 'batch', 'batch'])
    op = dict(op=k, src=r.randint(0, 9), other=r.randint(0, 9), h=r.randint(0, 50), logm=r.choice([5.0, 7.0, 8.0, 11.0]), ap=r.choice([0.5, 2.0]))
    if k in ('read', 'stop'): op['name'] = r.choice(NAMES)
    if k == 'stop': op.update(frac=r.random(), kind=r.choice(['error', 'interrupt', 'memory']))
    if k == 'ext': op['e'] = O.gen_ext(r, w, PRE + ['pbh', 'uldm'])
    if k == 'shift': op['ray'] = O.gen_ray(r)
    if k in ('split', 'at_z'): op['z'] = r.choice([h['z'] for h in w['halos']])
    if k == 'bound': op['frac'] = r.random()
    if k == 'batch': op['f'] = r.choice(BATCH)
    return op


def generate(r, i, tier):
    w = O.gen_world(r, 1, 7, r.choice(CLASSES))
    w.update(csub=r.choice([0, 1, 2, 4, 6]), cfield=r.choice([0, 1, 3, 6]), tsub=r.choice([0, 0, 7, 8, 9, 10, 6, 3, 1, 2, 11]), tfield=r.choice([0, 1, 2, 3]), scatter=r.random() < 0.7)
    if r.random() < 0.3:                # several halos on one plane
        for h in w['halos']:
            if not h['sub']: h['z'] = w['zl']
    return dict(world=w, mode=r.choice(['real', 'real', 'buggify']), pre=[O.gen_ext(r, w, PRE) for _ in range(r.choice([0, 0, 1]))],
                early=[[r.randint(0, 6), r.choice([0.0, 0.01, 1.0, 6.0, 9.0])] for _ in range(r.choice([0, 0, 1]))],
                ops=[gen_op(r, w) for _ in range(r.randint(4, 14))])


class Book:
    """what has been observed about each halo object"""
    def __init__(self, ctx):
        self.v, self.keep, self.ctx, self.tol = {}, [], ctx, 0.0

    def of(self, h):
        if id(h) not in self.v:
            self.v[id(h)] = {}
            self.keep.append(h)
        return self.v[id(h)]

    def full(self, h): return len(self.of(h)) == len(NAMES)

    def check(self, h, name, got, what):
        d = self.of(h)
        if name in d:
            diff = same(d[name], got, self.tol)
            if diff: raise Violation('changed:' + name.split('@')[0], '%s of a %s, %s: first %s, now %s' % (name, type(h).__name__, what, d[name], got))
        else: d[name] = got

    def inherit(self, new, old, moved=False):
        """a copy of a halo holds what had been drawn"""
        d = self.of(new)
        for k, v in self.of(old).items():
            if not (moved and k in MOVES): d.setdefault(k, v)


def read(h, name): return W.read(h, name)


def look(b, h, name, what):
    known = name in b.of(h)
    s0 = rng.get_state()
    got = read(h, name)
    if known and rng.get_state() != s0: raise Violation('draws:' + name.split('@')[0], 'reading %s of a %s again consumed random numbers (%s)' % (name, type(h).__name__, what))
    b.check(h, name, got, what)
    return got


def parents(res, src):
    """(halo of the result, halo of the source it stands for); halos keep their tags through copies"""
    t = {}
    for h in src: t.setdefault((h.unique_tag, type(h).__name__), h)
    out = []
    for h in res:
        p = t.get((h.unique_tag, type(h).__name__))
        if p is not None: out.append((h, p))
    return out


def consistent(h, tname, scatter, model, ctx, real_const):
    """the halo's properties describe one object"""
    cls = type(h).__name__
    if cls not in ('TNFWSubhalo', 'TNFWFieldHalo', 'NFWSubhhalo', 'NFWFieldHalo'): return
    lc = h.lens_cosmo
    ze = h.z_infall if h.is_subhalo else h.z
    if h.z_eval != ze: raise Violation('z_eval', '%s evaluated at %r, infall redshift %r' % (cls, h.z_eval, ze))
    rhos, rs, r200 = [float(x) for x in h.nfw_params]
    c = float(h.c)
    R = float(lc.rN_M(h.mass * lc.cosmo.h, ze, 200)) * 1e3
    if abs(rs * c / r200 - 1) > 1e-9 or abs(r200 / R - 1) > 1e-6: raise Violation('nfw', '%s: rs*c=%r, r200=%r, virial radius %r' % (cls, rs * c, r200, R))
    m = 4 * np.pi * rhos * rs ** 3 * (np.log(1 + c) - c / (1 + c))
    if cls.startswith('TNFW') and abs(m / h.mass - 1) > 2e-3: raise Violation('nfw', '%s: virial mass %r of a halo of mass %r' % (cls, m, h.mass))
    if not scatter:
        ref = float(np.squeeze(model.nfw_concentration(h.mass, ze)))
        if abs(c / ref - 1) > 1e-3: raise Violation('concentration', '%s: c=%r, relation at its infall redshift gives %r' % (cls, c, ref))
    if h.is_subhalo:
        t = float(lc.cosmo.halo_age(h.z, zform=h.z_infall))
        if abs(float(h.time_since_infall) - t) > 1e-9 + 1e-6 * t: raise Violation('time', '%r since infall at z=%r, expected %r' % (h.time_since_infall, h.z_infall, t))
    if not cls.startswith('TNFW'): return
    pp, pa = h.params_physical, h.profile_args
    if pa[0] != h.c or pp['r_trunc_kpc'] != pa[1] or abs(pp['rs'] / h.nfw_params[1] - 1) > 1e-9: raise Violation('params', '%s: %s, profile_args %s, c=%r, rs=%r' % (cls, pp, pa, h.c, rs))
    rt, rho = float(pa[1]), float(pp['rhos'])
    if not rt > 0 or not np.isfinite(rt): raise Violation('params', '%s: truncation radius %r' % (cls, rt))
    tau = rt / rs
    if h.is_subhalo and tname in DEFINED:
        mb = float(h.bound_mass_galacticus_definition)
        if abs(tau ** 2 - 1) < 1e-6 or tau < 1e-4: tot = mb
        else: tot = 4 * np.pi * rho * rs ** 3 * tau ** 2 / (tau ** 2 + 1) ** 2 * ((tau ** 2 - 1) * np.log(tau) + tau * np.pi - (tau ** 2 + 1))
        ctx.count('bound masses compared')
        if abs(tot / mb - 1) > 5e-3: raise Violation('bound-mass', '%s: truncated profile holds %.6g, bound mass %.6g (tau=%g c=%g)' % (cls, tot, mb, tau, c))
    if h.is_subhalo and tname == 'TruncationGalacticusKeeley24':
        f = min(max(np.log10(float(h.bound_mass_galacticus_definition) / h.mass), -8.0), -0.001)
        ref = 10 ** float(np.squeeze(h._truncation_class._tau_mf_interpolation((min(max(np.log10(c), 0.0), 2.7), f)))) if hasattr(h._truncation_class, '_tau_mf_interpolation') else tau
        if abs(tau / ref - 1) > 1e-6: raise Violation('bound-mass', '%s: rt/rs=%r, its bound mass gives %r' % (cls, tau, ref))
    if h.is_subhalo:
        x, t2 = c, tau
        g = t2 ** 2 / (t2 ** 2 + 1) ** 2 * ((t2 ** 2 + 1) * x / (x + 1) * -1 + (t2 ** 2 - 1) * np.log((1 + x) ** 2 * t2 ** 2 / (x ** 2 + t2 ** 2)) / 2 + 2 * t2 * np.arctan(x / t2)) if t2 > 1e-4 else None
        if g is not None and abs(t2 - 1) > 1e-4:
            ref = 4 * np.pi * rho * rs ** 3 * g
            if ref > 1e-6 * h.mass and abs(float(h.bound_mass) / ref - 1) > 5e-3: raise Violation('bound_mass', '%s: bound mass %r, profile inside c*rs holds %r' % (cls, float(h.bound_mass), ref))
    k = h.lenstronomy_params[0][0]
    kpc = float(lc.cosmo.kpc_proper_per_asec(h.z))
    if abs(k['r_trunc'] * kpc / rt - 1) > 1e-6: raise Violation('export', '%s: exported r_trunc %r arcsec, truncation radius %r kpc' % (cls, k['r_trunc'], rt))
    if abs(k['Rs'] * kpc / rs - 1) > 5e-4 + 2e-4 / h.z + 1e-9 / (k['Rs'] + 1e-12): raise Violation('export', '%s: exported Rs %r arcsec, scale radius %r kpc' % (cls, k['Rs'], rs))
    sc = float(lc.get_sigma_crit_lensing(h.z, lc.z_source)) * 1e-6                          # solar masses per kpc^2
    a = 4 * rho * rs ** 2 * (1 + np.log(0.5)) / sc / kpc
    if a > 1e-7 and abs(k['alpha_Rs'] / a - 1) > 2e-3 + 5e-4 / h.z:     # distances are interpolated in redshift
        raise Violation('export', '%s: exported alpha_Rs %r, profile gives %r' % (cls, k['alpha_Rs'], a))


def execute(scn, ctx):
    w = scn['world']
    rng.mode_real(scn['seed'])
    s = O.Session(w)
    real = s.pool[0]
    if scn['mode'] == 'buggify': rng.mode_buggify(scn['seed'] + 1, 0.25)
    for i, dz in scn['early']:
        h = real.halos[i % len(real.halos)]
        if h.is_subhalo: h.set_infall_redshift(h.z + dz)
    for e in scn['pre']:
        if O.applicable(real, e):
            y = O.apply_ext(s, real, e)
            y = y[1] if e['ext'] == 'collapse_by_mass' else y
            real = y.join(real) if e['ext'] == 'bh' else y
    b = Book(ctx)
    pool = [real]

    def lists(op):
        return pool[op['src'] % len(pool)]

    def quiet(y, f, what):
        """an operation on realizations whose halos have all been drawn consumes no random numbers"""
        done = all(b.full(h) for x in y for h in x.halos)
        s0 = rng.get_state()
        out = f()
        if done and rng.get_state() != s0: raise Violation('draws:' + what, '%s of halos whose properties were all drawn consumed random numbers' % what)
        ctx.state(what, sorted(set(type(h).__name__ for x in y for h in x.halos)), min(3, sum(b.full(h) for x in y for h in x.halos)), scn['mode'])
        return out

    def selected(y, res, what):
        """selections pass the same halos on"""
        known = {id(h) for x in y for h in x.halos}
        for h in res.halos:
            if id(h) not in known: raise Violation('identity', '%s made a new halo' % what)
        pool.append(res)

    for op in scn['ops']:
        y = lists(op)
        k = op['op']
        ctx.steps += 1
        n = len(y.halos)
        h = y.halos[op['h'] % n] if n else None
        if k == 'read' and n:
            look(b, h, op['name'], 'after %s' % sorted(b.of(h)))
            ctx.state('read', type(h).__name__, op['name'], len(b.of(h)), scn['mode'])
        elif k == 'all' and n:
            for nm in NAMES: look(b, h, nm, 'reading everything')
        elif k == 'allreal':
            for h in y.halos:
                for nm in NAMES: look(b, h, nm, 'reading everything')
        elif k == 'again' and n:
            for nm in sorted(b.of(h)): look(b, h, nm, 'read again')
        elif k == 'stop' and n and b.of(h):
            # a read stopped half way: what was known stays known
            cnt = faults.forked(lambda: faults.count_lines(lambda: read(h, op['name'])))[1]
            if not isinstance(cnt, int) or cnt < 2: continue
            faults.arm(1 + int(op['frac'] * (cnt - 1)), op['kind'])
            try:
                read(h, op['name'])
            except (Injected, InjectedInterrupt, InjectedMemoryError):
                pass
            finally:
                if faults.disarm()[1]: ctx.fault('read stopped by ' + op['kind'])
            for nm in sorted(b.of(h)): look(b, h, nm, 'after a read that was stopped')
        elif k in ('copy', 'pickle'):
            try:
                q = quiet([y], lambda: copy.deepcopy(y) if k == 'copy' else pickle.loads(pickle.dumps(y.halos)), k)
            except (AttributeError, TypeError, pickle.PicklingError):
                continue
            hs = q.halos if k == 'copy' else q
            for a, o in zip(hs, y.halos): b.inherit(a, o)
            if k == 'pickle':
                z = copy.copy(y)
                z.halos = hs
                q = z
            pool.append(q)
        elif k == 'halo_copy' and n:
            a = copy.deepcopy(h) if op['other'] % 2 else copy.copy(h)
            b.inherit(a, h)
            for nm in sorted(b.of(a)): look(b, a, nm, 'on a copy')
        elif k == 'export':
            from_export = quiet([y], lambda: y.lensing_quantities(add_mass_sheet_correction=False), 'export')
            for h in y.halos: look(b, h, 'lenstronomy_params', 'after an export')
        elif k == 'join':
            o = pool[op['other'] % len(pool)]
            selected([y, o], quiet([y, o], lambda: y.join(o), 'join'), k)
        elif k == 'filter':
            r = s.ray([0.1, 0.2, 0.0, 0.1])
            selected([y], quiet([y], lambda: y.filter(op['ap'], op['logm'], [r[0]], [r[1]]), k), k)
        elif k == 'filter_sub':
            selected([y], quiet([y], lambda: y.filter_subhalos(op['ap'], op['logm'], [0.0, 0.5], [0.0, 0.5]), k), k)
        elif k == 'bound':
            masses = sorted(v['bound_mass'] for v in (b.of(h) for h in y.halos if h.is_subhalo) if isinstance(v.get('bound_mass'), float))
            cut = masses[int(op['frac'] * len(masses))] if masses else 1e6
            try:
                res = quiet([y], lambda: y.filter_bound_mass(cut), k)
            except Exception as e:
                if type(e) is not Exception: raise          # classes without a bound mass refuse
                continue
            kept = {id(h) for h in res.halos}
            for h in y.halos:
                if h.is_subhalo:
                    mb = look(b, h, 'bound_mass', 'after a selection by bound mass')
                    if (mb >= cut) != (id(h) in kept): raise Violation('selection', 'bound mass %r, threshold %r, %s' % (mb, cut, 'kept' if id(h) in kept else 'discarded'))
            selected([y], res, k)
        elif k == 'split':
            for part in quiet([y], lambda: y.split_at_z(op['z']), k): selected([y], part, k)
        elif k == 'at_z':
            selected([y], quiet([y], lambda: W.at_z(y, op['z']), k), k)
        elif k == 'shift':
            rx, ry = s.ray(op['ray'])
            res = quiet([y], lambda: y.shift_background_to_source(rx, ry), k)
            for a, o in parents(res.halos, y.halos):
                if a is not o: b.inherit(a, o, moved=True)
            pool.append(res)
        elif k == 'from':
            from pyHalo.single_realization import Realization
            selected([y], quiet([y], lambda: Realization.from_halos(list(y.halos), y.lens_cosmo, y.kwargs_halo_model, y.apply_mass_sheet_correction, y.rendering_classes, geometry=y.geometry), k), k)
        elif k == 'batch':
            import pyHalo.Halos.batch_halo_util as B
            hs = [h for h in y.halos if type(h).__name__ in ('TNFWSubhalo', 'TNFWFieldHalo', 'NFWSubhhalo', 'NFWFieldHalo')]
            if not hs: continue
            b.tol = 1e-9            # the batch evaluates the same formulas in another order
            if op['f'] == 'precompute_realization':
                if len(hs) == n and all(h.mdef == 'TNFW' for h in hs): quiet([y], lambda: B.precompute_realization(y), k)
            elif op['f'] == 'precompute_infall_times': quiet([y], lambda: B.precompute_infall_times([h for h in hs if h.is_subhalo], s.lc), k)
            else: quiet([y], lambda: getattr(B, op['f'])(hs), k)
            for h in y.halos:
                for nm in sorted(b.of(h)): look(b, h, nm, 'after ' + op['f'])
            ctx.state('batch', n)
        elif k == 'ext' and O.applicable(y, op['e']):
            out = O.apply_ext(s, y, op['e'])
            res = out[1] if op['e']['ext'] == 'collapse_by_mass' else out
            known = {id(h): h for h in y.halos}
            for a, o in parents(res.halos, y.halos):
                if a is not o and op['e']['ext'] in O.ADDERS and op['e']['ext'] != 'uldm': b.inherit(a, o)
            pool.append(res)
    done = set()
    for y in pool:
        for h in y.halos:
            if id(h) in done: continue
            done.add(id(h))
            for nm in NAMES: look(b, h, nm, 'at the end')
    for y in pool:
        for h in y.halos:
            if id(h) not in done: continue
            done.discard(id(h))
            tn = getattr(getattr(h, '_truncation_class', None), 'name', '')
            if hasattr(h, '_concentration_class') and h._concentration_class is not None:
                consistent(h, tn, getattr(h._concentration_class, '_scatter', w['scatter']) and w['scatter'], h._concentration_class, ctx, None)
            for nm in NAMES: look(b, h, nm, 'at the very end')
            for nm in NAMES: ctx.log(nm, b.of(h)[nm])


def simplify(scn):
    hs = scn['world']['halos']
    for i in range(len(hs)):
        if len(hs) > 1: yield dict(scn, world=dict(scn['world'], halos=hs[:i] + hs[i + 1:]))
