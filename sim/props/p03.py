"""P03: several client sessions, each with its own cosmology, redshifts and models, interleaved call by call in one process under a seeded
scheduler, with bystander calls that fail half-way; every step must give what it gives when its session runs alone."""
import numpy as np
from sim import calls, faults, rng, ops as O, worlds as W
from sim.core import plain, same, Violation, INJECTED

PLAN = {'quick': dict(runs=90, wall=200, limit=120, min=60), 'thorough': dict(runs=9000, wall=800, limit=120, min=500)}
RULE = 'distinct (query, session cosmology, cosmology of the session that ran just before, fault) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'
FAULTS = ['error', 'interrupt', 'memory']
KW = [None, {}, {'H0': 73.0, 'Om0': 0.25}, {'Om0': 0.35, 'sigma8': 0.7}, {'H0': 66.0, 'Om0': 0.3, 'Ob0': 0.05, 'sigma8': 0.9, 'ns': 0.94}, {'sigma8': 0.6}]
QUERIES = ['dist', 'dist', 'conc', 'conc', 'mf', 'mf', 'twohalo', 'infall', 'render', 'read', 'read', 'export', 'sheet', 'moment', 'nfw', 'ext', 'preset', 'newlc', 'trunc', 'shift', 'age', 'colossus', 'precompute', 'direct', 'direct']


def gen_session(r):
    w = O.gen_world(r, 1, 5)
    w['tsub'] = r.choice([0, 1, 2, 3, 4, 5, 8])
    w['tfield'] = r.choice([0, 1, 2, 3, 5])
    w['csub'], w['cfield'] = r.choice([0, 1, 2]), r.choice([0, 1, 2, 3, 4, 5])
    return dict(world=w, kw=r.randint(0, len(KW) - 1), infall=r.choice(['HYBRID_INFALL', 'GALACTICUS_2024', 'DIRECT_INFALL', 'INFALL_ZLENS']))


def generate(r, i, tier):
    ns = r.choice([2, 2, 3])
    ses = [gen_session(r) for _ in range(ns)]
    steps = [dict(s=j, q='open') for j in range(ns)]
    for _ in range(r.randint(5, 12)):
        j = r.randrange(ns)
        steps.append(dict(s=j, q=r.choice(QUERIES), a=r.randint(0, 40), z=round(r.uniform(0.15, 1.1), 3), lm=round(r.uniform(6.2, 9.8), 2),
                          e=O.gen_ext(r, ses[j]['world'])))
    # sessions open early, but not necessarily all before the first query
    head, tail = steps[:ns], steps[ns:]
    for h in head[1:]:
        first = next((k for k, t in enumerate(tail) if t['s'] == h['s']), len(tail))
        tail.insert(r.randint(0, first), h)
    ops = [head[0]] + [t for t in tail if t['s'] != head[0]['s'] or t['q'] != 'open']
    for _ in range(r.choice([0, 0, 1, 2])):
        ops.insert(r.randint(1, len(ops)), dict(s=-1, spec=calls.gen_call(r, ('helper', 'helper', 'ext', 'preset')), fault=r.choice(FAULTS), k=int(10 ** r.uniform(0, 4.3))))
    return dict(sessions=ses, ops=ops)


class Client:
    def __init__(self, spec, seed):
        self.spec, self.w, self.s = spec, spec['world'], None
        rng.mode_real(seed)
        self.state = rng.save()

    def open(self):
        from pyHalo.Cosmology.cosmology import Cosmology
        from pyHalo.Halos.lens_cosmo import LensCosmo
        w, kw = self.w, KW[self.spec['kw']]
        c = Cosmology() if kw is None else Cosmology(None, dict(kw))
        m = self.spec['infall']
        lc = LensCosmo(w['zl'], w['zs'], c, m, {'log_m_host': 13.1} if m in ('HYBRID_INFALL', 'DIRECT_INFALL') else {})
        s = O.Session.__new__(O.Session)
        s.w, s.lc = w, lc
        s.geo = W.geometry(lc, w['angle'])
        s.model = W.halo_model(lc, w['tsub'], w['tfield'], w['csub'], w['cfield'], w['scatter'])
        s.rc = W.rendering_classes(lc, s.geo, w['zl'], w['zs'], 0.3)
        s.pool = [W.realization(lc, w['halos'], s.model, s.geo, s.rc, w['sheets'])]
        s.dmax = lc.cosmo.D_C_z(w['zs'])
        self.s = s
        return [lc.sigma_crit_lensing, s.dmax]

    def step(self, op):
        q = op['q']
        if q == 'open': return plain(self.open())
        s, lc, z = self.s, self.s.lc, op['z']
        c = lc.cosmo
        m = 10 ** op['lm']
        p = s.pool[op['a'] % len(s.pool)]
        h = p.halos[op['a'] % len(p.halos)] if p.halos else None
        if q == 'dist': return plain([c.D_A_z(z), c.D_A(z, z + 0.5), c.D_C_z(z), c.D_C_transverse(z), c.kpc_proper_per_asec(z), c.E_z(z), c.rho_crit(z), c.rho_dark_matter_crit])
        if q == 'age': return plain([c.halo_age(z), c.halo_age(z, zform=3.0), c.astropy.age(z).value])
        if q == 'conc':
            k = 'concentration_model_subhalos' if op['a'] % 2 else 'concentration_model_field_halos'
            return plain(s.model[k].nfw_concentration(m, z))
        if q in ('mf', 'moment'):
            from pyHalo.Rendering.MassFunctions.density_peaks import ShethTormen, ShethTormenTurnover, ShethTormenMixedWDM
            lo, hi = [(7., 10.), (6.5, 9.), (7.5, 9.5)][op['a'] % 5 % 3]
            kw = dict(log_mlow=lo, log_mhigh=hi, LOS_normalization=0.3, m_pivot=1e8, delta_power_law_index=0.0, draw_poisson=True)
            cls = ShethTormen
            if op['a'] % 3 == 0:
                cls = ShethTormenTurnover
                kw.update(log_mc=7.6, a_wdm=1.9, b_wdm=0.8, c_wdm=-1.0)
            if op['a'] % 3 == 1:
                cls = ShethTormenMixedWDM
                kw.update(log_mc=7.6, a_wdm=1.9, b_wdm=0.8, c_wdm=-1.0, mixed_DM_frac=0.4)
            f = cls.from_redshift(z, 0.05, s.geo, kw)
            return plain(f.draw()) if q == 'mf' else plain([f.n_mean, f.first_moment])
        if q == 'twohalo': return plain([lc.twohaloterm(np.array([0.7, 2.0]), 1e13, w_z(lc)), lc.two_halo_boost(1e13, w_z(lc))])
        if q == 'infall': return plain([lc.z_accreted_from_zlens(m) for _ in range(3)])
        if q == 'render': return plain(list(s.rc[op['a'] % 2].render()))
        if q == 'read': return plain(W.obs_halo(h)) if h is not None else None
        if q == 'export': return calls.observe(p)['export']
        if q == 'sheet': return plain(s.rc[op['a'] % 2].convergence_sheet_correction(1.0, 7.0, 10.0))
        if q == 'nfw': return plain([lc.nfw_physical2angle(m, 12.0, z), lc.NFW_params_physical(m, 12.0, z), lc.rN_M(m, z, 200), lc.mthermal_to_halfmode(4.0), lc.get_sigma_crit_lensing(z, z + 0.4)])
        if q == 'trunc':
            return plain(h.profile_args) if h is not None and h.is_subhalo else None
        if q == 'newlc':
            from pyHalo.Halos.lens_cosmo import LensCosmo
            l = LensCosmo(self.w['zl'], self.w['zs'], c)
            return plain([l.z_accreted_from_zlens(m), l.sigma_crit_lensing, l.two_halo_boost(1e13, w_z(l))])
        if q == 'shift':
            s.pool.append(p.shift_background_to_source(*s.ray([0.1, 0.2, -0.1, 0.3])))
            return calls.observe(s.pool[-1], False)
        if q == 'colossus':
            from colossus.lss import peaks
            c.colossus
            return plain([peaks.peakHeight(m, z), peaks.massVariance if False else c.colossus.H0])
        if q == 'direct':
            # objects made (or filled) now, from the session's LensCosmo alone
            k = op['a'] % 6
            if k == 0: return plain(lc.NFW_params_physical_fromMZ(m, z))
            if k == 1:
                from pyHalo.Halos.tidal_truncation import TruncateMeanDensity
                t = TruncateMeanDensity(lc)
                return plain([t._concentration_cdm.nfw_concentration(m, z)])
            if k == 2:
                from pyHalo.Rendering.SpatialDistributions.nfw import ProjectedNFW
                return plain(list(ProjectedNFW.from_Mhost(1e13, lc.z_lens, 3.0, 0.3, lc).draw(3)))
            if k == 3:
                from pyHalo.Halos.HaloModels.TNFW import TNFWFieldHalo
                x = TNFWFieldHalo.simple_setup(m, 0.1, 0.2, z, 5.0, lc)
                return plain([x.c, x.nfw_params, x.lenstronomy_params[0]])
            if k == 4:
                from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo
                x = TNFWSubhalo.simple_setup(m, 0.4, lc.z_lens + 0.6, 0.1, 0.2, lc.z_lens, lc)
                return plain([x.c, x.nfw_params, x.lenstronomy_params[0], x.bound_mass])
            from pyHalo.Halos.tidal_truncation import TruncationSplashBack
            return plain(TruncationSplashBack(lc).truncation_radius(m, z))
        if q == 'precompute':
            from pyHalo.Halos.batch_halo_util import precompute_realization
            if not all(type(x).__name__.startswith('TNFW') for x in p.halos): return None
            precompute_realization(p)
            return plain([x.c for x in p.halos])
        if q == 'ext':
            e = op['e']
            if not O.applicable(p, e) or len(s.pool) > 3: return None
            y = O.apply_ext(s, p, e)
            y = y[1] if e['ext'] == 'collapse_by_mass' else y
            s.pool.append(y)
            return calls.observe(y, False)
        if q == 'preset':
            kw = KW[self.spec['kw']]
            f = calls.preset_fn(['CDM', 'WDM'][op['a'] % 2])
            k = dict(log_mlow=7.7, log_mhigh=9.5, cone_opening_angle_arcsec=2.0, LOS_normalization=0.2, sigma_sub=0.02, lens_plane_spacing=0.1,
                     kwargs_cosmo=None if kw is None else dict(calls.FULL, **kw))
            if op['a'] % 2: k['log_mc'] = 7.5
            return calls.observe(f(self.w['zl'], self.w['zs'], **k))
        raise KeyError(q)

    def run(self, op):
        rng.restore(self.state)
        try:
            return self.step(op)
        finally:
            self.state = rng.save()


def w_z(lc): return lc.z_lens


def alone(scn, j):
    c = Client(scn['sessions'][j], scn['seed'] + j)
    return [c.run(op) for op in scn['ops'] if op['s'] == j and (c.s is not None or op['q'] == 'open')]


def execute(scn, ctx):
    n = len(scn['sessions'])
    want = []
    for j in range(n):
        st, v = faults.forked(lambda: alone(scn, j))
        if st != 'ok':
            alone(scn, j)
            raise RuntimeError('fork: %s %s' % (st, v))
        want.append(v)
    cl = [Client(scn['sessions'][j], scn['seed'] + j) for j in range(n)]
    pos = [0] * n
    prev = None
    for op in scn['ops']:
        ctx.steps += 1
        j = op['s']
        if j < 0:
            faults.arm(op['k'], op['fault'])
            try:
                calls.do(op['spec'])
            except INJECTED:
                pass
            except Exception:
                pass
            finally:
                if faults.disarm()[1]: ctx.fault('%s inside a bystander call' % op['fault'])
            prev = 'fault'
            continue
        if cl[j].s is None and op['q'] != 'open': continue
        got = cl[j].run(op)
        d = same(want[j][pos[j]], got)
        if d:
            raise Violation('interference:' + op['q'], 'session %d (cosmology %s), step %s after %s: %s' % (j, KW[scn['sessions'][j]['kw']], op['q'], prev, d))
        pos[j] += 1
        ctx.state(op['q'], scn['sessions'][j]['kw'], prev)
        ctx.log(op['q'], j, got)
        if prev is not None and prev != scn['sessions'][j]['kw']: ctx.fault('switch of session (other cosmology)')
        prev = scn['sessions'][j]['kw']
