"""P02: a program making several calls that share its argument objects, some calls failing or interrupted part-way: after every call each
shared object is as the program made it, and each call gives what it gives in an untouched copy of the process with fresh objects."""
import json
import numpy as np
from sim import calls, faults, rng
from sim.core import same, Violation, INJECTED

PLAN = {'quick': dict(runs=75, wall=200, limit=120, min=40), 'thorough': dict(runs=6000, wall=800, limit=120, min=400)}
RULE = 'distinct (call, fault, arguments shared or repeated, outcome) combinations'
SHRINK = ['ops']
SIMTIME = 'none used: the property does not involve a clock'
GROUPS = [('infall_redshift_model', 'kwargs_infall_model'), ('truncation_model_subhalos', 'kwargs_truncation_model_subhalos', 'subhalo_spatial_distribution'),
          ('truncation_model_fieldhalos', 'kwargs_truncation_model_fieldhalos'), ('concentration_model_subhalos', 'kwargs_concentration_model_subhalos'),
          ('concentration_model_fieldhalos', 'kwargs_concentration_model_fieldhalos'), ('mass_function_model_fieldhalos', 'kwargs_mass_function_fieldhalos'),
          ('add_globular_clusters', 'kwargs_globular_clusters'), ('kwargs_cosmo',), ('kwargs_density_profile',), ('flucs', 'flucs_args', 'flucs_shape'),
          ('kwargs_concentration_model',), ('galacticus_hdf5', 'tree_index'), ('galacticus_params_additional',)]
FAULTS = ['error', 'interrupt', 'memory']


def tag(sp):
    return sp['c'] + ':' + str(sp.get('name') or sp.get('k') or (sp.get('e') or {}).get('ext') or ','.join(sp.get('pops', [])))


def generate(r, i, tier):
    ops = []
    names = [n for n in set(calls.PRESETS)]
    base = r.choice(sorted(names))
    share = r.random() < 0.6
    first = calls.gen_preset(r, [base])
    for j in range(r.choice([2, 3, 3] if tier == 'quick' else [2, 3, 5])):
        if share:
            sp = calls.gen_preset(r, [base])
            # groups of keyword arguments of the first call come back, as the same objects, or are left out as it left them out
            for grp in GROUPS:
                if r.random() < 0.5:
                    for k in grp:
                        sp['kw'].pop(k, None)
                        if k in first['kw']: sp['kw'][k] = first['kw'][k]
        else:
            sp = calls.gen_call(r, ('preset', 'render', 'ext', 'ext', 'helper', 'helper'))
        op = dict(spec=sp, repeat=r.random() < 0.4)
        if r.random() < 0.3:
            op.update(fault=r.choice(FAULTS), k=int(10 ** r.uniform(0, 4.3)))
        ops.append(op)
    return dict(ops=ops)


def compared(ops, j):
    op = ops[j]
    return not op.get('fault') and (j == len(ops) - 1 or op['repeat'] or op['spec']['c'] != 'preset')


def check_args(memo, call, before_memo, before, what):
    for key, v in memo.items():
        now = calls.snap(v)
        if now != before_memo[key]:
            raise Violation('argument:' + what, '%s changed an object shared by the calls: %s -> %s' % (what, before_memo[key], now))
    d = same(before, calls.snap([call.args, call.kwargs]))
    if d:
        raise Violation('argument:' + what, '%s changed its arguments: %s' % (what, d))


def execute(scn, ctx):
    memo, wants = {}, {}
    for j, op in enumerate(scn['ops']):
        if compared(scn['ops'], j):
            st, wants[j] = faults.forked(lambda: calls.do(op['spec']))
            if st != 'ok':
                calls.do(op['spec'])
                raise RuntimeError('fork: %s %s' % (st, wants[j]))
    for j, op in enumerate(scn['ops']):
        ctx.steps += 1
        sp, what = op['spec'], tag(op['spec'])
        rng.mode_real(sp['seed'] ^ 0x5eed)
        call = calls.build(sp, memo)
        memo_before = {k: calls.snap(v) for k, v in memo.items()}
        before = calls.snap([call.args, call.kwargs])
        rng.mode_real(sp['seed'])
        err, got = None, None
        if op.get('fault'): faults.arm(op['k'], op['fault'])
        try:
            got = calls.observe(call())
        except INJECTED:
            err = 'injected'
        except Exception as e:
            if not op.get('fault'): raise
            err = type(e).__name__
        finally:
            if op.get('fault'):
                if faults.disarm()[1]: ctx.fault('%s inside a call' % op['fault'])
        check_args(memo, call, memo_before, before, what)
        if j in wants:
            d = same(wants[j], got)
            if d: raise Violation('result:' + what, '%s with shared argument objects, after %s: %s' % (what, [tag(o['spec']) for o in scn['ops'][:j]], d))
        if op['repeat'] and err is None and (sp['c'] in ('preset', 'render') or sp.get('k') in ('cosmology', 'lens_cosmo', 'preset_conc', 'preset_mf', 'geometry', 'massfn', 'corr', 'conc', 'realization')):
            # the same argument objects once more (concentration models keep a table, good to 1e-3, that grows with use)
            rng.mode_real(sp['seed'])
            again = calls.observe(call())
            check_args(memo, call, memo_before, before, what)
            d = same(got, again, rtol=1e-3 if sp.get('k') == 'conc' or sp['c'] == 'render' else 0.0)
            if d: raise Violation('repeat:' + what, '%s called again with the same argument objects: %s' % (what, d))
            ctx.count('repeated with the same objects')
        ctx.state(what, op.get('fault'), err, j, len(memo), op['repeat'])
        ctx.log(what, err)
        ctx.count('shared argument objects', len(memo))


def simplify(scn):
    for i, o in enumerate(scn['ops']):
        for c in ([dict(o, repeat=False)] if o['repeat'] else []) + ([{k: v for k, v in o.items() if k not in ('fault', 'k')}] if o.get('fault') else []):
            yield dict(scn, ops=scn['ops'][:i] + [c] + scn['ops'][i + 1:])
        if o['spec']['c'] == 'preset':
            for k in o['spec']['kw']:
                if k not in ('z_lens', 'z_source'):
                    sp = dict(o['spec'], kw={a: b for a, b in o['spec']['kw'].items() if a != k})
                    yield dict(scn, ops=scn['ops'][:i] + [dict(o, spec=sp)] + scn['ops'][i + 1:])
