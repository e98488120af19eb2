"""P01: a seeded call after an arbitrary history of other calls (some failing, some interrupted, under a jumping clock) against the same
call in an untouched copy of the process, and against a process of its own with another hash seed."""
import time
import numpy as np
from sim import calls, faults, rng
from sim.core import same, Violation, INJECTED

PLAN = {'quick': dict(runs=100, wall=200, limit=120, min=40), 'thorough': dict(runs=6000, wall=800, limit=120, min=400)}
RULE = 'distinct (kinds of call in the history, fault, target call) combinations'
SHRINK = ['ops']
SIMTIME = 'clock behind a seam (time.time returns simulated seconds, jumping by up to 10^6 s); sim_time is not accumulated'
FAULTS = ['error', 'interrupt', 'memory']
REAL_TIME = time.time


def tag(sp):
    return sp['c'] + ':' + str(sp.get('name') or sp.get('k') or (sp.get('e') or {}).get('ext') or ','.join(sp.get('pops', [])))


def gen_hist(r):
    op = dict(spec=calls.gen_call(r, ('preset', 'preset', 'render', 'ext', 'ext', 'helper', 'helper', 'helper')))
    if r.random() < 0.35:
        op.update(fault=r.choice(FAULTS), k=int(10 ** r.uniform(0, 4.3)))
    return op


def generate(r, i, tier):
    target = calls.gen_call(r, ('preset', 'preset', 'preset', 'render', 'ext', 'ext', 'helper'))
    n = r.choice([1, 2, 2, 3, 4] if tier == 'quick' else [2, 3, 4, 6])
    ops = [gen_hist(r) for _ in range(n)]
    if r.random() < 0.4 and target['c'] == 'preset':
        # the same function before, with other arguments: what is left behind in defaults shows here
        o = dict(spec=calls.gen_preset(r, [target['name']]))
        if r.random() < 0.4: o.update(fault=r.choice(FAULTS), k=int(10 ** r.uniform(0, 4.3)))
        ops.insert(r.randint(0, len(ops)), o)
    side = [calls.gen_helper(r, calls.CHEAP) for _ in range(3)]
    for q in side:
        # the same helper before, with other draws
        if r.random() < 0.5:
            o = dict(spec=dict(q, seed=r.randint(0, 2 ** 31)))
            if r.random() < 0.25: o.update(fault=r.choice(FAULTS), k=int(10 ** r.uniform(0, 2.5)))
            ops.insert(r.randint(0, len(ops)), o)
    return dict(target=target, side=side, ops=ops, fresh=r.random() < 0.12, hashseed=r.randint(1, 4000), clock=r.choice([0.0, 1e3, -1e6, 1e6]))


def result(sp):
    out = calls.do(sp)
    return dict(out=out, rng=calls.state_digest())


def results(scn):
    return [result(sp) for sp in [scn['target']] + scn.get('side', [])]


def execute(scn, ctx):
    t = scn['target']
    st, want = faults.forked(lambda: results(scn))
    if st != 'ok':
        results(scn)           # raises here, where the failure is attributed
        raise RuntimeError('fork: %s %s' % (st, want))
    if scn.get('fresh'):
        got = calls.fresh(t, scn['hashseed'])
        d = same(want[0]['out'], got)
        if d: raise Violation('fresh-process', '%s: in a process of its own, hash seed %d: %s' % (tag(t), scn['hashseed'], d))
        ctx.fault('fresh process, other hash seed and directory')
    now = [REAL_TIME()]

    def clock():
        now[0] += 0.25
        return now[0]
    time.time = clock
    try:
        for op in scn['ops']:
            ctx.steps += 1
            if op.get('fault'):
                faults.arm(op['k'], op['fault'])
            err = None
            try:
                calls.do(op['spec'])
            except INJECTED as e:
                err = 'injected'
            except Exception as e:
                # a call that fails on its own is part of the history
                err = type(e).__name__
            finally:
                if op.get('fault'):
                    _, fired, where = faults.disarm()
                    if fired: ctx.fault('%s inside a call' % op['fault'])
            ctx.state(tag(op['spec']), op.get('fault'), err, tag(t))
            ctx.log(tag(op['spec']), err)
        if scn['clock']:
            now[0] += scn['clock']
            ctx.fault('clock jump')
        got = results(scn)
    finally:
        time.time = REAL_TIME
    d = same(want, got)
    if d:
        raise Violation('history', '%s after %s: %s' % ([tag(t)] + [tag(q) for q in scn.get('side', [])], [tag(o['spec']) for o in scn['ops']], d))
    ctx.count('target ' + tag(t))
    ctx.log(got[0]['rng'])


def simplify(scn):
    for i, o in enumerate(scn['ops']):
        if o.get('fault'):
            c = dict(scn); c['ops'] = [dict(q) for q in scn['ops']]
            c['ops'][i] = dict(spec=o['spec'])
            yield c
    for i in range(len(scn.get('side', []))):
        yield dict(scn, side=scn['side'][:i] + scn['side'][i + 1:])
    if scn['clock']:
        yield dict(scn, clock=0.0)
    if scn['fresh']:
        yield dict(scn, fresh=False)
    for k in list(scn['target'].get('kw', {})):
        if k in ('z_lens', 'z_source'): continue
        c = dict(scn, target=dict(scn['target'], kw={a: b for a, b in scn['target']['kw'].items() if a != k}))
        yield c
