"""Seeded search over simulated runs: fork-per-run, minimisation, replay files, evidence."""
import importlib, json, os, select, signal, sys, time, traceback, hashlib, resource
from sim.core import *

PROPS = {}
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')


def load(pid):
    return importlib.import_module('sim.props.' + pid.lower())


# ------------------------------------------------------------------ one run
def _exec_here(mod, scn):
    """execute a scenario in this (forked) process, return a JSON-able result"""
    ctx = Ctx()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('SIM_DEBUG'):
        os.dup2(devnull, 2)
    from sim import rng
    out = dict(status='ok')
    try:
        rng.mode_real(scn.get('seed', 1))
        mod.execute(scn, ctx)
    except Violation as v:
        out = dict(status='violation', kind=v.kind, detail=v.detail)
    except BaseException as e:
        tb = e.__traceback__
        fr = frames_in_repo(tb)
        if fr and not isinstance(e, (SystemExit,)):
            f = fr[-1]
            where = os.path.relpath(f.filename, REPO) + ':' + f.name
            out = dict(status='violation', kind='exception:%s:%s' % (type(e).__name__, where),
                       detail='unexpected %s: %s at %s line %s\n%s' % (type(e).__name__, str(e)[:300], where, f.lineno,
                                                                       ''.join(traceback.format_tb(tb)[-6:])[:1500]))
        else:
            out = dict(status='harness', detail=''.join(traceback.format_exception(e))[-3000:])
    finally:
        try:
            import sim.faults as F
            F.disarm()
        except Exception:
            pass
    rng.S.mode = 'real'
    out['ctx'] = ctx.result()
    return out


def fork_run(mod, scn):
    """start a forked run, return (pid, fd)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            except Exception:
                pass
            res = _exec_here(mod, scn)
            data = json.dumps(res).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException as e:
            try:
                os.write(w, json.dumps(dict(status='harness', detail='child: %r' % (e,), ctx=Ctx().result())).encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def run_many(mod, scns, jobs=8, limit=120.0, deadline=None, stop_on=None):
    """run scenarios in order, at most `jobs` at a time; yields (index, scenario, result) in completion order.
    Stops launching new runs after `deadline` or once stop_on(result) is true."""
    active, it, stopped = {}, iter(enumerate(scns)), False
    exhausted = False
    while True:
        while not exhausted and not stopped and len(active) < jobs and (deadline is None or time.time() < deadline):
            try:
                i, s = next(it)
            except StopIteration:
                exhausted = True
                break
            pid, fd = fork_run(mod, s)
            active[fd] = [i, s, pid, b'', time.time()]
        if deadline is not None and time.time() >= deadline:
            stopped = True
        if not active:
            if exhausted or stopped:
                return
            continue
        rd, _, _ = select.select(list(active), [], [], 0.5)
        now = time.time()
        for fd in rd:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                active[fd][3] += chunk
                continue
            i, s, pid, data, t0 = active.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                res = json.loads(data)
            except Exception:
                res = dict(status='crash', kind='process-died', detail='the simulated process ended without a result', ctx=Ctx().result())
            res['wall'] = now - t0
            if stop_on and stop_on(res):
                stopped = True
            yield i, s, res
        for fd in list(active):
            i, s, pid, data, t0 = active[fd]
            if now - t0 > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del active[fd]
                res = dict(status='hang', kind='no-progress', detail='no result within %gs' % limit, ctx=Ctx().result(), wall=now - t0)
                if stop_on and stop_on(res):
                    stopped = True
                yield i, s, res


def run_one(mod, scn, limit=240.0):
    for _, _, res in run_many(mod, [scn], jobs=1, limit=limit):
        return res


def failing(res):
    return res['status'] in ('violation', 'hang', 'crash')


# ------------------------------------------------------------------ minimisation
def minimise(mod, scn, kind, budget=90.0, limit=120.0):
    """delta debugging over the lists named in scn['_shrink'] (default: ops), keeping the class of failure"""
    t_end = time.time() + budget
    keys = getattr(mod, 'SHRINK', ['ops'])

    def fails(cand):
        res = run_one(mod, cand, limit)
        return res if failing(res) and res.get('kind') == kind else None

    best = scn
    for key in keys:
        if not isinstance(best.get(key), list):
            continue
        n = 2
        while len(best[key]) >= 1 and time.time() < t_end:
            lst = best[key]
            size = max(1, len(lst) // n)
            chunks = [(i, min(len(lst), i + size)) for i in range(0, len(lst), size)]
            cands = []
            for a, b in chunks:
                c = dict(best); c[key] = lst[:a] + lst[b:]
                cands.append(c)
            hit = None
            for i, c, res in run_many(mod, cands, limit=limit, deadline=t_end):
                if failing(res) and res.get('kind') == kind and (hit is None or i < hit[0]):
                    hit = (i, c)
            if hit:
                best = hit[1]
                n = max(2, n - 1)
                if not best[key]:
                    break
            else:
                if size == 1:
                    break
                n = min(len(lst), n * 2)
    if hasattr(mod, 'simplify'):
        changed = True
        while changed and time.time() < t_end:
            changed = False
            for c in mod.simplify(best):
                if time.time() > t_end: break
                if fails(c):
                    best, changed = c, True
                    break
    return best


# ------------------------------------------------------------------ check driver
def scenarios(mod, pid, seed, n, tier):
    import random
    for i in range(n):
        s = stable_hash(seed, pid, tier, i) % (2 ** 31)
        r = random.Random(s)
        scn = mod.generate(r, i, tier)
        scn.setdefault('seed', s)
        scn['index'] = i
        yield scn


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == pid]


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, path)


def replay_file(path):
    """exit status 1 if the recorded violation shows again"""
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec['property'])
    prepare(mod)
    res = run_one(mod, rec['scenario'])
    if failing(res):
        print('replayed: %s: %s' % (res['kind'], res['detail']))
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 0 if False else 1
    if res['status'] == 'harness':
        print(res['detail'])
        return 2
    print('replay of %s: no violation' % path)
    return 0


def prepare(mod):
    from sim import boot
    boot.boot()
    if hasattr(mod, 'prepare'):
        mod.prepare()


def main(pid, tier, seed, args):
    t0 = time.time()
    mod = load(pid)
    prepare(mod)
    t_boot = time.time() - t0
    plan = mod.PLAN[tier]
    n, wall, limit = plan['runs'], plan.get('wall', 240 if tier == 'quick' else 780), plan.get('limit', 120)
    if args.runs:
        n = args.runs
    deadline = t0 + wall
    min_runs = plan.get('min', max(1, n // 4))
    known = known_findings(pid)
    agg = dict(faults={}, counts={}, states=set(), sim_time=0.0, steps=0)
    done, fails, harness, digests = 0, [], [], {}
    known_hit = {}

    def is_new(res):
        return failing(res) and not any(res['kind'] == k['kind'] for k in known)
    samples = []
    fixed = [dict(s, fixed=True) for s in getattr(mod, 'FIXED', [])]

    def all_scn():
        for s in fixed:
            yield s
        yield from scenarios(mod, pid, seed, n, tier)
    for i, s, res in run_many(mod, all_scn(), limit=limit, deadline=deadline, stop_on=is_new, jobs=args.jobs):
        done += 1
        c = res['ctx']
        for k in ('faults', 'counts'):
            for a, b in c[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg['states'].update(c['states'])
        agg['sim_time'] += c['sim_time']
        agg['steps'] += c['steps']
        if res['status'] == 'ok' and len(digests) < 6:
            digests[i] = (s, c['digest'])
        if len(samples) < 3 and res['status'] == 'ok':
            samples.append(dict(seed=s['seed'], scenario=json.dumps(s, default=str)[:600]))
        if res['status'] == 'harness':
            harness.append((i, s, res))
        elif failing(res):
            hit = [k for k in known if k['kind'] == res['kind']]
            if hit:
                known_hit.setdefault(hit[0]['kind'], (hit[0], s, res))
            else:
                fails.append((i, s, res))
    t_search = time.time() - t0 - t_boot
    rc = 0
    nviol = 0
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if fails:
        fails.sort(key=lambda f: f[0])
        i, s, res = fails[0]
        if res['status'] in ('hang', 'crash'):
            again = run_one(mod, s, limit * 2)
            if not failing(again):
                print('run %d: %s did not repeat' % (i, res['kind']), file=sys.stderr)
                fails = []
                rc = 2
            else:
                res = again
        if fails:
            kind = res['kind']
            small = minimise(mod, s, kind, budget=plan.get('shrink', 60), limit=limit * 2) if not args.no_shrink else s
            final = run_one(mod, small, limit * 2)
            if not (failing(final) and final['kind'] == kind):
                small, final = s, run_one(mod, s, limit * 2)
            path = os.path.join(REPLAYS, '%s-%s.json' % (pid, hashlib.sha256((kind + json.dumps(small, sort_keys=True, default=str)).encode()).hexdigest()[:10]))
            write_json(path, dict(property=pid, kind=kind, detail=final.get('detail', res['detail']), run=i, seed=s['seed'], verif_seed=seed,
                                  tier=tier, scenario=small, original_ops=len(s.get('ops', []))))
            print('run %d (seed %d): %s' % (i, s['seed'], kind))
            print(final.get('detail', res['detail']))
            print('minimised from %d to %d operations' % (len(s.get('ops', [])), len(small.get('ops', []))))
            rep = failing(final) and final['kind'] == kind
            print('replay reproduces: %s' % ('yes' if rep else 'NO'))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            rc = 1
            nviol = len(fails)
    # determinism self-test: same seed, same execution
    ndet = nondet = 0
    if rc == 0:
        for i, (s, d) in sorted(digests.items())[:4]:
            r2 = run_one(mod, s, limit * 2)
            ndet += 1
            if r2['status'] != 'ok' or r2['ctx']['digest'] != d:
                nondet += 1
    if harness and rc == 0:
        print('HARNESS ERROR in %d runs; first:\n%s' % (len(harness), harness[0][2]['detail']), file=sys.stderr)
        print(json.dumps(harness[0][1], default=str)[:1500], file=sys.stderr)
        rc = 2
    if rc == 0 and done - len(fixed) < min(min_runs, n):
        print('only %d of %d runs completed in the time allowed' % (done, n), file=sys.stderr)
        rc = 2
    wall_s = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=done, distinct_nontrivial=len(agg['states']), rule=getattr(mod, 'RULE', 'distinct observed end states of runs that did more than set up'),
                            runs_per_hour=round(done / max(t_search, 1e-3) * 3600), seeds_per_hour=round(done / max(t_search, 1e-3) * 3600),
                            simulated_time=getattr(mod, 'SIMTIME', 'no clock: simulated steps (API calls and injected events)'), steps=agg['steps'],
                            faults_injected=agg['faults'], counts=agg['counts'], known_findings_seen=sorted(known_hit),
                            determinism_reruns=ndet, determinism_mismatches=nondet, samples=samples,
                            real_components=getattr(mod, 'REAL', 'pyHalo (all code reached), numpy, scipy, astropy, colossus, h5py'),
                            stubbed_components=getattr(mod, 'STUB', 'lenstronomy (stand-in in /verif/stubs: profiles used by pyHalo written from their definitions)')),
              assumptions=getattr(mod, 'ASSUME', ['the lenstronomy stand-in behaves like the real package where pyHalo calls it']),
              wall_s=round(wall_s, 2), violations=nviol)
    write_json(os.path.join(EVID, pid + '.json'), ev)
    print('%s %s: %d runs, %d states, %d steps, faults %s, %.1fs (boot %.1fs) -> %s' %
          (pid, tier, done, len(agg['states']), agg['steps'], agg['faults'], wall_s, t_boot, {0: 'ok', 1: 'violation', 2: 'no answer'}[rc]))
    return rc
