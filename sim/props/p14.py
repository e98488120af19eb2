"""P14: Galacticus files on a simulated disk (failing reads, truncation, replacement between reads) and reads stopped at chosen lines; what is read, filtered
and turned into halos against the node table the simulator wrote, and the files left open."""
import gc, os, tempfile
import numpy as np
from sim import faults, rng, worlds as W
from sim.core import plain, same, Violation, Injected, InjectedInterrupt, InjectedMemoryError

PLAN = {'quick': dict(runs=300, wall=150, limit=60, min=100), 'thorough': dict(runs=16000, wall=780, limit=60, min=1000)}
RULE = 'distinct (operation, shape of the file, output asked for, parameters asked for, fault and outcome) combinations'
SHRINK = ['ops', 'files']
SIMTIME = 'none used: the property does not involve a clock'
REAL = ['pyHalo', 'h5py and the HDF5 library', 'numpy', 'scipy', 'colossus', 'astropy']
STUB = ['lenstronomy (stand-in with the published profiles)', 'disk under the HDF5 library (python file object with scripted read failures)', 'random numbers (seeded stream)']
BASE = ['positionOrbitalX', 'positionOrbitalY', 'positionOrbitalZ', 'densityNormalizationTidalTruncationNFW', 'radiusTidalTruncationNFW', 'darkMatterOnlyRadiusVirial',
        'darkMatterProfileScaleRadius', 'satelliteBoundMass', 'massHaloEnclosedCurrent', 'nodeIsIsolated', 'redshiftLastIsolated', 'concentration']
EXTRA = ['nodeHierarchyLevel', 'satellitePositionX', 'spheroidMassStellar']
CUSTOM = ['custom_treeIndex', 'custom_treeOutputOrder', 'id']


# ------------------------------------------------------------------ what is generated
def gen_file(r):
    sizes = [r.randint(1, 9) for _ in range(r.choice([1, 1, 2, 2, 3, 5]))]
    if r.random() < 0.15: sizes[r.randrange(len(sizes))] = 0
    outputs = r.choice([[1], [1], [1, 2], [9, 10], [2, 10, 1], [100, 99, 3], [7], [1, 2, 3, 12]])
    return dict(seed=r.randint(0, 2 ** 31), sizes=sizes, outputs=outputs, missing=[r.choice(BASE + EXTRA)] if r.random() < 0.12 else [], chunk=r.random() < 0.4,
                f4=r.random() < 0.2, odd=r.random() < 0.4, sub=r.random() < 0.3, junk=r.choice([[], [], ['OutputLast'], ['Outputx2', 'Version'], ['output50']]),
                index0=r.choice([1, 1, 1, 5, 40]), host=r.choice(['last', 'first', 'any']), matrix=r.random() < 0.3, relabel=r.random() < 0.1, beyond=r.random() < 0.5)


def generate(r, i, tier):
    files = [gen_file(r) for _ in range(r.randint(1, 3))]
    ops = []
    for _ in range(r.randint(3, 9)):
        k = r.choice(['read'] * 6 + ['fault'] * 3 + ['stop', 'stop', 'truncate', 'replace', 'replace', 'scribble', 'closed', 'filter', 'filter', 'filter', 'halos', 'halos', 'halos_fault', 'emulator'])
        op = dict(op=k, file=r.randrange(4), how=r.choice(['path', 'path', 'handle']), out=r.choice([None, None, None, 'last', 'first', 'first', 'absent']),
                  par=r.choice([None, None, 'str', 'list', 'list', 'tuple', 'set', 'unknown', 'empty']), which=r.sample(BASE + EXTRA, r.randint(1, 6)), nodes=r.random() < 0.8)
        if k in ('fault', 'stop', 'halos_fault'): op.update(frac=r.random(), kind=r.choice(['error', 'interrupt', 'memory']))
        if k == 'truncate': op['frac'] = r.random()
        if k == 'replace': op['spec'] = gen_file(r)
        if k == 'filter': op.update(lo=r.random(), hi=r.random(), key=r.choice(BASE), normal=[round(r.uniform(-1, 1), 3) for _ in range(3)], r2d=round(10 ** r.uniform(-2.3, 0), 4))
        if k in ('halos', 'halos_fault', 'emulator'):
            op.update(tree=r.randrange(4), lo=round(r.uniform(6.0, 7.5), 2), width=round(r.uniform(0.3, 4), 2), bound=r.random() < 0.6, theta=round(r.uniform(0, 3.14), 3), phi=round(r.uniform(0, 6.28), 3),
                      cone=round(r.uniform(3, 14), 2), zs=r.choice([1.0, 1.5, 2.3]), los=r.choice([0.0, 0.0, 0.0, 0.1]), model=r.choice(['CDM', 'CDM', 'WDM']), src=r.choice(['path', 'handle', 'dict', 'dict']),
                      pred=r.choice([None, None, None, 'heavy', 'all']), tab=r.random() < 0.2, extra=r.choice([None, None, ['nodeHierarchyLevel'], ['spheroidMassStellar', 'nodeHierarchyLevel']]),
                      seed=r.randint(0, 2 ** 31), n=r.choice([0, 1, 2, 5, 9]), zl=r.choice([0.3, 0.5, 0.7]), cb=r.random() < 0.2)
        ops.append(op)
    return dict(files=files, ops=ops)


def table(f, output):
    """node table of one output: the simulator's own account of the file"""
    g = np.random.default_rng([f['seed'], f['outputs'].index(output)])
    cols = {k: [] for k in BASE + EXTRA}
    for m in f['sizes']:
        h = np.zeros(m, int)
        if m: h[{'last': m - 1, 'first': 0, 'any': int(g.integers(m))}[f['host']]] = 1
        far = 0.4 if f['beyond'] else 0.02
        pos = g.uniform(-1, 1, (3, m)) * np.where(g.random(m) < 0.3, far, 0.03)
        pos[:, h == 1] = 0.0
        row = dict(zip(BASE[:3], pos))
        rs = 10 ** g.uniform(-3.6, -3.0, m)
        c = g.uniform(5, 20, m)
        minf = 10 ** g.uniform(6.5, 10, m)
        row.update(densityNormalizationTidalTruncationNFW=10 ** g.uniform(15, 16, m), radiusTidalTruncationNFW=10 ** g.uniform(-3.3, -2.3, m), darkMatterOnlyRadiusVirial=np.where(h, g.uniform(0.1, 0.4, m), 0.01),
                   darkMatterProfileScaleRadius=rs, satelliteBoundMass=minf * g.uniform(0.01, 0.9, m), massHaloEnclosedCurrent=minf, nodeIsIsolated=h, redshiftLastIsolated=g.uniform(0.5, 6, m), concentration=c,
                   nodeHierarchyLevel=np.where(h, 0, g.integers(1, 4, m)), satellitePositionX=g.uniform(-1, 1, m), spheroidMassStellar=10 ** g.uniform(3, 8, m))
        for k in cols: cols[k].append(row[k])
    out = {k: np.concatenate(v) for k, v in cols.items()}
    if f['f4']:
        for k in ('concentration', 'spheroidMassStellar', 'positionOrbitalX'): out[k] = out[k].astype('f4')
    n = sum(f['sizes'])
    if f['matrix']: out['positionHistory'] = g.random((n, 3))
    for k in f['missing']: out.pop(k, None)
    return out


def custom(f):
    s = f['sizes']
    return {'custom_treeIndex': np.concatenate([np.full(m, f['index0'] + j, int) for j, m in enumerate(s)]), 'custom_treeOutputOrder': np.concatenate([np.full(m, j, int) for j, m in enumerate(s)]),
            'id': np.arange(sum(s))}


def name_of(f, k):
    return {'satelliteBoundMass': 'basicMass', 'concentration': 'cVirial'}.get(k, k) if f['relabel'] else k


def write(path, f):
    import h5py
    n, s = sum(f['sizes']), f['sizes']
    with h5py.File(path, 'w') as h:
        top = h.create_group('Outputs')
        for o in f['outputs']:
            g = top.create_group('Output%d' % o)
            nd = g.create_group('nodeData')
            for k, v in table(f, o).items():
                nd.create_dataset(name_of(f, k), data=v, **(dict(chunks=(2,) + v.shape[1:], compression='gzip') if f['chunk'] and n >= 2 else {}))
            if f['odd']: nd.create_dataset('densityProfileRadius', data=np.arange(n + 3.0))
            if f['sub']: nd.create_group('metaData').create_dataset('concentration', data=np.zeros(n))
            g.create_dataset('mergerTreeIndex', data=np.arange(f['index0'], f['index0'] + len(s)))
            g.create_dataset('mergerTreeStartIndex', data=np.concatenate([[0], np.cumsum(s)[:-1]]).astype('i8'))
            g.create_dataset('mergerTreeCount', data=np.array(s, 'i8'))
        for j in f['junk']: top.create_group(j).create_group('nodeData')
        h.create_dataset('Version', data=np.arange(3))
    return path


def util(f):
    from pyHalo.Halos.galacticus_util.galacticus_util import GalacticusUtil
    if f['seed'] % 3: return UTIL.setdefault(f['relabel'], make_util(f, GalacticusUtil))        # the same reader for several files of one session
    return make_util(f, GalacticusUtil)


UTIL = {}


def make_util(f, GalacticusUtil):
    if not f['relabel']: return GalacticusUtil()

    class Other(GalacticusUtil):
        PARAM_MASS_BOUND = 'basicMass'
        PARAM_CONCENTRATION = 'cVirial'
    return Other()


# ------------------------------------------------------------------ the simulated disk
class Disk:
    """file object under the HDF5 library: read number k fails"""
    reads = 0

    def __init__(self, path, k=None, kind='error'):
        self.f, self.k, self.kind, self.n, self.hit = open(path, 'rb'), k, kind, 0, False

    def read(self, *a): return self.f.read(*a)
    def seek(self, *a): return self.f.seek(*a)
    def tell(self): return self.f.tell()
    def flush(self): pass

    def readinto(self, b):
        self.n += 1
        if self.k is not None and self.n >= self.k:      # the device stays broken: retrying does not help
            if self.kind != 'error' and self.hit: return self.f.readinto(b)
            self.hit = True
            raise OSError(5, 'simulated I/O error') if self.kind == 'error' else InjectedInterrupt('during a read') if self.kind == 'interrupt' else OSError(12, 'simulated: cannot allocate memory')
        return self.f.readinto(b)


class mount:
    """every h5py.File opened by path below the scratch directory reads through the simulated disk"""
    def __init__(self, k=None, kind='error'):
        self.k, self.kind, self.disks = k, kind, []

    def __enter__(self):
        import h5py
        self.cls = h5py.File
        self.orig = real = h5py.File.__init__
        me = self

        def init(f, name, *a, **kw):
            if isinstance(name, (str, bytes, os.PathLike)) and not (a and a[0] not in (None, 'r')) and kw.get('mode', 'r') in (None, 'r'):
                d = Disk(name, me.k, me.kind)
                me.disks.append(d)
                name = d
            return real(f, name, *a, **kw)
        h5py.File.__init__ = init
        return self

    def __exit__(self, *a):
        self.cls.__init__ = self.orig
        for d in self.disks: d.f.close()

    @property
    def reads(self): return sum(d.n for d in self.disks)

    @property
    def hit(self): return any(d.hit for d in self.disks)


def open_files():
    import h5py
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE | h5py.h5f.OBJ_DATASET | h5py.h5f.OBJ_GROUP)


class no_leak:
    """files and datasets open afterwards are the ones open before, whatever happened (looked at while the exception is still alive)"""
    def __init__(self, what): self.what, self.n = what, open_files()

    def check(self, how):
        n = open_files()
        if n != self.n: raise Violation('left open', '%s (%s): %d HDF5 objects open, %d before' % (self.what, how, n, self.n))


# ------------------------------------------------------------------ operations
def request(op, f):
    """arguments of the read and the columns it should return (None: raises)"""
    outs = f['outputs']
    out = {None: None, 'last': max(outs), 'first': min(outs), 'absent': 77}[op['out']]
    real = max(outs) if out is None else out
    p = op['par']
    names = {None: None, 'str': name_of(f, op['which'][0]), 'list': [name_of(f, k) for k in op['which']], 'tuple': tuple(name_of(f, k) for k in op['which']), 'set': set(name_of(f, k) for k in op['which']),
             'unknown': ['noSuchParameter'] + [name_of(f, k) for k in op['which']], 'empty': []}[p]
    if real not in outs: return out, names, None
    t = {name_of(f, k): v for k, v in table(f, real).items()}
    if f['odd'] and not op['nodes']: t['densityProfileRadius'] = np.arange(sum(f['sizes']) + 3.0)
    if names is not None: t = {k: v for k, v in t.items() if (k == names if p == 'str' else k in names)}
    t.update(custom(f))
    return out, names, t


def compare(got, ref, what):
    if not isinstance(got, dict): raise Violation('type', '%s: %s' % (what, type(got).__name__))
    if sorted(got) != sorted(ref):
        raise Violation('columns', '%s: columns missing %s, unexpected %s' % (what, sorted(set(ref) - set(got))[:6], sorted(set(got) - set(ref))[:6]))
    for k in ref:
        a = np.asarray(got[k])
        if a.shape != ref[k].shape: raise Violation('shape', '%s: %s has shape %s, the file holds %s' % (what, k, a.shape, ref[k].shape))
        if not np.array_equal(a.astype(float), ref[k].astype(float)): raise Violation('data', '%s: %s is %s, the file holds %s' % (what, k, a.ravel()[:5], ref[k].ravel()[:5]))


class Files:
    def __init__(self, scn):
        self.dir = tempfile.mkdtemp(prefix='gal-', dir=os.environ['HOME'])
        self.specs = [dict(f) for f in scn['files']] or [gen_file(__import__('random').Random(1))]
        self.paths = [write(os.path.join(self.dir, 'g%d.hdf5' % i), f) for i, f in enumerate(self.specs)]
        self.kept = []


def do_read(F, op, j, m=None):
    import h5py
    f, p = F.specs[j], F.paths[j]
    out, names, ref = request(op, f)
    u = util(f)
    kw = dict(output_index=out, params_to_read=names, nodes_only=op['nodes'])
    if op['how'] == 'path': return u.read_nodedata_galacticus(p, **kw)
    with h5py.File(p, 'r') as h:
        x = u.hdf5_read_galacticus_nodedata(h, **kw)
        if not h: raise Violation('closed', 'the file handed in was closed')
        h['Version'][0]
        return x


def read(F, op, ctx, note='read'):
    j = op['file'] % len(F.specs)
    f = F.specs[j]
    out, names, ref = request(op, f)
    before = plain(names) if not isinstance(names, set) else sorted(names)
    what = '%s output %s parameters %r nodes_only %s of trees %s, outputs %s' % (note, out, names, op['nodes'], f['sizes'], f['outputs'])
    leak = no_leak(what)
    ctx.state(note, op['how'], op['out'], op['par'], op['nodes'], len(f['sizes']), 0 in f['sizes'], len(f['outputs']), f['odd'], f['chunk'])
    if ref is None:
        try:
            x = do_read(F, op, j)
        except (Injected, InjectedInterrupt, Violation):
            raise
        except Exception as e:
            leak.check(type(e).__name__)
            ctx.fault('output not in the file')
            return
        raise Violation('absent output', '%s: returned %s' % (what, sorted(x)[:4] if isinstance(x, dict) else x))
    x = do_read(F, op, j)
    leak.check('returned')
    compare(x, ref, what)
    after = plain(names) if not isinstance(names, set) else sorted(names)
    if before != after: raise Violation('arguments', '%s: list of parameters changed' % what)
    F.kept.append((x, {k: v.copy() for k, v in ref.items()}, what))
    del F.kept[:-4]
    ctx.log('read', sorted(x), [float(np.sum(np.asarray(v, float))) for v in x.values()])


def check_kept(F):
    for x, ref, what in F.kept: compare(x, ref, 'kept from ' + what)


def faulty(F, op, ctx):
    """read number k of the device fails: an exception or exactly the data, nothing left open; the next read is exact"""
    j = op['file'] % len(F.specs)
    f = F.specs[j]
    out, names, ref = request(op, f)
    if ref is None: return
    with mount() as m:
        do_read(F, op, j)
        n = m.reads
    if not n: raise Violation('disk', 'nothing was read from the disk: the answer does not come from the file')
    k = 1 + int(op['frac'] * n)
    what = 'read %d of %d fails (%s)' % (k, n, op['kind'])
    with mount(k, op['kind']) as m:
        leak = no_leak(what)
        try:
            x = do_read(F, op, j)
            how = 'returned'
        except Violation:
            raise
        except BaseException as e:
            how = type(e).__name__
            leak.check(how)
            if op['kind'] == 'interrupt' and m.hit and not isinstance(e, (KeyboardInterrupt, OSError, RuntimeError, KeyError)): raise
            x = None
        if m.hit: ctx.fault('disk read fails (%s)' % op['kind'])
        leak.check(how)
    ctx.state('fault', op['how'], op['kind'], min(4, int(5 * op['frac'])), how, len(f['sizes']))
    if x is not None: compare(x, ref, what)
    gc.collect()
    read(F, op, ctx, 'read after a failing one')


def stop(F, op, ctx):
    j = op['file'] % len(F.specs)
    if request(op, F.specs[j])[2] is None: return
    n = faults.forked(lambda: faults.count_lines(lambda: do_read(F, op, j)))[1]
    if not isinstance(n, int) or n < 2: return
    leak = no_leak('read stopped')
    how = 'returned'
    faults.arm(1 + int(op['frac'] * (n - 1)), op['kind'])
    try:
        do_read(F, op, j)
    except (Injected, InjectedInterrupt, InjectedMemoryError) as e:
        faults.disarm()
        how = type(e).__name__
        leak.check(how)
    finally:
        fired = faults.disarm()[1]
    if fired: ctx.fault('read stopped by ' + op['kind'])
    if fired and how == 'returned': raise Violation('swallowed', 'a read stopped by %s returned as if nothing had happened' % op['kind'])
    ctx.state('stop', op['kind'], min(4, int(5 * op['frac'])), how)
    read(F, op, ctx, 'read after a stopped one')


def truncate(F, op, ctx):
    """the tail of the file is lost: an exception, or every value as written"""
    j = op['file'] % len(F.specs)
    p = F.paths[j]
    size = os.path.getsize(p)
    data = open(p, 'rb').read()
    with open(p, 'wb') as h: h.write(data[:int(op['frac'] * size)])
    ctx.fault('file truncated')
    ref = request(op, F.specs[j])[2]
    leak = no_leak('truncated file')
    x = None
    try:
        x = do_read(F, op, j)
        how = 'returned'
    except Violation: raise
    except Exception as e:
        how = type(e).__name__
        leak.check(how)
    leak.check(how)
    ctx.state('truncate', int(6 * op['frac']), how, op['how'])
    if x is not None: compare(x, ref or {}, 'file truncated to %d of %d bytes' % (int(op['frac'] * size), size))
    with open(p, 'wb') as h: h.write(data)
    read(F, op, ctx, 'read of the restored file')


def replace(F, op, ctx):
    """another file takes the place of the one read before (same path and modification time)"""
    j = op['file'] % len(F.specs)
    if op['spec']['seed'] % 2: read(F, op, ctx, 'read before the file is replaced')
    st = os.stat(F.paths[j])
    F.specs[j] = dict(op['spec'])
    write(F.paths[j] + '.new', F.specs[j])
    os.utime(F.paths[j] + '.new', ns=(st.st_atime_ns, st.st_mtime_ns))
    os.replace(F.paths[j] + '.new', F.paths[j])
    ctx.fault('file replaced between reads')
    read(F, op, ctx, 'read of the new file')


def scribble(F, op, ctx):
    read(F, op, ctx, 'read before scribbling')
    for x, ref, what in F.kept:
        for v in x.values():
            if isinstance(v, np.ndarray) and v.flags.writeable: v[...] = 0
    F.kept.clear()
    ctx.fault('caller overwrites what was read')
    read(F, op, ctx, 'read after scribbling')


def closed(F, op, ctx):
    import h5py
    j = op['file'] % len(F.specs)
    h = h5py.File(F.paths[j], 'r')
    h.close()
    leak = no_leak('closed handle')
    try:
        x = util(F.specs[j]).hdf5_read_galacticus_nodedata(h)
    except Exception as e:
        leak.check(type(e).__name__)
        ctx.fault('handle closed before the read')
        return
    raise Violation('closed handle', 'returned %s' % (sorted(x)[:3] if isinstance(x, dict) else x))


# ------------------------------------------------------------------ filters and halos
def complete(f):
    return not f['missing'] and all(f['sizes'])


def nodes(F, j):
    f = F.specs[j]
    t = {name_of(f, k): v for k, v in table(f, max(f['outputs'])).items()}
    t.update(custom(f))
    return t


def rows(t):
    return [{k: v[i] for k, v in t.items()} for i in range(len(t['id']))]


def virialized(R):
    hosts = [r['darkMatterOnlyRadiusVirial'] for r in R if r['nodeIsIsolated'] != 0]        # one host per tree
    return [float(np.sqrt(sum(float(r[k]) ** 2 for k in BASE[:3]))) < hosts[r['custom_treeOutputOrder']] for r in R]


def check_mask(got, ref, what, unsure=None):
    got = np.asarray(got)
    if got.shape != (len(ref),): raise Violation('mask', '%s: mask of shape %s for %d nodes' % (what, got.shape, len(ref)))
    bad = [i for i in range(len(ref)) if bool(got[i]) != bool(ref[i]) and not (unsure and unsure[i])]
    if bad: raise Violation('mask', '%s: node %d %s' % (what, bad[0], 'kept' if got[bad[0]] else 'dropped'))


def filters(F, op, ctx):
    from pyHalo.Halos.galacticus_util import galacticus_filter as gf
    j = op['file'] % len(F.specs)
    f = F.specs[j]
    if not complete(f): return
    u = util(f)
    t = nodes(F, j)
    keep = {k: v.copy() for k, v in t.items()}
    R = rows(t)
    sub = gf.nodedata_filter_subhalos(t, u)
    check_mask(sub, [r['nodeIsIsolated'] == 0 for r in R], 'subhalo filter')
    check_mask(gf.nodedata_filter_halos(t, u), [r['nodeIsIsolated'] != 0 for r in R], 'host filter')
    for tr in (f['index0'], f['index0'] + len(f['sizes']) - 1, f['index0'] - 1):
        tree = gf.nodedata_filter_tree(t, tr, u)
        check_mask(tree, [r['custom_treeIndex'] == tr for r in R], 'tree filter %d' % tr)
    check_mask(gf.nodedata_filter_virialized(t, u), virialized(R), 'virial filter')
    key = name_of(f, op['key'])
    v = np.sort(np.asarray(t[key], float))
    lo, hi = v[int(op['lo'] * (len(v) - 1))] * (1 - 1e-6) - 1e-12, v[int(op['hi'] * (len(v) - 1))] * (1 + 1e-6) + 1e-12
    rng_ = gf.nodedata_filter_range(t, (lo, hi), key, u)
    check_mask(rng_, [lo < float(r[key]) < hi for r in R], 'range filter %s' % key)
    nrm = np.array(op['normal']) if any(op['normal']) else np.array([0., 0., 1.])
    un = nrm / np.sqrt(np.sum(nrm ** 2))
    d = [float(np.linalg.norm(np.cross([float(r[k]) for k in BASE[:3]], un))) for r in R]
    check_mask(gf.nodedata_filter_r2d(t, op['r2d'], nrm, u), [q < op['r2d'] for q in d], 'projected radius filter', [abs(q / op['r2d'] - 1) < 1e-6 for q in d])
    pr = gf.project_r2d(*[t[k] for k in BASE[:3]], nrm)
    if np.any(np.abs(np.asarray(pr) - d) > 1e-8 + 1e-6 * np.array(d)): raise Violation('projection', '%s, expected %s' % (pr[:4], d[:4]))
    both = sub & rng_
    a = gf.nodedata_apply_filter(t, both, u)
    compare(a, {k: v[np.asarray(both)] for k, v in keep.items()}, 'filtered table')
    i = int(op['lo'] * (len(R) - 1))
    one = gf.nodedata_select_subhalo(t, i, u)
    for k in keep:
        if np.any(np.asarray(one[k]) != keep[k][i]): raise Violation('select', 'node %d: %s is %r, stored %r' % (i, k, one[k], keep[k][i]))
    compare(t, keep, 'table after filtering')
    ctx.state('filter', op['key'], len(f['sizes']), f['host'], f['relabel'], f['beyond'])


def halo_args(F, op, j, how):
    f = F.specs[j]
    u = util(f)
    tree = f['index0'] + op['tree'] % len(f['sizes'])
    mass = u.PARAM_MASS_BOUND if op['bound'] else u.PARAM_MASS_INFALL
    kw = dict(z_source=op['zs'], cone_opening_angle_arcsec=op['cone'], tree_index=tree, log_mlow_galacticus=op['lo'], log_mhigh_galacticus=op['lo'] + op['width'], mass_range_is_bound=op['bound'],
              proj_angle_theta=op['theta'], proj_angle_phi=op['phi'], preset_model_los=op['model'], LOS_normalization=op['los'])
    if op['los']: kw['log_mlow'] = 8.0
    if op['model'] == 'WDM': kw['log_mc'] = 7.5
    if f['relabel']: kw['galacticus_utilities'] = u
    if op['extra']: kw['galacticus_params_additional'] = list(op['extra'])
    if op['pred'] == 'heavy': kw['nodedata_filter'] = lambda nd, g: nd[g.PARAM_MASS_INFALL] > 1e8
    if op['pred'] == 'all': kw['nodedata_filter'] = lambda nd, g: np.ones(len(nd[g.PARAM_MASS_INFALL]), bool)
    if op['tab']:
        kw['galacticus_tabulate_tnfw_params'] = lambda nd, g: dict(rhos=nd[g.PARAM_TNFW_RHO_S] / 1e9, rs=2e3 * nd[g.PARAM_RADIUS_SCALE], r_trunc_kpc=1e3 * nd[g.PARAM_TNFW_RADIUS_TRUNCATION], rv=3e4 * nd[g.PARAM_RADIUS_SCALE],
                                                                   z_infall=nd[g.PARAM_Z_LAST_ISOLATED], index=nd[g.PARAM_NODE_ID])
    return kw, tree, mass


def expected(F, op, j, asec, tree, mass):
    """(node rows kept, projection matrix perpendicular to the normal), None where a node lies on a limit"""
    t = nodes(F, j)
    R = rows(t)
    st, ct, sp, cp = np.sin(op['theta']), np.cos(op['theta']), np.sin(op['phi']), np.cos(op['phi'])
    P = np.eye(3) - np.outer([st * cp, st * sp, ct], [st * cp, st * sp, ct])
    vir = virialized(R)
    keep = []
    for i, r in enumerate(R):
        pos = 1e3 * np.array([float(r[k]) for k in BASE[:3]])
        d = float(np.linalg.norm(P @ pos))
        lim = op['cone'] / 2 * asec
        if op['pred'] == 'heavy': ok = float(r['massHaloEnclosedCurrent']) > 1e8
        elif op['pred'] == 'all': ok = True
        else:
            if abs(d / lim - 1) < 1e-3: return None, P
            ok = r['nodeIsIsolated'] == 0 and vir[i] and r['custom_treeIndex'] == tree and d < lim and 10 ** op['lo'] < float(r[mass]) < 10 ** (op['lo'] + op['width'])
        if ok: keep.append((r, pos))
    return keep, P


def make_halos(F, op, j):
    import h5py
    from pyHalo.PresetModels.external import DMFromGalacticus
    kw, tree, mass = halo_args(F, op, j, op['src'])
    extra = list(op['extra']) if op['extra'] else None
    rng.mode_real(op['seed'])
    if op['src'] == 'path': real = DMFromGalacticus(F.paths[j], **kw)
    elif op['src'] == 'handle':
        with h5py.File(F.paths[j], 'r') as h:
            real = DMFromGalacticus(h, **kw)
            h['Version'][0]
    else:
        t = nodes(F, j)
        keep = {k: v.copy() for k, v in t.items()}
        real = DMFromGalacticus(t, **kw)
        compare(t, keep, 'table handed in')
    if kw.get('galacticus_params_additional') != extra: raise Violation('arguments', 'galacticus_params_additional is %s' % kw['galacticus_params_additional'])
    return real, tree, mass


def los_reference(op, zl, **kw):
    from pyHalo.preset_models import preset_model_from_name
    rng.mode_real(op['seed'])
    if op['los']: kw['log_mlow'] = 8.0
    if op['model'] == 'WDM': kw['log_mc'] = 7.5
    return preset_model_from_name(op['model'])(zl, op['zs'], sigma_sub=0.0, cone_opening_angle_arcsec=op['cone'], LOS_normalization=op['los'], **kw)


def compare_los(real, ref, subs, what):
    a = [h for h in real.halos if not any(h is s for s in subs)]
    fa = sorted((h.z, h.mass, h.x, h.y, h.mdef, h.is_subhalo) for h in a)
    fb = sorted((h.z, h.mass, h.x, h.y, h.mdef, h.is_subhalo) for h in ref.halos)
    d = same(fa, fb, 1e-9)
    if d: raise Violation('line of sight', '%s: %d halos besides the subhalos, the preset alone gives %d (%s)' % (what, len(fa), len(fb), d))


def check_subs(subs, keep, P, asec, z, what, tab, u):
    by = {}
    for h in subs:
        i = int(h.id)
        if i in by: raise Violation('halos', '%s: node %d made two halos' % (what, i))
        by[i] = h
    want = [int(r['id']) for r, _ in keep]
    if sorted(by) != sorted(want): raise Violation('halos', '%s: nodes %s became halos, the filters keep %s' % (what, sorted(by)[:12], sorted(want)[:12]))
    Q, X = [], []
    for r, pos in keep:
        h = by[int(r['id'])]
        c, rs = float(r[u.PARAM_CONCENTRATION]), float(r['darkMatterProfileScaleRadius'])
        ref = dict(mass=float(r['massHaloEnclosedCurrent']), z=z, r3d=float(np.linalg.norm(pos)), z_infall=float(r['redshiftLastIsolated']))
        p = dict(rs=1e3 * rs, rv=1e3 * c * rs, r_trunc_kpc=1e3 * float(r['radiusTidalTruncationNFW']), rhos=4e-9 * float(r['densityNormalizationTidalTruncationNFW']))
        if tab: p.update(rs=2e3 * rs, rv=3e4 * rs, rhos=p['rhos'] / 4)
        got = dict(mass=float(h.mass), z=h.z, r3d=float(h.r3d), z_infall=float(h.z_infall))
        d = same(got, ref, 1e-6) or same({k: float(h.params_physical[k]) for k in p}, p, 1e-6)
        if d: raise Violation('node values', '%s: node %d: %s' % (what, int(r['id']), d))
        if not h.is_subhalo: raise Violation('node values', '%s: node %d is not a subhalo' % (what, int(r['id'])))
        Q.append(P @ pos / asec)
        X.append([float(h.x), float(h.y)])
        kwl = h.lenstronomy_params[0][0]
        if abs(kwl['Rs'] * asec / p['rs'] - 1) > 5e-3 or abs(kwl['r_trunc'] * asec / p['r_trunc_kpc'] - 1) > 1e-6: raise Violation('lens model', '%s: Rs %r arcsec for %r kpc' % (what, kwl['Rs'], p['rs']))
        if abs(kwl['center_x'] - h.x) > 1e-4 or abs(kwl['center_y'] - h.y) > 1e-4: raise Violation('lens model', '%s: exported centre' % what)
    if Q:
        Q, X = np.array(Q), np.array(X)
        d = np.abs(Q @ Q.T - X @ X.T).max()
        if d > 1e-6 * max(1.0, np.abs(Q @ Q.T).max()): raise Violation('projection', '%s: positions are not the projection along the direction asked for (%g)' % (what, d))


def halos(F, op, ctx):
    from pyHalo.Halos.HaloModels.TNFWFromParams import TNFWFromParams
    j = op['file'] % len(F.specs)
    f = F.specs[j]
    u = util(f)
    leak = no_leak('DMFromGalacticus')
    if not complete(f):
        if op['src'] == 'dict' or not all(f['sizes']): return
        used = BASE[:6] + ['darkMatterProfileScaleRadius', 'massHaloEnclosedCurrent', 'nodeIsIsolated', 'redshiftLastIsolated'] + ['satelliteBoundMass'] * op['bound'] + ['concentration'] * (not op['tab'])
        need = [k for k in f['missing'] if k in used and not op['pred']]
        if not need: return
        try:
            real, _, _ = make_halos(F, op, j)
        except KeyError as e:
            leak.check('KeyError')
            ctx.fault('dataset missing')
            ctx.state('halos', 'missing', need[0])
            return
        raise Violation('missing', 'a realization was made from a file without %s' % need)
    real, tree, mass = make_halos(F, op, j)
    leak.check('returned')
    asec = real.lens_cosmo.cosmo.kpc_proper_per_asec(0.5)
    keep, P = expected(F, op, j, asec, tree, mass)
    if keep is None: return
    subs = [h for h in real.halos if isinstance(h, TNFWFromParams)]
    what = 'DMFromGalacticus(%s) tree %d' % (op['src'], tree)
    check_subs(subs, keep, P, asec, 0.5, what, op['tab'], u)
    if op['los']: compare_los(real, los_reference(op, 0.5), subs, what)
    elif len(subs) != len(real.halos): raise Violation('line of sight', '%s: %d halos that are no subhalos' % (what, len(real.halos) - len(subs)))
    ctx.state('halos', op['src'], min(len(keep), 4), op['pred'], op['tab'], op['bound'], bool(op['los']), f['host'], len(f['sizes']))
    ctx.log('halos', len(real.halos), [float(h.x) for h in real.halos[:5]])


def halos_fault(F, op, ctx):
    """the device fails while the file is read for a realization: no realization, nothing left open, and the next attempt is complete"""
    j = op['file'] % len(F.specs)
    if not complete(F.specs[j]): return
    op = dict(op, src='path' if op['src'] == 'dict' else op['src'], los=0.0)
    with mount() as m:
        do_read(F, dict(op, how=op['src'], out=None, par='list', which=BASE, nodes=True), j)
        n = m.reads
    with mount(1 + int(op['frac'] * n), op['kind']) as m:
        leak = no_leak('DMFromGalacticus on a failing disk')
        try:
            make_halos(F, op, j)
            how = 'returned'
        except Violation: raise
        except BaseException as e:
            how = type(e).__name__
            leak.check(how)
        leak.check(how)
        if m.hit: ctx.fault('disk read fails (%s)' % op['kind'])
        if m.hit and how == 'returned' and op['kind'] == 'error': raise Violation('swallowed', 'a realization was made although the disk failed')
    ctx.state('halos_fault', op['src'], op['kind'], how)
    halos(F, op, ctx)


def emulator(F, op, ctx):
    """rows of an emulator become halos one by one; with a line of sight, the other halos are the preset's"""
    from pyHalo.PresetModels.external import DMSubhalosFromEmulator, JointLOSWithEmulator
    g = np.random.default_rng(op['seed'])
    n = op['n']
    m = 10 ** g.uniform(6, 10, n)
    data = [m, g.uniform(4, 30, n), m * g.uniform(0.01, 0.9, n), g.uniform(op['zl'], 8, n), 10 ** g.uniform(-4, -2, n), g.uniform(-0.02, 0.02, n), g.uniform(-0.02, 0.02, n)]
    keep = [v.copy() for v in data]
    if op['cb']:
        def broken(): raise Injected('emulator fails')
        try:
            DMSubhalosFromEmulator(op['zl'], op['zs'], broken, op['cone'])
        except Injected:
            ctx.fault('emulator fails')
        else: raise Violation('emulator', 'a failing emulator gave a realization')
    joint = op['src'] != 'path' and n > 0
    if joint:
        rng.mode_real(op['seed'])
        kw = dict(log_mc=7.5) if op['model'] == 'WDM' else {}
        if op['los']: kw['log_mlow'] = 8.0
        real = JointLOSWithEmulator(op['zl'], op['zs'], lambda: data, op['cone'], op['model'], sigma_sub=0.0, LOS_normalization=op['los'], **kw)
    else:
        real = DMSubhalosFromEmulator(op['zl'], op['zs'], lambda: data, cone_opening_angle_arcsec=op['cone'])
    for a, b in zip(data, keep):
        if not np.array_equal(a, b): raise Violation('arguments', 'the arrays the emulator returned were changed')
    from pyHalo.Halos.HaloModels.TNFWFromParams import TNFWFromParams
    subs = [h for h in real.halos if isinstance(h, TNFWFromParams)]
    if len(subs) != n: raise Violation('halos', '%d halos for %d rows' % (len(subs), n))
    lc = real.lens_cosmo
    a = lc.cosmo.astropy
    asec = lc.cosmo.kpc_proper_per_asec(op['zl'])
    rc = a.critical_density(op['zl']).to('Msun/kpc3').value
    left = list(subs)
    for i in range(n):
        h = [q for q in left if float(q.mass) == float(keep[0][i])]
        if len(h) != 1: raise Violation('halos', 'row %d became %d halos' % (i, len(h)))
        h = h[0]
        c = float(keep[1][i])
        rv = (3 * float(keep[0][i]) / (4 * np.pi * 200 * rc)) ** (1 / 3)
        ref = dict(x=keep[5][i] * 1e3 / asec, y=keep[6][i] * 1e3 / asec, z=op['zl'], z_infall=keep[3][i], c=c, rv=rv, rs=rv / c, rt=1e3 * keep[4][i], rhos=200 / 3 * rc * c ** 3 / (np.log(1 + c) - c / (1 + c)))
        p = h.params_physical
        got = dict(x=h.x, y=h.y, z=h.z, z_infall=h.z_infall, c=h.c, rv=p['rv'], rs=p['rs'], rt=p['r_trunc_kpc'], rhos=p['rhos'])
        d = same({k: float(v) for k, v in got.items()}, {k: float(v) for k, v in ref.items()}, 1e-3)
        if d: raise Violation('row values', 'row %d: %s' % (i, d))
    if joint and op['los']: compare_los(real, los_reference(op, op['zl']), subs, 'JointLOSWithEmulator')
    elif len(real.halos) != n: raise Violation('halos', '%d halos for %d rows' % (len(real.halos), n))
    ctx.state('emulator', min(n, 3), joint, op['model'], bool(op['los']))


OPS = dict(read=read, fault=faulty, stop=stop, truncate=truncate, replace=replace, scribble=scribble, closed=closed, filter=filters, halos=halos, halos_fault=halos_fault, emulator=emulator)


def execute(scn, ctx):
    W.lens_cosmo(0.5, 1.5, 0)
    F = Files(scn)
    base = open_files()
    for op in scn['ops']:
        ctx.steps += 1
        rng.mode_real(op.get('seed', 7))
        OPS[op['op']](F, op, ctx)
        check_kept(F)
        if open_files() != base: raise Violation('left open', 'after %s: %d HDF5 objects open' % (op['op'], open_files()))
