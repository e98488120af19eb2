"""Synthetic Galacticus outputs: node data as dictionaries and as HDF5 files."""
import os, tempfile
import numpy as np

DIR = None


def gen(spec):
    """(list of trees, each a dict name -> array) for one output"""
    g = np.random.default_rng(spec['seed'])
    n, trees = spec['nodes'], []
    sizes = spec.get('sizes') or [int(n + i) for i in range(spec['trees'])]
    for t, m in enumerate(sizes):
        host = np.zeros(m, int)
        if m: host[-1] = 1
        d = {'positionOrbitalX': g.uniform(-0.02, 0.02, m), 'positionOrbitalY': g.uniform(-0.02, 0.02, m), 'positionOrbitalZ': g.uniform(-0.02, 0.02, m),
             'satellitePositionX': g.uniform(-1, 1, m), 'densityNormalizationTidalTruncationNFW': 10 ** g.uniform(15, 16, m), 'radiusTidalTruncationNFW': 10 ** g.uniform(-3.3, -2.3, m),
             'darkMatterOnlyRadiusVirial': np.where(host, 0.3, 0.01), 'darkMatterProfileScaleRadius': 10 ** g.uniform(-3.6, -3.0, m),
             'satelliteBoundMass': 10 ** g.uniform(6.5, 8.5, m), 'massHaloEnclosedCurrent': 10 ** g.uniform(7.0, 9.0, m), 'nodeIsIsolated': host,
             'redshiftLastIsolated': g.uniform(0.6, 4.0, m), 'concentration': g.uniform(5, 20, m), 'nodeHierarchyLevel': 1 - host}
        trees.append(d)
    return trees


def flat(spec):
    t = gen(spec)
    return {k: np.concatenate([q[k] for q in t]) for k in t[0]}, [len(q['concentration']) for q in t]


def nodedata(spec):
    """what reading the file should give (dictionary form accepted by DMFromGalacticus)"""
    d, sizes = flat(spec)
    out = {k: v.copy() for k, v in d.items()}
    n = sum(sizes)
    out['custom_treeIndex'] = np.repeat(np.arange(1, len(sizes) + 1), sizes).astype(int)
    out['custom_treeOutputOrder'] = np.repeat(np.arange(len(sizes)), sizes).astype(int)
    out['id'] = np.arange(n)
    return out


def write(path, spec):
    import h5py
    with h5py.File(path, 'w') as f:
        for k, o in enumerate(spec.get('outputs', [1])):
            d, sizes = flat(dict(spec, seed=spec['seed'] + 1000 * k if k < len(spec.get('outputs', [1])) - 1 else spec['seed']))
            g = f.create_group('Outputs/Output%d' % o)
            nd = g.create_group('nodeData')
            for q, v in d.items():
                if q not in spec.get('missing', []):
                    nd.create_dataset(q, data=v)
            if spec.get('odd'):
                nd.create_dataset('densityProfileRadius', data=np.arange(sum(sizes) + 3.0))
            g.create_dataset('mergerTreeIndex', data=np.arange(1, len(sizes) + 1))
            g.create_dataset('mergerTreeStartIndex', data=np.concatenate([[0], np.cumsum(sizes)[:-1]]).astype(int))
            g.create_dataset('mergerTreeCount', data=np.array(sizes, int))
    return path


def path(spec):
    global DIR
    base = os.environ.get('HOME') if os.environ.get('HOME', '').startswith(tempfile.gettempdir()) else tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix='gal-', dir=base)
    return write(os.path.join(d, 'g.hdf5'), spec)
