"""Randomness seam.

pyHalo draws from numpy's module-level functions (numpy.random.*) and from scipy.stats distributions, which use the same
global generator.  install() puts a dispatcher in front of both, before pyHalo is imported.  Modes:

 real       the untouched numpy global generator
 script     every uniform quantile comes from a function supplied by the simulation (constant, list, or stream addressed
            by the calling function), every other distribution is computed from that quantile by inversion
 buggify    real draws, some of them replaced by legal extremes of the distribution
"""
import sys, hashlib
import numpy as np
from scipy.special import ndtri, pdtrik

ORIG = {}
BELOW_ONE = 1.0 - 2.0 ** -53
NAMES = ['rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform', 'normal', 'standard_normal', 'randn', 'lognormal', 'poisson',
         'choice', 'randint', 'exponential', 'permutation', 'shuffle', 'beta', 'gamma', 'binomial', 'multinomial',
         'integers', 'power', 'pareto', 'rayleigh', 'triangular', 'chisquare', 'vonmises', 'weibull', 'standard_exponential']


class State:
    mode = 'real'
    quant = None       # script: callable(n, site) -> array of n quantiles in [0, 1)
    pois = None        # script/buggify: callable(lam) -> count, or None for inversion
    bug = None         # buggify: numpy Generator
    p_extreme = 0.0
    z_extreme = 6.0
    max_poisson = 40
    calls = 0
    log = None
    tap = None         # callable(name, args, result) after each draw


S = State()


def _site():
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if '/pyHalo/' in fn:
            return fn.rsplit('/pyHalo/', 1)[1] + ':' + f.f_code.co_name
        f = f.f_back
    return 'outside'


def _n(size, *bc):
    if size is not None:
        shape = (size,) if np.ndim(size) == 0 else tuple(size)
        shape = tuple(int(s) for s in shape)
        return shape
    return np.broadcast(*[np.asarray(b) for b in bc]).shape if bc else ()


def _q(shape, site):
    n = int(np.prod(shape)) if shape else 1
    q = np.asarray(S.quant(n, site), dtype=float).reshape(shape if shape else ())
    return q


def _ret(v, shape):
    return v if shape else float(v)


def _scripted(name, a, k):
    site = _site()
    if name in ('rand', 'randn'):
        shape = tuple(int(x) for x in a)
        q = _q(shape, site)
        return _ret(q if name == 'rand' else ndtri(np.clip(q, 1e-300, BELOW_ONE)), shape)
    if name in ('random', 'random_sample', 'ranf', 'sample'):
        shape = _n(a[0] if a else k.get('size'))
        return _ret(_q(shape, site), shape)
    if name == 'standard_normal':
        shape = _n(a[0] if a else k.get('size'))
        return _ret(ndtri(np.clip(_q(shape, site), 1e-16, BELOW_ONE)), shape)
    if name == 'uniform':
        lo = a[0] if len(a) > 0 else k.get('low', 0.0)
        hi = a[1] if len(a) > 1 else k.get('high', 1.0)
        shape = _n(a[2] if len(a) > 2 else k.get('size'), lo, hi)
        return _ret(np.asarray(lo) + (np.asarray(hi) - np.asarray(lo)) * _q(shape, site), shape)
    if name in ('normal', 'lognormal'):
        mu = a[0] if len(a) > 0 else k.get('loc', k.get('mean', 0.0))
        sg = a[1] if len(a) > 1 else k.get('scale', k.get('sigma', 1.0))
        if np.any(np.asarray(sg) < 0): raise ValueError('scale < 0')
        shape = _n(a[2] if len(a) > 2 else k.get('size'), mu, sg)
        v = np.asarray(mu) + np.asarray(sg) * ndtri(np.clip(_q(shape, site), 1e-16, BELOW_ONE))
        return _ret(np.exp(v) if name == 'lognormal' else v, shape)
    if name == 'exponential':
        sc = a[0] if a else k.get('scale', 1.0)
        shape = _n(a[1] if len(a) > 1 else k.get('size'), sc)
        return _ret(-np.asarray(sc) * np.log1p(-_q(shape, site)), shape)
    if name == 'poisson':
        lam = a[0] if a else k.get('lam', 1.0)
        if np.any(np.asarray(lam) < 0) or np.any(np.isnan(lam)): raise ValueError('lam < 0 or lam is NaN')
        shape = _n(a[1] if len(a) > 1 else k.get('size'), lam)
        if S.pois is not None:
            v = np.array([0 if l == 0 else S.pois(float(l)) for l in np.broadcast_to(lam, shape).ravel()], dtype=int).reshape(shape)
        else:
            q = _q(shape, site)
            lam = np.broadcast_to(np.asarray(lam, float), shape)
            v = np.where(lam > 0, np.maximum(0, np.ceil(pdtrik(np.clip(q, 1e-12, BELOW_ONE), np.maximum(lam, 1e-12)))), 0).astype(int)
        return v if shape else int(v)
    if name == 'choice':
        arr = a[0] if a else k['a']
        size = a[1] if len(a) > 1 else k.get('size')
        rep = a[2] if len(a) > 2 else k.get('replace', True)
        p = a[3] if len(a) > 3 else k.get('p')
        arr = np.arange(arr) if np.ndim(arr) == 0 else np.asarray(arr)
        if p is not None:
            p = np.asarray(p, float)
            if np.any(p < 0) or abs(p.sum() - 1) > 1e-6 or len(p) != len(arr) or np.any(np.isnan(p)):
                raise ValueError('probabilities do not sum to 1')
        if not rep:
            return ORIG['choice'](*a, **k)
        shape = _n(size)
        q = _q(shape, site)
        if p is None:
            idx = np.minimum((q * len(arr)).astype(int), len(arr) - 1)
        else:
            cdf = np.cumsum(p); cdf /= cdf[-1]
            idx = np.searchsorted(cdf, q, side='right')
        return arr[idx]
    if name == 'randint':
        lo = a[0] if a else k['low']; hi = a[1] if len(a) > 1 else k.get('high')
        if hi is None: lo, hi = 0, lo
        shape = _n(a[2] if len(a) > 2 else k.get('size'), lo, hi)
        v = np.minimum(np.floor(lo + (hi - lo) * _q(shape, site)), hi - 1).astype(int)
        return v if shape else int(v)
    return ORIG[name](*a, **k)


def _bugged(name, a, k):
    v = ORIG[name](*a, **k)
    g = S.bug
    if g.random() >= S.p_extreme:
        return v
    arr = np.array(v, dtype=float if name not in ('poisson', 'randint') else None, ndmin=1, copy=True)
    if arr.size == 0 or name in ('permutation', 'shuffle', 'choice'):
        return v
    whole = g.random() < 0.4
    mask = np.ones(arr.shape, bool) if whole else g.random(arr.shape) < 0.3
    if name in ('rand', 'random', 'random_sample', 'ranf', 'sample'):
        arr[mask] = g.choice([0.0, 2.0 ** -53, 1e-12, 0.5, 1 - 1e-12, BELOW_ONE], size=int(mask.sum()))
    elif name == 'uniform':
        lo = np.broadcast_to(np.asarray(a[0] if len(a) > 0 else k.get('low', 0.0), float), arr.shape)
        hi = np.broadcast_to(np.asarray(a[1] if len(a) > 1 else k.get('high', 1.0), float), arr.shape)
        q = g.choice([0.0, 2.0 ** -53, 1e-12, 0.5, 1 - 1e-12, BELOW_ONE], size=arr.shape)
        ext = lo + (hi - lo) * q
        arr[mask] = ext[mask]
    elif name in ('normal', 'standard_normal', 'randn', 'lognormal'):
        if name in ('normal', 'lognormal'):
            mu = np.asarray(a[0] if len(a) > 0 else k.get('loc', k.get('mean', 0.0)), float)
            sg = np.asarray(a[1] if len(a) > 1 else k.get('scale', k.get('sigma', 1.0)), float)
        else:
            mu, sg = np.asarray(0.0), np.asarray(1.0)
        t = mu + sg * g.choice([-1, 0, 1], size=arr.shape) * g.uniform(3, S.z_extreme, size=arr.shape)
        t = np.broadcast_to(t, arr.shape)
        arr[mask] = (np.exp(t) if name == 'lognormal' else t)[mask]
    elif name == 'poisson':
        lam = np.broadcast_to(np.asarray(a[0] if a else k.get('lam', 1.0), float), arr.shape)
        ext = np.array([0 if l == 0 else g.choice([0, 1, 2, int(min(l + 6 * np.sqrt(l) + 3, max(S.max_poisson, l + 3)))]) for l in lam.ravel()]).reshape(arr.shape)
        arr[mask] = ext[mask]
    else:
        return v
    if np.ndim(v) == 0:
        return type(v)(arr.ravel()[0]) if not isinstance(v, np.ndarray) else arr.reshape(())
    return arr


def _dispatch(name):
    orig = ORIG[name]

    def f(*a, **k):
        if S.mode == 'real' and S.tap is None:
            return orig(*a, **k)
        S.calls += 1
        if S.mode == 'script':
            r = _scripted(name, a, k)
        elif S.mode == 'buggify':
            r = _bugged(name, a, k)
        else:
            r = orig(*a, **k)
        if S.tap is not None:
            S.tap(name, a, k, r)
        return r
    f.__name__ = name
    return f


class ProxyState(np.random.RandomState):
    """random_state handed to scipy.stats distributions: routes to the dispatcher, shares the real global state"""
    def _g(self, name):
        return getattr(np.random, name)

    def uniform(self, *a, **k): return np.random.uniform(*a, **k)
    def random(self, *a, **k): return np.random.random_sample(*a, **k)
    def random_sample(self, *a, **k): return np.random.random_sample(*a, **k)
    def standard_normal(self, *a, **k): return np.random.standard_normal(*a, **k)
    def normal(self, *a, **k): return np.random.normal(*a, **k)
    def poisson(self, *a, **k): return np.random.poisson(*a, **k)


def install():
    for n in NAMES:
        if hasattr(np.random, n):
            ORIG[n] = getattr(np.random, n)
    for n in list(ORIG):
        setattr(np.random, n, _dispatch(n))


_scipy_saved = {}


def _scipy_route(on):
    import scipy.stats as st
    for nm in ('truncnorm', 'johnsonsu', 'norm', 'uniform', 'lognorm', 'poisson'):
        d = getattr(st, nm)
        if nm not in _scipy_saved:
            _scipy_saved[nm] = d._random_state
        d._random_state = ProxyState() if on else _scipy_saved[nm]


def mode_real(seed=None):
    S.mode, S.tap, S.pois = 'real', None, None
    _scipy_route(False)
    if seed is not None:
        np.random.seed(seed % (2 ** 32))


def mode_buggify(seed, p=0.2, z=6.0, max_poisson=40):
    np.random.seed(seed % (2 ** 32))
    S.mode, S.bug, S.p_extreme, S.z_extreme, S.max_poisson = 'buggify', np.random.default_rng(seed), p, z, max_poisson
    S.pois = None
    _scipy_route(True)


def mode_script(quant, pois=None):
    S.mode, S.quant, S.pois = 'script', quant, pois
    _scipy_route(True)


def constant(q):
    return lambda n, site: np.full(n, q)


def addressed(seed, key=None):
    """stream addressed by (key(), calling function, counter): independent of the order of calls to other functions"""
    counters = {}

    def quant(n, site):
        addr = (key() if key else '', site)
        c = counters.get(addr, 0)
        counters[addr] = c + 1
        h = hashlib.sha256(repr((seed, addr, c)).encode()).digest()
        return np.random.Generator(np.random.PCG64(int.from_bytes(h[:16], 'big'))).random(n)
    return quant


def lazy_constant(q, seed):
    """draws made by halo, concentration and truncation classes take the constant quantile q (so that the order in which lazy
    properties are read cannot matter); everything else gets a stream per calling function"""
    a = addressed(seed)
    return lambda n, site: np.full(n, q) if site.startswith('Halos/') else a(n, site)


def stream(seed):
    g = np.random.default_rng(seed)
    return lambda n, site: g.random(n)


def get_state():
    st = np.random.get_state()
    return (st[0], st[1].tobytes(), st[2], st[3], st[4])


def save():
    return np.random.get_state()


def restore(st):
    np.random.set_state(st)
