"""Basic vocabulary of the simulator: violations, run context, value comparison, digests."""
import hashlib, json, math, os, sys, traceback
import numpy as np

REPO = os.environ.get('PYHALO_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this execution.  `kind` names the class of failure (the minimiser keeps it)."""
    def __init__(self, kind, detail=''):
        super().__init__(kind + ': ' + str(detail))
        self.kind, self.detail = kind, str(detail)[:2000]


class Injected(Exception):
    """A fault raised by the simulator inside pyHalo code."""


class InjectedInterrupt(KeyboardInterrupt):
    """A KeyboardInterrupt raised by the simulator inside pyHalo code."""


class InjectedMemoryError(MemoryError):
    """An allocation failure raised by the simulator inside pyHalo code."""


INJECTED = (Injected, InjectedInterrupt, InjectedMemoryError)


def stable_hash(*parts):
    h = hashlib.sha256('\x1f'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Ctx:
    """Per-run record: counters of faults, states reached, simulated time, observation log."""
    def __init__(self):
        self.faults, self.counts, self.states = {}, {}, set()
        self.sim_time = 0.0
        self.steps = 0
        self._log = hashlib.sha256()
        self.samples = []

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def state(self, *parts):
        self.states.add('%016x' % stable_hash(*parts))

    def log(self, *parts):
        self._log.update(repr(parts).encode())

    def result(self):
        return dict(faults=self.faults, counts=self.counts, states=sorted(self.states)[:200], sim_time=self.sim_time,
                    steps=self.steps, digest=self._log.hexdigest())


def frames_in_repo(tb):
    """innermost frame of a traceback lies in the code under test, or in a library called by it (not in the harness)"""
    fs = traceback.extract_tb(tb)
    # the seam of the random numbers refuses the arguments numpy refuses: that is the caller's error
    while fs and fs[-1].filename == os.path.join(VERIF, 'sim', 'rng.py'): fs.pop()
    last_harness = max([i for i, f in enumerate(fs) if f.filename.startswith(VERIF + os.sep + 'sim')
                        or f.filename.endswith('check.py')], default=-1)
    return [f for f in fs[last_harness + 1:] if f.filename.startswith(REPO + os.sep)]


# --------------------------------------------------------------------------- values
def plain(v, depth=0):
    """observable value -> nested python data (arrays to lists, dict sorted), floats kept exactly"""
    if depth > 12:
        return '...'
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, (float,)):
        return float(v)
    if isinstance(v, np.generic):
        return plain(v.item(), depth)
    if isinstance(v, np.ndarray):
        return [plain(x, depth + 1) for x in (v.tolist() if v.ndim else [v.item()])] if v.ndim else plain(v.item(), depth)
    if isinstance(v, dict):
        return {str(k): plain(v[k], depth + 1) for k in sorted(v, key=str)}
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v]
    if callable(v) or isinstance(v, type):
        return '<%s>' % getattr(v, '__name__', type(v).__name__)
    return '<%s>' % type(v).__name__


def same(a, b, rtol=0.0, atol=0.0, path=''):
    """None if equal within tolerance, else a description of the first difference"""
    if isinstance(a, (dict,)) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s != %s' % (path, sorted(a), sorted(b))
        for k in a:
            d = same(a[k], b[k], rtol, atol, path + '/' + str(k))
            if d: return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: length %d != %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, rtol, atol, path + '/' + str(i))
            if d: return d
        return None
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)):
            return None
        if abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return None
        return '%s: %r != %r' % (path, a, b)
    if a != b:
        return '%s: %r != %r' % (path, a, b)
    return None


def digest(v):
    return hashlib.sha256(json.dumps(plain(v), sort_keys=True, default=str).encode()).hexdigest()[:16]
