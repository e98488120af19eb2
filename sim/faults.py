"""Fault injection inside pyHalo calls: an exception at the k-th executed pyHalo source line.

Uses sys.monitoring LINE events restricted to code objects of the repository, so the crash point is a function of the
executed history only: counting a run and then replaying it with the k-th event failing is exact.
"""
import sys, os
from sim.core import REPO, Injected, InjectedInterrupt, InjectedMemoryError

TOOL = 3
EXC = {'error': Injected, 'interrupt': InjectedInterrupt, 'memory': InjectedMemoryError}
_st = dict(on=False, n=0, k=None, exc=None, where=None, fired=False)
_prefix = os.path.join(REPO, 'pyHalo') + os.sep


def _line(code, lineno):
    if not code.co_filename.startswith(_prefix):
        return sys.monitoring.DISABLE
    _st['n'] += 1
    if _st['k'] is not None and _st['n'] == _st['k'] and not _st['fired']:
        _st['fired'] = True
        _st['where'] = '%s:%s:%d' % (os.path.relpath(code.co_filename, REPO), code.co_name, lineno)
        raise _st['exc']('injected at ' + _st['where'])


def arm(k=None, kind='error'):
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, 'sim')
        m.register_callback(TOOL, m.events.LINE, _line)
    _st.update(on=True, n=0, k=k, exc=EXC[kind], where=None, fired=False)
    m.restart_events()
    m.set_events(TOOL, m.events.LINE)


def disarm():
    m = sys.monitoring
    if _st['on']:
        m.set_events(TOOL, 0)
        _st['on'] = False
    return _st['n'], _st['fired'], _st['where']


def count_lines(f):
    """number of pyHalo lines f executes (f is run; use in a throw-away fork)"""
    arm(None)
    try:
        f()
    finally:
        n, _, _ = disarm()
    return n


def forked(f):
    """run f() in a forked copy of this process and return its JSON result (the state here is untouched)"""
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', f())
            except BaseException as e:
                out = ('exc', type(e).__name__ + ': ' + str(e))
            with os.fdopen(w, 'w') as fh:
                json.dump(out, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else ('died', None)
