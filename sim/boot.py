"""Puts the code under test and the stub dependency on the path, isolates what it writes, installs the seams.

Imported once in the zygote process; every simulated run is a fork of it, so each run starts from the same pristine
process state.
"""
import os, sys, tempfile, shutil, atexit, warnings, io

REPO = os.environ.get('PYHALO_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_booted = False
SCRATCH = None


def boot():
    global _booted, SCRATCH
    if _booted:
        return
    _booted = True
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    SCRATCH = tempfile.mkdtemp(prefix='pyhalo-sim-')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(SCRATCH, ignore_errors=True))
    os.environ['HOME'] = SCRATCH                 # colossus keeps an on-disk cache under $HOME
    os.environ['MPLBACKEND'] = 'Agg'
    sys.dont_write_bytecode = True
    for p in (REPO, os.path.join(VERIF, 'stubs')):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    warnings.simplefilter('ignore')
    from colossus import settings as colossus_settings
    colossus_settings.PERSISTENCE = ''            # no on-disk cache: it is shared between the forked runs (a race), not part of a run
    import numpy as np
    np.seterr(all='ignore')
    from sim import rng
    rng.install()
    import pyHalo.preset_models, pyHalo.single_realization, pyHalo.realization_extensions  # noqa
    import pyHalo.pyhalo, pyHalo.concentration_models, pyHalo.truncation_models, pyHalo.mass_function_models  # noqa
    import pyHalo.Halos.batch_halo_util, pyHalo.Rendering.correlated_structure  # noqa
    assert os.path.abspath(pyHalo.__file__).startswith(REPO + os.sep), pyHalo.__file__
    # tables colossus keeps in memory for the whole process, as after any first use (about 1 s; inherited by every fork)
    from colossus.cosmology import cosmology as cc
    from colossus.halo.concentration import concentration
    cc.setCosmology('warm', dict(flat=True, H0=70.0, Om0=0.3, Ob0=0.05, sigma8=0.8, ns=0.96))
    for model in ('diemer19', 'ludlow16'):
        concentration(1e8, mdef='200c', model=model, z=0.5)
    cc.current_cosmo = None
