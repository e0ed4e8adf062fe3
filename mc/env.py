"""Process environment of the checks: scratch directory, PyAnEn settings, import of the code under test."""
import contextlib
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('MC_REPO', '/repo')

# The user visible settings, at the values the checks start from (repeats smaller than the default: 1000)
SETTINGS = {
    'pyanen_ens_to_prob_method': 'moments',
    'pyanen_kde_bandwidth': '0.01',
    'pyanen_kde_kernel': 'gaussian',
    'pyanen_kde_samples': '1000',
    'pyanen_kde_multiply_spread': '5',
    'pyanen_boot_confidence': '0.95',
    'pyanen_boot_repeats': '20',
    'pyanen_boot_samples': '300',
    'pyanen_tqdm_disable': 'True',
    'pyanen_tqdm_leave': 'False',
    'pyanen_tqdm_workers': '1',
    'pyanen_tqdm_map_axis': '-1',
    'pyanen_tqdm_chunksize': '1',
    'pyanen_use_tensorflow_math': 'False',
    'pyanen_skip_nan': 'False',
    'pyanen_split_crps_ensemble_along_0': 'False',
    'pyanen_integrate_range_multiplier': '5',
    'pyanen_integrate_with_less_memory': 'False',
    'pyanen_integrate_wdir': '',
}

_root = None
_main_pid = None
_extra = None


def setup(prop):
    global _root, _main_pid, _extra
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    _root = tempfile.mkdtemp(prefix='mcverif_%s_' % prop, dir=base)
    _main_pid = os.getpid()
    os.chdir(_root)          # stray files of the code under test end up in the scratch directory
    for k in list(os.environ):
        if k.startswith('pyanen_'):
            del os.environ[k]
    os.environ.update(SETTINGS)
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    from . import execs
    execs.install()
    import PyAnEn
    got = os.path.realpath(os.path.dirname(PyAnEn.__file__))
    want = os.path.realpath(os.path.join(REPO, 'PyAnEn'))
    if got != want:
        raise RuntimeError('imported %s instead of %s' % (got, want))
    warnings.simplefilter('ignore')
    _extra = {k: v for k, v in os.environ.items() if k.startswith('pyanen_') and k not in SETTINGS}


def scratch_root():
    return _root


def scratch(name):
    """A fresh empty directory private to this process."""
    d = os.path.join(_root, 'p%d' % os.getpid(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def child_init():
    d = os.path.join(_root, 'p%d' % os.getpid(), 'cwd')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)


def cleanup():
    if _root and os.getpid() == _main_pid:
        os.chdir('/')
        shutil.rmtree(_root, ignore_errors=True)


def reset():
    for k in [k for k in os.environ if k.startswith('pyanen_') and k not in SETTINGS and k not in (_extra or {})]:
        del os.environ[k]
    os.environ.update(SETTINGS)
    if _extra:
        os.environ.update(_extra)


@contextlib.contextmanager
def settings(**kw):
    """settings(workers=2, skip_nan=True): short names of the pyanen_ variables"""
    alias = {'workers': 'tqdm_workers', 'chunksize': 'tqdm_chunksize', 'map_axis': 'tqdm_map_axis',
             'repeats': 'boot_repeats', 'confidence': 'boot_confidence', 'split': 'split_crps_ensemble_along_0',
             'less_memory': 'integrate_with_less_memory', 'wdir': 'integrate_wdir', 'method': 'ens_to_prob_method'}
    names = {'pyanen_' + alias.get(k, k): str(v) for k, v in kw.items()}
    old = {k: os.environ.get(k) for k in names}
    os.environ.update(names)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
