"""Closes the system under test.

Import this module before anything of emva1288.  It
 * pins the threads, the plotting backend and the matplotlib cache,
 * puts <repo>/src (REPO, by default /repo) first on sys.path and refuses to
   run against any other copy of the package,
 * replaces ``numpy.random.default_rng`` by a seam: while a check has
   installed a scripted environment the random generator handed to the code
   answers what the explorer chose, otherwise the real one is returned.
"""
import os
import sys
import shutil
import tempfile
import types

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
           'NUMEXPR_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True

REPO = os.path.abspath(os.environ.get('MC_REPO', '/repo'))
SRC = os.path.join(REPO, 'src')

# scratch: everything the checks write goes below this directory
SCRATCH = os.environ.get('MC_SCRATCH')
if not SCRATCH:
    SCRATCH = tempfile.mkdtemp(prefix='mc1288-')
    os.environ['MC_SCRATCH'] = SCRATCH
    _owner = os.getpid()

    def _cleanup():
        if os.getpid() == _owner:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    import atexit
    atexit.register(_cleanup)

_mpl = os.path.join(SCRATCH, 'mpl')
if not os.path.isdir(_mpl):
    os.makedirs(_mpl, exist_ok=True)
    if os.path.isdir('/opt/mplconfig'):
        for _f in os.listdir('/opt/mplconfig'):
            try:
                shutil.copy(os.path.join('/opt/mplconfig', _f), _mpl)
            except OSError:
                pass
os.environ['MPLCONFIGDIR'] = _mpl

import warnings                                          # noqa: E402
warnings.simplefilter('ignore')
import logging                                           # noqa: E402
logging.disable(logging.CRITICAL)

import numpy as np                                       # noqa: E402
import numpy.random                                      # noqa: E402
np.seterr(all='ignore')

# ------------------------------------------------------------------ the seam
_real_default_rng = np.random.default_rng
#: when set, called as factory(seed, real_rng) and its result is returned
RNG_FACTORY = [None]


def _default_rng(seed=None):
    real = _real_default_rng(seed)
    if RNG_FACTORY[0] is not None:
        return RNG_FACTORY[0](seed, real)
    return real


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_generator)

    def __call__(cls, bit_generator):
        real = _real_generator(bit_generator)
        if RNG_FACTORY[0] is not None:
            return RNG_FACTORY[0](None, real)
        return real


_real_generator = np.random.Generator
np.random.default_rng = _default_rng
numpy.random.Generator = _Meta('Generator', (object,), {})

if SRC not in sys.path:
    sys.path.insert(0, SRC)
# the build writes emva1288/_version.py (ignored by git); do not depend on it
if not os.path.exists(os.path.join(SRC, 'emva1288', '_version.py')):
    _m = types.ModuleType('emva1288._version')
    _m.version = _m.__version__ = '0+verif'
    _m.version_tuple = _m.__version_tuple__ = (0, 'verif')
    sys.modules['emva1288._version'] = _m

import emva1288                                          # noqa: E402
_f = os.path.abspath(getattr(emva1288, '__file__', None) or
                     list(emva1288.__path__)[0])
if not _f.startswith(SRC + os.sep):
    raise SystemExit('emva1288 imported from %s, not from %s' % (_f, SRC))
