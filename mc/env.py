"""
The environment of the code under test.

The numerical back ends (scipy's optimisers) are the environment of symfit:
it hands them callables and numbers, they answer with a point.  They are
wrapped *before* symfit is imported, so it does not matter how symfit imports
them.  With ``BACKEND.script`` set, the script plays the back end and decides
the answer; otherwise the real back end runs.
"""
import functools
import os
import sys
import threading
import warnings

# MC_REPO is only for trying changes in a scratch copy (tools/plant.py)
REPO = os.path.realpath(os.environ.get('MC_REPO') or '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')

warnings.simplefilter('ignore')

import numpy as np
import scipy.optimize
import scipy.integrate


class _Backend(threading.local):
    script = None
    calls = 0


BACKEND = _Backend()


def _wrap(name):
    real = getattr(scipy.optimize, name)

    @functools.wraps(real)
    def call(*args, **kwargs):
        BACKEND.calls += 1
        if BACKEND.script is None:
            return real(*args, **kwargs)
        import inspect
        bound = inspect.signature(real).bind(*args, **kwargs)
        bound.apply_defaults()
        arguments = dict(bound.arguments)
        arguments['_explicit'] = set(
            inspect.signature(real).bind(*args, **kwargs).arguments)
        return BACKEND.script(name, arguments)
    call._mc_real = real
    setattr(scipy.optimize, name, call)


for _name in ('minimize', 'differential_evolution', 'basinhopping', 'least_squares'):
    _wrap(_name)

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import symfit
    import symfit.distributions
    import symfit.core.fit
    import symfit.core.minimizers
    import symfit.core.objectives
    import symfit.core.models
    import symfit.core.support

assert os.path.realpath(symfit.__file__).startswith(REPO + '/'), symfit.__file__
warnings.simplefilter('ignore')
np.seterr(all='ignore')


class scripted(object):
    """``with scripted(f): ...``: f(name, arguments) plays the back end."""
    def __init__(self, script):
        self.script = script

    def __enter__(self):
        self.old = BACKEND.script
        BACKEND.script = self.script

    def __exit__(self, *exc):
        BACKEND.script = self.old
