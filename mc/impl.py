"""Access to the code under test, through its public interface only."""
import contextlib
import copy
import io
import os
import sys
import warnings

REPO = os.environ.get('MC_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import matplotlib  # noqa
matplotlib.use('Agg')
warnings.simplefilter('ignore')
import numpy as np  # noqa
np.seterr(all='ignore')
import machup  # noqa
from machup import MU  # noqa
import machup.geometry  # noqa
from . import spec as S  # noqa

_real = os.path.realpath(machup.__file__)
assert _real.startswith(os.path.realpath(REPO) + os.sep), 'machup imported from %s' % _real
_home = os.path.dirname(_real) + os.sep
_inside = {}


def inside(filename):
    """Whether a source file belongs to the package under test."""
    if filename not in _inside:
        _inside[filename] = os.path.realpath(filename).startswith(_home)
    return _inside[filename]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def airplane(spec, via='auto'):
    with quiet():
        return S.build(spec, via)


def model(spec, via='auto'):
    """A MachUp model of the airplane."""
    with quiet():
        return MU.MachUp(inputAirplane=S.build(spec, via))


def call(m, name, *args, **kw):
    """One analysis call. Arguments are copied so the caller's description of
    the case stays as it was."""
    with quiet():
        return getattr(m, name)(*copy.deepcopy(args), **copy.deepcopy(kw))


def call_raw(m, name, *args, **kw):
    with quiet():
        return getattr(m, name)(*args, **kw)
