"""Process environment: imports the real package from the repository under
simulation seams.

Importing this module puts every source of nondeterminism that the package can
reach behind a seam owned by the simulator:

* file system calls (``open``, ``os.*``)          -> sim.fs
* thread switches inside the package               -> sim.sched
* ``time.sleep``/``time.time``/``monotonic``       -> virtual clock (sim.clock)
* ``input()``                                      -> simulated user
* ``os.getpid``, ``os.urandom``, ``random``, tempfile names -> per-run values

The seams are transparent until a run activates them.
"""
import os
import sys
import shutil
import tempfile

sys.dont_write_bytecode = True

REPO = os.path.abspath(os.environ.get('BPSIM_REPO', '/repo'))
PKG = os.path.join(REPO, 'bicycleparameters')


def _scratch_base():
    base = os.environ.get('BPSIM_SCRATCH')
    if base:
        return base
    for cand in ('/dev/shm', tempfile.gettempdir()):
        try:
            d = tempfile.mkdtemp(prefix='bpsim-', dir=cand)
        except OSError:
            continue
        os.environ['BPSIM_SCRATCH'] = d
        os.environ['BPSIM_SCRATCH_OWNER'] = str(os.getpid())
        return d
    raise RuntimeError('no scratch directory')


SCRATCH = _scratch_base()


def cleanup():
    if os.environ.get('BPSIM_SCRATCH_OWNER') == str(os.getpid()):
        shutil.rmtree(SCRATCH, ignore_errors=True)


def prepare_environment():
    os.environ['MPLBACKEND'] = 'Agg'
    mpl = os.path.join(SCRATCH, 'mplconfig')
    if not os.path.isdir(mpl):
        os.makedirs(mpl, exist_ok=True)
        src = '/opt/vp/mplconfig'
        try:
            for f in os.listdir(src):
                if f.startswith('fontlist'):
                    shutil.copy(os.path.join(src, f), mpl)
        except OSError:
            pass
    os.environ['MPLCONFIGDIR'] = mpl
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.setdefault('HOME', '/root')


_loaded = {}


def load(app=False):
    """Import the third party libraries, install the seams, then import the
    package.  Returns a namespace of the package's modules."""
    if 'bp' not in _loaded:
        prepare_environment()
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        import numpy, scipy.io, scipy.integrate, scipy.optimize  # noqa
        import scipy.linalg  # noqa
        import matplotlib
        matplotlib.use('Agg', force=True)
        import matplotlib.pyplot, matplotlib.figure  # noqa
        import PIL.Image  # noqa
        try:
            import PIL.PngImagePlugin  # noqa
            PIL.Image.init()
        except Exception:
            pass
        import uncertainties, uncertainties.unumpy, yaml, dtk, yeadon  # noqa
        import plotly, plotly.graph_objects, plotly.express  # noqa
        import logging
        logging.getLogger('matplotlib').setLevel(logging.ERROR)
        from . import fs, sched
        fs.install()
        sched.install()
        import bicycleparameters as bp
        got = os.path.dirname(os.path.abspath(bp.__file__))
        if os.path.realpath(got) != os.path.realpath(PKG):
            raise RuntimeError('imported %s, expected %s' % (got, PKG))
        import bicycleparameters._mooreriderlean2012  # noqa
        import bicycleparameters.models, bicycleparameters.parameter_sets  # noqa
        import bicycleparameters.parameter_dicts  # noqa
        from bicycleparameters import (bicycle, com, conversions, geometry,
                                       inertia, io, main, models,
                                       parameter_dicts, parameter_sets,
                                       period, plot, rider, tables)
        _loaded['bp'] = dict(
            bp=bp, bicycle=bicycle, com=com, conversions=conversions,
            geometry=geometry, inertia=inertia, io=io, main=main,
            models=models, parameter_dicts=parameter_dicts,
            parameter_sets=parameter_sets, period=period, plot=plot,
            rider=rider, tables=tables)
    if app and 'app' not in _loaded['bp']:
        import bicycleparameters.app as appmod
        _loaded['bp']['app'] = appmod

    class NS(object):
        pass
    ns = NS()
    ns.__dict__.update(_loaded['bp'])
    return ns
