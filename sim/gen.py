"""Plan-level generators shared by the properties (JSON in, JSON out)."""
import os

from . import env, rig


def enc(rng, d, unc=0.5, rel=1e-3):
    """Give a random subset of the values an uncertainty."""
    out = {}
    for k, v in sorted(d.items()):
        if rng.random() < unc and k not in ('yB',):
            out[k] = [v, abs(v) * rel * rng.uniform(0.1, 3.) + 1e-9]
        else:
            out[k] = v
    return out


def dec(d):
    from uncertainties import ufloat
    return {k: ufloat(v[0], v[1]) if isinstance(v, list) else v
            for k, v in d.items()}


def text(d):
    """A parameter file as a user would type it."""
    lines = []
    for k, v in d.items():
        if isinstance(v, list):
            lines.append('%s = %r+/-%r' % (k, v[0], v[1]))
        else:
            lines.append('%s = %r' % (k, v))
    return '\n'.join(lines) + '\n'


def plain(par):
    """Picklable {key: (nominal, std or None)} of a parameter dictionary."""
    out = {}
    for k, v in par.items():
        if hasattr(v, 'nominal_value'):
            out[k] = (float(v.nominal_value), float(v.std_dev))
        else:
            out[k] = (float(v), None)
    return out


def benchmark(rng, unc=None, flywheel=None, split=None, lateral=None,
              spare=None):
    """Benchmark parameters of a random bicycle, JSON-encoded."""
    p = rig.true_bike(rng)
    if split is None:
        split = rng.random() < 0.3
    if split:
        p = rig.split_fork(p, rng)
    if flywheel is None:
        flywheel = rng.random() < 0.2
    if flywheel:
        p['mD'], p['IDxx'], p['IDyy'] = 2.4, 0.03, 0.06
    if lateral is None:
        lateral = rng.random() < 0.2
    if lateral:
        p['xcl'], p['zcl'] = 0.5, -0.35
    if spare is None:
        spare = rng.random()
    if spare < .08:
        # parameters that are documented as optional
        for k in ('IByy', 'IHyy'):
            if rng.random() < .7:
                del p[k]
    elif spare < .12:
        for k in ('yB', 'yH', 'IBxy', 'IByz', 'IHxy', 'IHyz'):
            if rng.random() < .5:
                p[k] = 0.
    if unc is None:
        unc = rng.choice([0., 1., 1.])
    return enc(rng, p, unc)


def all_or_none(rng, d):
    """part_inertia_tensor wants a frame with or without uncertainties."""
    return d


REAL_BIKES = ['Benchmark', 'Browser', 'Browserins', 'Crescendo', 'Fisher',
              'Pista', 'Rigid', 'Silver', 'Yellow', 'Yellowrev']
REAL_DIR = os.path.join(env.REPO, 'data')


def read(path):
    with open(path) as f:
        return f.read()


NAMES = ['Alpha', 'Bravo', 'Comet', 'Delta', 'Ember', 'Falcon']
RIDERS = ['Jane', 'Karl', 'Mona']
