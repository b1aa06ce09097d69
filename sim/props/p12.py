"""P12: period estimates match the recorded oscillation."""
import math
import os

import numpy as np

from .. import core, env, machine, rig, sched
from . import p02, p07

ID = 'P12'
RUNS = {'quick': 1700, 'thorough': 30000}
LEVEL = 'seeded search over simulated pendulums, sensors and loggers with ' \
    'their faults, over orders and histories of the processing, disk ' \
    'errors, failing allocations and interleavings of threads'
RULE = 'a run is non-trivial when a period was estimated; counted by ' \
    'distinct (pendulum, part, sensor and logger settings, order, earlier ' \
    'failures) tuples'
STATE_MEASURE = 'distinct (kind of time base, shape, quantisation, release, ' \
    'decades of noise, damping, amplitude and length, part, state of the ' \
    'plot, number of recordings, outcome, earlier failures) tuples'
REAL = ['recording reader (scipy.io)', 'period fit (scipy.optimize)',
        'plot of the fit (matplotlib, Agg)']
STUB = ['pendulum, sensor and logger', 'disk', 'thread scheduler',
        'rasterizer of the fit plots, except in some runs']
ASSUMPTIONS = ['at least 60 samples per period and six periods',
               'the decay over half of the recording exceeds the noise '
               'eightfold', 'the noise is white',
               'late releases only in recordings with a sampling rate']
SHRINK = ['faults', 'recs', 'steps', 'preempt']

NS = None


def setup():
    global NS
    NS = env.load()


# -- plans -------------------------------------------------------------------

PARTS = 'BFRDP'


def rec(rng, key, trial):
    T = math.exp(rng.uniform(math.log(.4), math.log(4.)))
    s = {'bike': 'Alpha', 'key': key, 'trial': trial, 'T': T,
         'seed': rng.getrandbits(30), 'gyro': True}
    rate = rng.choice([50, 100, 200, 200, 500, 1000])
    while rate * T < 60:
        rate *= 2
    r = rng.random()
    if r < .15:
        rate *= rng.uniform(.98, 1.)
        while rate * T < 60:
            rate *= 1.5
    s['seconds'] = max(rng.choice([5, 10, 20, 30]), 6.5 * T)
    while rate * s['seconds'] > 12000:
        s['seconds'] = max(s['seconds'] / 2, 6.5 * T)
        if rate * s['seconds'] > 12000:
            rate = rate // 2
    s['rate'] = rate
    s['amp'] = 10**rng.uniform(-1.3, .8)
    s['zeta'] = 10**rng.uniform(-3.7, -1.9)
    s['phase'] = rng.choice([0., math.pi, rng.uniform(0, 2 * math.pi),
                             rng.uniform(0, 2 * math.pi)])
    s['offset'] = rng.choice([0., rng.uniform(-3, 3)])
    s['notes'] = rng.choice(['', 'windy'])
    s['angle'] = rng.random() < .3
    s['shape'] = rng.choice([None, None, 'col', 'row', 'float32'])
    if rng.random() < .35:
        s['timebase'] = True
        s['both'] = rng.random() < .5
        s['jitter'] = rng.choice([0., 0., .5])
        s['start'] = rng.choice([0., 0., rng.uniform(0, 60),
                                 rng.uniform(500, 5000)])
    else:
        s['ratefield'] = rng.choice(['ActualRate', 'ActualRate',
                                     'sampleRate'])
        if s['ratefield'] == 'ActualRate' and rng.random() < .4:
            s['nominal'] = rng.choice([100, 200, 500])
        if rng.random() < .35:
            s['release'] = rng.uniform(.05, 2.)
            s['seconds'] += s['release']
            s['phase'] = rng.choice([0., math.pi])
    if key[2] == 'P' and rng.random() < .5:
        s['rodname'] = rng.choice(['Rod', 'Crod'])
    if rng.random() < .2:
        s['bits'] = rng.choice([12, 14, 16])
    noise = rng.choice([0., s['amp'] * 10**rng.uniform(-6, -4),
                        s['amp'] * 10**rng.uniform(-4, -1.7),
                        s['amp'] * 10**rng.uniform(-3, -1.7)])
    s['noise'] = noise
    for i in range(400):
        if fall(s) >= 8 * rough(s):
            break
        s['noise'] *= .7
        if 'bits' in s and s['noise'] < quant(s):
            s['zeta'] = min(.012, s['zeta'] * 1.5)
            if s['zeta'] >= .012:
                del s['bits']
    return s


def quant(s):
    return 10. / 2**s['bits'] / math.sqrt(12.) if s.get('bits') else 0.


def rough(s):
    return math.hypot(s['noise'], quant(s))


def fall(s):
    t = s['seconds'] - s.get('release', 0.)
    return s['amp'] * (1. - math.exp(-s['zeta'] * 2 * math.pi / s['T'] * t /
                                     2.))


BAD = ['empty', 'truncated', 'garbage', 'nodata', 'nopart', 'oddpart',
       'short']


def generate(rng, tier, index):
    split = rng.random() < .4
    parts = PARTS + ('SG' if split else 'H')
    plan = {'split': split, 'conc': rng.random() < .15, 'faults': [],
            'real': rng.random() < .04, 'rchunk': rng.choice([None, 700]),
            'wchunk': rng.choice([None, 40])}
    recs = {}
    for i in range(rng.randint(1, 5)):
        q = rng.choice(parts)
        key = 'T%s%s%d' % (rng.choice('ct'), q, rng.randint(1, 6))
        if rng.random() < .3 and recs:
            key = sorted(recs)[0][0]
        for trial in range(1, 4):
            if (key, trial) not in recs:
                r = rec(rng, key, trial)
                same = [x for k, x in recs.items() if k[0] == key]
                if same:
                    # the same pendulum swung again
                    for k in ('T',):
                        r[k] = same[0]['T']
                    while r['rate'] * r['T'] < 60:
                        r['rate'] *= 2
                    r['seconds'] = max(r['seconds'], r.get('release', 0.) +
                                       6.5 * r['T'])
                    r['bits'] = None
                    while fall(r) < 8 * rough(r):
                        r['noise'] *= .7
                recs[(key, trial)] = r
                break
    plan['recs'] = [recs[k] for k in sorted(recs)]
    n = len(plan['recs'])
    if rng.random() < .12:
        plan['bad'] = [rng.randrange(n), rng.choice(BAD)]
    steps = []
    for i in range(rng.choice([1, 2, 2, 3])):
        order = list(range(n))
        rng.shuffle(order)
        if rng.random() < .3:
            order = order[:rng.randint(1, n)]
        st = {'order': order}
        if rng.random() < .12:
            st['abort'] = [rng.randint(1, 300), rng.choice(
                ['MemoryError', 'KeyboardInterrupt'])]
        if rng.random() < .3:
            plan['faults'].append({
                'at': i, 'op': 's%d' % i, 'proc': 'p0',
                'k': rng.randint(0, 60), 'mode': rng.choice(
                    ['error', 'error', 'short']), 'a': rng.randint(0, 9),
                'b': rng.choice([0, 9, 300]), 'c': rng.randint(0, 9),
                'sticky': rng.random() < .5})
        steps.append(st)
    plan['steps'] = steps
    plan['old'] = rng.choice(['none', 'dir', 'files'])
    if rng.random() < .4:
        # another bicycle that is processed before or in between
        q = PARTS + ('H' if split else 'SG')
        plan['other'] = {
            'split': not split, 'at': rng.randint(0, len(steps) - 1),
            'recs': [rec(rng, 'T%s%s%d' % (rng.choice('ct'), rng.choice(q),
                                           rng.randint(1, 6)), 1)
                     for _ in range(rng.choice([1, 2]))]}
    if plan['conc']:
        plan['faults'] = []
        plan.pop('bad', None)
        plan['steps'] = [{'order': s['order']} for s in steps[:3]]
        top = rng.choice([100, 1000, 6000])
        plan['preempt'] = sorted([rng.randint(1, top), rng.randint(0, 2)]
                                 for _ in range(rng.randint(2, 30)))
    return plan


# -- execution ---------------------------------------------------------------

def put(plan, raw):
    lab = p02.Lab(raw)
    names = []
    for i, s in enumerate(plan['recs']):
        dmg = plan['bad'][1] if plan.get('bad') and plan['bad'][0] == i \
            else None
        lab.put(s, dmg)
        names.append(list(lab.recs)[-1])
    return names


def other(plan, raw):
    """The other bicycle: a function that estimates its periods."""
    o = plan['other']
    d = os.path.join(os.path.dirname(os.path.dirname(raw)), 'Bravo',
                     'RawData')
    names = put(o, d)
    return lambda: NS.period.calc_periods_for_files(d, names, o['split'])


def estimate(plan, raw, names):
    r = NS.period.calc_periods_for_files(raw, list(names), plan['split'])
    return {k: (float(v.nominal_value), float(v.std_dev))
            for k, v in r.items()}


def process(root, raw, plan, names):
    if not plan['real']:
        p02.stub_savefig()

    def body(ctx):
        import matplotlib.pyplot as plt
        s = ctx.s
        s.results = []
        if plan.get('other'):
            with ctx.fs.hidden():
                fn = other(plan, raw)
        for i, st in enumerate(plan['steps']):
            if plan.get('other') and plan['other']['at'] == i:
                ctx.warm(fn)
                plt.close('all')
            f = (lambda: estimate(plan, raw, [names[j] for j in
                                              st['order']]))
            fired = [False]

            def go():
                if st.get('abort'):
                    ab = sched.Abort(env.PKG, st['abort'][0], {
                        'MemoryError': MemoryError, 'KeyboardInterrupt':
                        KeyboardInterrupt}[st['abort'][1]])
                    try:
                        return p07.outcome(lambda: ab(f))
                    finally:
                        fired[0] = ab.fired
                return p07.outcome(f)
            n = sum(ctx.fs.fired.values())
            ctx.op('s%d' % i, lambda: s.results.append(go()))
            s.results[-1] += (fired[0], sum(ctx.fs.fired.values()) > n)
            plt.close('all')
    return machine.session(root, body, plan['faults'], [], plan['wchunk'],
                           plan['rchunk'])


def single(root, raw, plan, names):
    p02.stub_savefig()

    def body(ctx):
        import matplotlib.pyplot as plt
        ctx.s.results = []
        for n in names:
            ctx.s.results.append(p07.outcome(
                lambda: estimate(plan, raw, [n])))
            plt.close('all')
    return machine.session(root, body)


def threads(root, raws, plan, names):
    p02.stub_savefig()

    def body(ctx):
        s = ctx.s
        s.results = {}
        sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=True)

        def task(i, st):
            def go():
                s.results[i] = p07.outcome(lambda: estimate(
                    plan, raws[i], [names[j] for j in st['order']]))
            return go
        for i, st in enumerate(plan['steps']):
            sc.spawn(task(i, st), 'p%d' % i)
        if plan.get('other'):
            with ctx.fs.hidden():
                fn = other(plan, raws[0])
            sc.spawn(lambda: p07.outcome(fn), 'p9')
        sc.run()
        if sc.failure is not None:
            raise core.Hang(str(sc.failure))
        for t in sc.tasks:
            if t.exc is not None:
                raise t.exc
        s.switches = list(sc.switches)
        s.lines = sc.steps
    return machine.session(root, body)


# -- oracle ------------------------------------------------------------------

_bound = {}


def bound(s):
    """Relative standard deviation of the period that an ideal estimator
    reaches with the whole recording (Cramer-Rao)."""
    name = repr(sorted(s.items(), key=repr))
    if name in _bound:
        return _bound[name]
    n = int(s['rate'] * s['seconds'])
    t = np.arange(n) / float(s['rate'])
    t = t[t >= s.get('release', 0.)] - s.get('release', 0.)
    wd = 2 * math.pi / s['T']
    wo = wd / math.sqrt(1 - s['zeta']**2)
    e = s['amp'] * np.exp(-s['zeta'] * wo * t)
    a, ph = wd * t + s['phase'], s['phase']
    J = np.column_stack([np.ones(len(t)), e * np.sin(a), e * np.cos(a),
                         -t * e * np.sin(a), t * e * np.cos(a)])
    C = np.linalg.inv(J.T @ J)
    r = math.sqrt(C[4, 4]) / wd
    _bound[name] = r
    return r


def decade(x):
    return int(math.floor(math.log10(x))) if x > 0 else -99


def judge(run, what, plan, order, out, alone):
    recs = [plan['recs'][j] for j in order]
    if plan.get('bad') and plan['bad'][0] in order:
        run.fault('recording ' + plan['bad'][1])
        run.check(out[0] == 'exc', 'used', '%s: used a recording that is %s' %
                  (what, plan['bad'][1]))
        return False
    if out[0] == 'exc':
        run.violate('fails', '%s: %r' % (what, out[1:]))
        return False
    by = {}
    for j, s in zip(order, recs):
        by.setdefault(s['key'], []).append((j, s))
    if sorted(out[1]) != sorted(by):
        run.violate('names', '%s: periods %s for recordings of %s' % (
            what, sorted(out[1]), sorted(by)))
        return False
    for k, rs in sorted(by.items()):
        T, sd = out[1][k]
        true = sum(s['T'] for _, s in rs) / len(rs)
        ref = math.sqrt(sum((bound(s) * rough(s) * s['T'])**2 for _, s in
                            rs)) / len(rs) / true
        err = abs(T - true) / true
        run.probe('periods')
        txt = '%s: %s = %r+/-%r instead of %r (%r)' % (what, k, T, sd, true,
                                                       [s for _, s in rs])
        if not (math.isfinite(T) and err <= max(1e-6, 25 * ref)) or \
                err > 2e-3:
            run.violate('period', txt)
            return False
        if not (math.isfinite(sd) and sd >= 0.):
            run.violate('uncertainty', txt)
            return False
        known = all(s['noise'] > 1e-7 * s['amp'] and
                    s['noise'] > 2 * quant(s) and s['shape'] != 'float32'
                    for _, s in rs)
        if (known and sd < .5 * ref * true) or err * true > 8 * sd + \
                1e-6 * true:
            run.violate('uncertainty', txt + ', ideal %g' % (ref * true))
            return False
        w = [alone[j][1][k] for j, _ in rs]
        if len(w) == 1:
            ok = w[0] == (T, sd)
        else:
            m = sum(x[0] for x in w) / len(w)
            d = math.sqrt(sum(x[1]**2 for x in w)) / len(w)
            ok = abs(m - T) <= 1e-12 * m and abs(d - sd) <= 1e-6 * d
        run.check(ok, 'order', '%s: %s = %r, but %r if every recording is '
                  'processed on its own' % (what, k, (T, sd), w))
    return True


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    raws = []
    n = len(plan['steps']) if plan['conc'] else 1
    for i in range(n):
        raw = os.path.join(root, 'data', 'bicycles', 'Alpha%d' % i, 'RawData')
        os.makedirs(raw)
        raws.append(raw)
        names = put(plan, raw)
        pl = os.path.join(os.path.dirname(raw), 'Plots', 'PendulumFit')
        if plan['old'] != 'none':
            os.makedirs(pl)
        if plan['old'] == 'files':
            for x in names:
                machine.put(os.path.join(pl, x[:-4] + '.png'), b'old plot')
    run.probe('other-bicycles', bool(plan.get('other')))
    before = machine.tree(raws[0])
    s0 = run.phase(single, root, raws[0], plan, names)
    if plan['old'] == 'none' and not plan['conc']:
        import shutil
        shutil.rmtree(os.path.join(os.path.dirname(raws[0]), 'Plots'),
                      ignore_errors=True)
    if plan['conc']:
        s = run.phase(threads, root, raws, plan, names)
        machine.account(run, s)
        run.steps += s.lines
        run.note('switches', s.switches[:200])
        run.probe('concurrent-runs')
        run.probe('switches', len(s.switches))
        for i, st in enumerate(plan['steps']):
            judge(run, 'thread %d' % i, plan, st['order'], s.results[i],
                  s0.results)
        run.state('sw', tuple(s.switches)[:6])
    else:
        s = run.phase(process, root, raws[0], plan, names)
        machine.account(run, s)
        failed = 0
        for i, st in enumerate(plan['steps']):
            *out, fired, hit = s.results[i]
            if fired:
                run.fault(st['abort'][1])
            run.note(i, st['order'], out[0], repr(out[1])[:300])
            if (fired or hit) and out[0] == 'exc':
                failed += 1
            elif not judge(run, 'step %d' % i, plan, st['order'], out,
                           s0.results):
                failed += 1
            run.state('step', len(st['order']), plan['old'], out[0], fired,
                      hit, min(failed, 2))
            if run.violations:
                return
    for x in plan['recs']:
        run.state(x['key'][:3], bool(x.get('timebase')), x['shape'],
                  x.get('bits'), bool(x.get('release')), decade(x['noise']),
                  decade(x['zeta']), decade(x['amp']),
                  x['seconds'] // 8, x.get('start', 0) > 0)
    run.check(machine.tree(raws[0]) == before, 'recordings', 'estimating '
              'periods changed the recordings')
