"""P19: uncertainties are propagated to first order."""
import os

import numpy as np

from .. import core, env, gen, machine, model, rig, sched

ID = 'P19'
RUNS = {'quick': 500, 'thorough': 12000}
LEVEL = 'seeded search over histories of loads, corrections of measurements ' \
    'and parameters, riders and queries with failing reads and allocations, ' \
    'and over interleavings of threads; every uncertainty is compared with ' \
    'central differences of the nominal calculation over every measurement'
RULE = 'a run is non-trivial when an uncertainty was compared; counted by ' \
    'distinct (question, source, rider, corrections, earlier failures, ' \
    'which measurements are uncertain) tuples'
STATE_MEASURE = 'distinct (question, source of the parameters, geometry, ' \
    'fork, rider, corrections, earlier failures) tuples and switch prefixes'
REAL = ['loading', 'calculation from measurements', 'riders', 'canonical '
        'matrices', 'state space', 'steer assembly', 'uncertainties', 'numpy']
STUB = ['disk', 'failing allocations', 'thread scheduler']
ASSUMPTIONS = ['measurements are independent of each other',
               'periods are stated in the measurement file',
               'the nominal calculation is right (decided by P13, P06, P07)',
               "riders come from parameter files"]
SHRINK = ['ops', 'threads', 'preempt', 'faults']

NS = None


def setup():
    global NS
    NS = env.load()
    bad = model.check()
    if bad:
        raise core.HarnessError(bad)


# -- plans ----------------------------------------------------------------------

def written(rng, k, v, s, lists=True):
    """(text of a line, [nominal, std] as it is read)."""
    if s is None:
        return '%s = %r' % (k, v), [v, 0.]
    if lists and rng.random() < .12:
        d = rng.uniform(-1., 1.) * s
        vs = [v - d, v + d]
        ss = [s, s * rng.uniform(.5, 2.)]
        return '%s = %s' % (k, ', '.join('%r+/-%r' % x for x in zip(
            vs, ss))), [sum(vs) / 2., (ss[0]**2 + ss[1]**2)**.5 / 2.]
    form = rng.choice(['%s = %r+/-%r', '%s=%r+/-%r', '%s = %r +/- %r',
                       '%s = %r+/-%r  # as usual'])
    return form % (k, v, s), [v, s]


def sigma(rng, v):
    return (abs(v) + 1e-3) * rng.choice([3e-3, 1e-3, 1e-3, 1e-4])


def question(rng):
    q = {'q': rng.choice(['par', 'par', 'canonical', 'canonical', 'ss',
                          'steer', 'steer']),
         'nominal': rng.random() < .12, 'v': rng.choice(
             [0., 1., rng.uniform(0, 9)]),
         'flags': [rng.random() < .8 for _ in range(3)] +
         [rng.random() < .5]}
    return q


def generate(rng, tier, index):
    p = rig.true_bike(rng)
    split = rng.random() < .4
    if split:
        p = rig.split_fork(p, rng)
    fly = rng.random() < .25
    if fly:
        p['mD'] = rng.uniform(1., 4.)
        p['IDxx'], p['IDyy'] = rng.uniform(.02, .06), rng.uniform(.04, .12)
    perp = rng.random() < .5
    mp, T = rig.measure(p, rng, norient={
        q: rng.choice([3, 3, 3, 4, 5, 6]) for q in 'BHSG'}, perp=perp,
        lateral=rng.random() < .2)
    mp.update(T)
    keys = sorted(k for k in mp if k[0] != 'n')
    how = rng.choice(['all', 'some', 'some', 'few', 'one'])
    unc = {'all': keys, 'some': [k for k in keys if rng.random() < .5],
           'few': rng.sample(keys, 4), 'one': [rng.choice(keys)]}[how]
    # wheels of one kind measure the same, to the letter
    twins = [x for x in ('d', 'm', 'l', 'Tt1', 'Tc1')
             if rng.random() < .6] if rng.random() < .35 else []
    raw, lines = [], {}
    for k in sorted(mp):
        t, x = written(rng, k, mp[k], sigma(rng, mp[k]) if k in unc
                       else None)
        lines[k] = [t[len(k):], x]
        if 'R' in k and k.replace('R', '') in twins:
            t, x = k + lines[k.replace('R', 'F')][0], \
                list(lines[k.replace('R', 'F')][1])
        raw.append({'k': k, 'text': t, 'x': x})
    if rng.random() < .5:
        rng.shuffle(raw)
    ops = [{'op': 'load', 'b': 0, 'name': 'Alpha', 'raw': True}]
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        b = rng.choice([0, 0, 0, 1])
        if r < .12:
            ops.append({'op': 'load', 'b': b,
                        'name': rng.choice(['Alpha', 'Bravo']),
                        'raw': rng.random() < .6})
        elif r < .24:
            k = rng.choice(keys)
            # often only the uncertainty was wrong
            v = mp[k] * rng.choice([1., rng.uniform(.999, 1.001)])
            t, x = written(rng, k, v, rng.choice([None, sigma(rng, v),
                                                  sigma(rng, v)]))
            ops.append({'op': 'file', 'k': k, 'text': t, 'x': x})
            if rng.random() < .8:
                ops.append({'op': 'recalc', 'b': 0})
        elif r < .34:
            ops.append({'op': 'rider', 'b': b})
        elif r < .46:
            ops.append({'op': 'set', 'b': b, 'k': rng.randint(0, 60),
                        'f': rng.choice([1., rng.uniform(.97, 1.03),
                                         rng.uniform(.97, 1.03)]),
                        'how': rng.choice(['scale', 'exact', 'new', 'new']),
                        's': rng.choice([1e-3, 1e-2])})
        else:
            ops.append(dict(question(rng), op='ask', b=b))
        if ops[-1]['op'] in ('load', 'rider', 'recalc', 'ask') and \
                rng.random() < .08:
            ops[-1]['abort'] = rng.choice([rng.randint(1, 25),
                                           rng.randint(1, 400)])
    ops.append(dict(question(rng), op='ask', b=0, q='par', nominal=False))
    ops.append(dict(question(rng), op='ask', b=0, nominal=False))
    faults = []
    for i, o in enumerate(ops):
        if o['op'] in ('load', 'rider', 'recalc') and i and \
                rng.random() < .12:
            faults.append({'op': 's%d' % i, 'proc': 'p0',
                           'k': rng.randint(0, 14), 'mode': 'error',
                           'a': rng.randint(0, 9), 'b': 0, 'c': 0,
                           'sticky': rng.random() < .3})
    spare = rng.choice([.5, .1])
    bravo = gen.benchmark(rng, unc=1. if spare < .2 else None, spare=.5)
    if rng.random() < .3:
        for k in ('r', 'm', 'Ixx', 'Iyy'):
            f, r = (k[0] + x + k[1:] for x in 'FR')
            bravo[r] = bravo[f]
    r = rig.rider(rng)
    rider = gen.enc(rng, r, rng.choice([0., .6, 1.]), 3e-3)
    plan = {'raw': raw, 'split': split, 'perp': perp, 'how': how,
            'stored': gen.benchmark(rng, spare=.5) if rng.random() < .3
            else None, 'bravo': bravo, 'rider': rider, 'ops': ops,
            'faults': faults, 'threads': [],
            'rchunk': rng.choice([None, None, 200])}
    if rng.random() < .25:
        for t in range(2):
            todo = [{'op': 'load', 'b': t,
                     'name': rng.choice(['Alpha', 'Alpha', 'Bravo']),
                     'raw': rng.random() < .7}]
            if rng.random() < .3:
                todo.append({'op': 'rider', 'b': t})
            todo.append(dict(question(rng), op='ask', b=t))
            plan['threads'].append(todo)
    plan['preempt'] = sorted([rng.randint(1, 3000), rng.randint(0, 2)]
                             for _ in range(rng.randint(3, 40)))
    return plan


# -- the machine -----------------------------------------------------------------

def num(v):
    if hasattr(v, 'nominal_value'):
        return [float(v.nominal_value), float(v.std_dev)]
    return [float(v), None]


def answer(b, op):
    """{name: [nominal, std]} of an answered question."""
    q, kw = op['q'], {'nominal': True} if op['nominal'] else {}
    if q == 'par':
        return {k: num(v) for k, v in b.parameters['Benchmark'].items()}
    if q == 'canonical':
        got = dict(zip(('M', 'C1', 'K0', 'K2'), b.canonical(**kw)))
    elif q == 'ss':
        got = dict(zip('AB', b.state_space(op['v'], **kw)))
    else:
        h, f, w, a = op['flags']
        got = {'I': b.steer_assembly_moment_of_inertia(
            handlebar=h, fork=f, wheel=w, aboutSteerAxis=a, **kw)}
    out = {}
    for n, m in got.items():
        m = np.asarray(m)
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                out['%s[%d, %d]' % (n, i, j)] = num(m[i, j])
    return out


def evaluate(par):
    """Derivatives are collected when they are first asked for, which takes
    very long for matrices of parameters that were not asked before."""
    for v in par.values():
        num(v)


def act(op, hold, data):
    """Runs an operation; returns plain data."""
    from uncertainties import ufloat
    k = op['op']
    if k == 'load':
        b = NS.bp.Bicycle(op['name'], data, forceRawCalc=op['raw'])
        hold[op['b']] = b
        evaluate(b.parameters['Benchmark'])
        return b.bicycleName
    b = hold[op['b']]
    if k == 'recalc':
        par, ext = b.calculate_from_measured()
        evaluate(par)
        b.parameters['Benchmark'] = par
        return None
    if k == 'rider':
        b.add_rider('Jane')
        return b.hasRider
    if k == 'set':
        p = b.parameters['Benchmark']
        ks = [x for x in sorted(p) if x not in ('yB', 'yH', 'yF', 'yR')]
        key = ks[op['k'] % len(ks)]
        if op['how'] == 'scale':
            p[key] = p[key] * op['f']
        else:
            v = num(p[key])[0] * op['f']
            p[key] = v if op['how'] == 'exact' else ufloat(
                v, (abs(v) + 1e-3) * op['s'])
        return key
    if k == 'ask':
        return answer(b, op)
    raise core.HarnessError(k)


def one(root, plan):
    data = os.path.join(root, 'data')
    rawfile = os.path.join(data, 'bicycles', 'Alpha', 'RawData',
                           'AlphaMeasured.txt')
    recs, par = [], []

    def body(ctx):
        ctx.s.recs, ctx.s.par, ctx.s.switches = recs, par, []
        hold = {}
        ctx.fs.label('~')
        for i, op in enumerate(plan['ops']):
            if op['op'] == 'file':
                with ctx.fs.hidden():
                    change(rawfile, op)
                continue
            if op['op'] != 'load' and hold.get(op['b']) is None:
                continue
            if op['op'] == 'recalc' and (
                    hold[op['b']].hasRider or
                    hold[op['b']].bicycleName != 'Alpha'):
                continue
            ab = sched.Abort(env.PKG, op['abort'], MemoryError) \
                if op.get('abort') else None

            def fn():
                return act(op, hold, data)
            out = ctx.op('s%d' % i, (lambda: ab(fn)) if ab else fn)
            recs.append({'i': i, 'out': out, 'fired': bool(ab and ab.fired)})
        if plan['threads']:
            sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=True)
            mine = [{} for _ in plan['threads']]

            def task(t):
                def go():
                    for n, op in enumerate(plan['threads'][t]):
                        try:
                            out = ('ok', act(op, mine[t], data))
                        except Exception as e:
                            out = ('exc', type(e).__name__, str(e)[:200])
                        par.append({'t': t, 'n': n, 'out': out})
                        if out[0] == 'exc':
                            return
                return go
            for t in range(len(plan['threads'])):
                sc.spawn(task(t), 't%d' % t)
            sc.run()
            if sc.failure is not None:
                raise core.Hang(str(sc.failure))
            for t in sc.tasks:
                if t.exc is not None:
                    raise t.exc
            par.sort(key=lambda r: (r['t'], r['n']))
            ctx.s.switches = list(sc.switches)
    return machine.session(root, body, plan['faults'], [], None,
                           plan['rchunk'])


def change(path, op):
    with open(path) as f:
        t = f.read().splitlines(True)
    t = [x for x in t if x.split('=')[0].strip() != op['k']]
    with open(path, 'w') as f:
        f.write(''.join(t) + op['text'] + '\n')


# -- oracle ------------------------------------------------------------------------
#
# The parameters of a bicycle are a function of independent values: what was
# measured, stored or set.  A recipe is that function: the source and the
# changes made since.

def raws(jobs):
    """The nominal calculation for dictionaries of floats."""
    out = []
    for mp in jobs:
        try:
            par, _ = NS.main.calculate_benchmark_from_measured(dict(mp))
            out.append({k: num(v)[0] for k, v in par.items()})
        except Exception:
            out.append(None)
    return out


def free(d):
    """{k: [nominal, std]} of encoded values."""
    return {k: list(v) if isinstance(v, list) else [v, 0.]
            for k, v in d.items()}


class Recipe(object):
    def __init__(self, kind, vals):
        self.kind = kind                    # 'raw' or 'stored'
        self.x = {('m', k): v for k, v in vals.items()}
        self.mods = []
        self.rider = False

    def copy(self):
        r = Recipe(self.kind, {})
        r.x, r.mods, r.rider = dict(self.x), list(self.mods), self.rider
        return r

    def later(self, p, x):
        """Applies the changes to the parameters p."""
        p = dict(p)
        for m in self.mods:
            if m[0] == 'scale':
                p[m[1]] *= m[2]
            elif m[0] == 'set':
                p[m[1]] = x[m[2]]
            else:
                r = {k[1]: v for k, v in x.items() if k[0] == 'r'}
                mass, c, I, Iyy = model.composite(
                    model.bodies(p, 'B') + model.bodies(r, 'B'))
                p.update(mB=mass, xB=c[0], zB=c[1], IBxx=I[0, 0],
                         IBxz=I[0, 1], IBzz=I[1, 1], IByy=Iyy, yB=0.)
        return p

    def points(self, run):
        """(base, [(std, step, plus, minus)]) of the parameters; None if the
        calculation has no answer."""
        x0 = {k: v[0] for k, v in self.x.items()}
        ids = [k for k in sorted(self.x) if self.x[k][1]]
        jobs, hs = [x0], []
        for k in ids:
            h = max(abs(x0[k]), 1e-3) * 1e-5
            hs.append(h)
            jobs += [dict(x0), dict(x0)]
            jobs[-2][k] += h
            jobs[-1][k] -= h
        if self.kind == 'raw':
            src = run.phase(raws, [{k[1]: v for k, v in j.items()
                                    if k[0] == 'm'} for j in jobs])
            if any(x is None for x in src):
                return None
        else:
            src = [{k[1]: v for k, v in j.items() if k[0] == 'm'}
                   for j in jobs]
        ps = [self.later(p, j) for p, j in zip(src, jobs)]
        return ps[0], [(self.x[k][1], hs[i], ps[1 + 2 * i], ps[2 + 2 * i], k)
                       for i, k in enumerate(ids)]


def quantities(p, op):
    """{name: value} of a question for floats; None where it has none."""
    q = op['q']
    if q == 'par':
        return dict(p)
    if q == 'canonical':
        got = dict(zip(('M', 'C1', 'K0', 'K2'), model.canonical(p)))
    elif q == 'ss':
        got = dict(zip('AB', model.state_space(p, op['v'])))
    else:
        h, f, w, a = op['flags']
        I = model.steer_inertia(p, h, f, w, a)
        if I is None:
            return None
        got = {'I': I}
    return {'%s[%d, %d]' % (n, i, j): float(m[i, j]) for n, m in got.items()
            for i in range(m.shape[0]) for j in range(m.shape[1])}


def compare(run, pts, op, got, what):
    base, moves = pts
    want = quantities(base, op)
    if want is None:
        return run.violate('refused', '%s was answered' % what)
    var = {k: 0. for k in want}
    share = {k: [] for k in want}
    for s, h, a, b, name in moves:
        fa, fb = quantities(a, op), quantities(b, op)
        for k in want:
            d = abs(fa[k] - fb[k]) / (2. * h) * s
            var[k] += d * d
            share[k].append((d, '%s%s' % name if name[0] != 'm' else name[1]))
    size = {}
    for k, v in want.items():
        g = k.split('[')[0] if '[' in k else k
        size[g] = max(size.get(g, 0.), abs(v))
    for k in sorted(want):
        if k not in got:
            if k in ('yB',):
                continue
            return run.violate('incomplete', '%s has no %s' % (what, k))
        n, s = got[k]
        sc = size[k.split('[')[0] if '[' in k else k]
        if not abs(n - want[k]) <= 1e-7 * (sc + 1e-3):
            return run.violate('nominal', '%s: %s is %r, not %r' % (
                what, k, n, want[k]))
        e = var[k]**.5
        if op['nominal'] and op['q'] != 'par':
            run.check(s is None, 'nominal', '%s: %s has an uncertainty' % (
                what, k))
            continue
        run.probe('compared')
        if not abs((s or 0.) - e) <= 5e-4 * e + 1e-9 * (sc + 1e-3):
            top = ', '.join('%s (%.3g)' % (b, a) for a, b in
                            sorted(share[k], reverse=True)[:4])
            return run.violate(
                'uncertainty', '%s: the uncertainty of %s is %r, the '
                'measurements give %.9g, most of it from %s' % (
                    what, k, s, e, top or 'nothing'))


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    data = os.path.join(root, 'data')
    bikes = os.path.join(data, 'bicycles')
    machine.put(os.path.join(bikes, 'Alpha', 'RawData', 'AlphaMeasured.txt'),
                ''.join(x['text'] + '\n' for x in plan['raw']))
    if plan['stored']:
        machine.put(os.path.join(bikes, 'Alpha', 'Parameters',
                                 'AlphaBenchmark.txt'),
                    gen.text(plan['stored']))
    machine.put(os.path.join(bikes, 'Bravo', 'Parameters',
                             'BravoBenchmark.txt'), gen.text(plan['bravo']))
    for n in ('Alpha', 'Bravo'):
        machine.put(os.path.join(data, 'riders', 'Jane', 'Parameters',
                                 'Jane%sBenchmark.txt' % n),
                    gen.text(plan['rider']))
    s = run.phase(one, root, plan)
    machine.account(run, s)
    hit = {e[1] for e in s.events if e[-1] and e[-1] != 'short'}
    now = {x['k']: x['x'] for x in plan['raw']}
    recs = {r['i']: r for r in s.recs}
    hold, cache = {}, {}
    fails = 0
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'file':
            now[op['k']] = op['x']
            continue
        rec = recs.get(i)
        if rec is None:
            continue
        run.steps += 1
        if rec['fired']:
            run.fault('failing-allocation')
        hurt = rec['fired'] or 's%d' % i in hit
        step(run, plan, op, rec['out'], hurt, hold, now, cache, i, fails)
        fails += hurt
        if run.violations:
            return
    if plan['threads']:
        run.probe('switches', len(s.switches))
        run.note('switches', s.switches)
        hold = {}
        for rec in s.par:
            op = plan['threads'][rec['t']][rec['n']]
            run.steps += 1
            step(run, plan, op, rec['out'], False, hold, now, cache,
                 1000 + 10 * rec['t'] + rec['n'], 'threads')
            if run.violations:
                return


def step(run, plan, op, out, hurt, hold, now, cache, i, fails):
    k = op['op']
    if k == 'load':
        raw = op['name'] == 'Alpha' and (op['raw'] or not plan['stored'])
        none = op['name'] == 'Bravo' and op['raw']
        if out[0] == 'exc':
            run.check(hurt, 'refused', 'loading %s failed: %r' % (
                op['name'], out[1:]))
            return
        if none:        # nothing to calculate from
            hold[op['b']] = Recipe('stored', free(plan['bravo']))
        elif raw:
            hold[op['b']] = Recipe('raw', dict(now))
        else:
            hold[op['b']] = Recipe('stored', free(
                plan['stored'] if op['name'] == 'Alpha' else plan['bravo']))
        return
    r = hold.get(op['b'])
    what = '%s of a bicycle %s%s%s%s' % (
        k if k != 'ask' else op['q'], 'with %s geometry and a %s fork' % (
            'offset' if plan['perp'] else 'wheelbase', 'split' if
            plan['split'] else 'whole') if r.kind == 'raw' else 'from a file',
        ' with a rider' if r.rider else '', ' (%s)' % ', '.join(
            m[0] for m in r.mods) if r.mods else '',
        ' in a thread' if fails == 'threads' else '')
    if out[0] == 'exc':
        ok = hurt
        if k == 'ask' and op['q'] == 'steer':
            pts = points(run, r, cache)
            ok = ok or pts is None or quantities(pts[0], op) is None
        run.check(ok, 'refused', '%s failed: %r' % (what, out[1:]))
        return
    if k == 'recalc':
        hold[op['b']] = Recipe('raw', dict(now))
    elif k == 'rider':
        if not r.rider:
            r = hold[op['b']] = r.copy()
            for a, v in free(plan['rider']).items():
                r.x[('r', a)] = v
            r.mods.append(('rider',))
            r.rider = True
    elif k == 'set':
        r = hold[op['b']] = r.copy()
        key = out[1]
        if op['how'] == 'scale':
            r.mods.append(('scale', key, op['f']))
            return
        pts = points(run, hold[op['b']], cache)
        if pts is None:
            r.mods.append(('lost',))
            return
        v = pts[0][key] * op['f']
        n = ('e', '%d' % i)
        r.x[n] = [v, 0. if op['how'] == 'exact' else
                  (abs(v) + 1e-3) * op['s']]
        r.mods.append(('set', key, n))
    elif k == 'ask':
        pts = points(run, r, cache)
        if pts is None:
            return
        run.state(op['q'], op['flags'] if op['q'] == 'steer' else 0, r.kind,
                  plan['perp'], plan['split'], r.rider,
                  sorted({m[0] for m in r.mods}), fails, plan['how'])
        compare(run, pts, op, out[1], what)


def points(run, r, cache):
    if any(m[0] == 'lost' for m in r.mods):
        return None
    key = (r.kind, repr(sorted(r.x.items())), repr(r.mods))
    if key not in cache:
        cache[key] = r.points(run)
    return cache[key]
