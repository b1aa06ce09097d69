"""P04: saving and reloading returns the same bicycle."""
import math
import os

from .. import env, gen, machine, rig

ID = 'P04'
RUNS = {'quick': 2700, 'thorough': 30000}
LEVEL = 'seeded search over histories of typing, loading, editing, riding, ' \
    'saving and reloading in separate processes, with disk faults and kills'
RULE = 'a run is non-trivial when something was saved and reloaded; counted ' \
    'by distinct (step kind, sets, uncertain or not, rider, edit kinds, ' \
    'fault, outcome) tuples'
STATE_MEASURE = 'distinct (step, edits, number of sets, rider, fault, ' \
    'outcome, cycle number) tuples'
REAL = ['text reader and writer', 'Bicycle loading, saving, add_rider',
        'benchmark calculation from raw data']
STUB = ['disk (chunked, short, failing reads and writes, kills)',
        'user at the keyboard (answers y)']
ASSUMPTIONS = ['set, bicycle and rider names are single capitalized words',
               'lists of values are either all with or all without '
               'uncertainty']
SHRINK = ['faults', 'ops', 'hand']

NS = None
SETS = ['Benchmark', 'Moore', 'Sharp', 'Principal']
BIKES = ['Alpha', 'Bravo']
RIDERS = ['Jane', 'Karl']


def setup():
    global NS
    NS = env.load()


# -- plan ---------------------------------------------------------------------


def number(rng, v):
    s = rng.choice(['%r', '%r', '%.6f', '%.4e', '%+.5f']) % v
    return s


def hand_lines(rng, d):
    """Lines of a file typed by hand."""
    out = []
    for k in sorted(d, key=lambda _: rng.random()):
        v = d[k][0] if isinstance(d[k], list) else d[k]
        unc = isinstance(d[k], list)
        n = rng.choice([1, 1, 1, 2, 3])
        vals = []
        for i in range(n):
            x = v * (1. + (rng.uniform(-1e-3, 1e-3) if n > 1 else 0.))
            t = number(rng, x)
            if unc:
                sep = rng.choice(['+/-', ' +/- ', '+/-'])
                t += sep + '%.6f' % (abs(x) * rng.uniform(1e-3, 1e-2) + 1e-5)
            vals.append(t)
        eq = rng.choice([' = ', '=', ' =', '= '])
        line = k + eq + rng.choice([', ', ',', ' , ']).join(vals)
        if rng.random() < .15:
            line += rng.choice([' # checked', '# 3 trials', '   '])
        if rng.random() < .08:
            out.append(rng.choice(['# a remark', '#mB = 77.0', '# x = y = z',
                                   '#']))
        if rng.random() < .08:
            out.append(rng.choice(['', '', '   ']))
        if rng.random() < .05:
            line = ' ' + line
        out.append(line)
    if rng.random() < .15:
        out.append('')
    return out


def newval(rng):
    v = rng.choice([1., -1.]) * 10.**rng.uniform(-4, 3)
    r = rng.random()
    if r < .4:
        return v
    return [v, abs(v) * 10.**rng.uniform(-5, -.3)]


def generate(rng, tier, index):
    plan = {'wchunk': rng.choice([None, None, 20, 100]),
            'rchunk': rng.choice([None, None, 17, 64]),
            'perm': rng.randint(0, 999), 'nonl': rng.random() < .3}
    hand = []
    bikes = BIKES[:rng.choice([1, 1, 2])]
    plan['raw'] = {}
    for b in bikes:
        sets = ['Benchmark'] + rng.sample(SETS[1:], rng.choice([0, 0, 1, 2]))
        if rng.random() < .3:
            p = rig.true_bike(rng)
            if rng.random() < .3:
                p = rig.split_fork(p, rng)
            mp, T = rig.measure(p, rng)
            mp.update({k: [v, 1e-5 * v] for k, v in T.items()})
            plan['raw'][b] = hand_lines_simple(rng, gen.enc(rng, {
                k: v for k, v in mp.items() if not isinstance(v, list)},
                .9), {k: v for k, v in mp.items() if isinstance(v, list)})
            if rng.random() < .5:
                sets = sets[1:]
        for s in sets:
            d = gen.benchmark(rng, unc=rng.choice([0., .5, 1.]))
            hand.append([['bicycles', b, 'Parameters', b + s + '.txt'],
                         hand_lines(rng, d)])
        for r in RIDERS:
            if rng.random() < .6:
                d = gen.enc(rng, rig.rider(rng), rng.choice([0., 0., .5]))
                hand.append([['riders', r, 'Parameters',
                              r + b + 'Benchmark.txt'], hand_lines(rng, d)])
    plan['bikes'] = bikes
    plan['hand'] = hand
    ops, faults = [], []
    for i in range(rng.randint(1, 5)):
        b = rng.choice(bikes)
        op = {'bike': b, 'raw': rng.random() < .3, 'edits': [],
              'rider': rng.choice([None, None, 'Jane', 'Karl']),
              'repeat': rng.choice([1, 1, 2])}
        for j in range(rng.choice([0, 0, 1, 2, 3])):
            e = rng.random()
            if e < .6:
                op['edits'].append(['set', rng.randint(0, 9),
                                    rng.randint(0, 99), newval(rng)])
            elif e < .75:
                op['edits'].append(['new', rng.choice(SETS[1:]),
                                    gen.benchmark(rng)])
            elif e < .9:
                op['edits'].append(['add', 'q%d' % j, newval(rng)])
            else:
                op['edits'].append(['copy', rng.choice(SETS[1:])])
        ops.append(op)
        if rng.random() < .25:
            faults.append({'at': i, 'proc': 'p0', 'op': 'save',
                           'k': rng.randint(0, 200), 'mode': rng.choice(
                               ['error', 'crash', 'short', 'short']),
                           'a': rng.randint(1, 9),
                           'b': rng.choice([0, 9, 200]),
                           'c': rng.randint(0, 9),
                           'sticky': rng.random() < .3})
    plan['ops'], plan['faults'] = ops, faults
    return plan


def hand_lines_simple(rng, d, periods):
    out = []
    for k, v in sorted(d.items()):
        out.append('%s = %s' % (k, '%r+/-%r' % tuple(v)
                                if isinstance(v, list) else '%r' % v))
    for k, v in sorted(periods.items()):
        out.append('%s = %r+/-%r' % (k, v[0], v[1]))
    return out


# -- reference ------------------------------------------------------------------


def parse(lines):
    """What a file in the documented format states: {key: (value, std)}."""
    out = {}
    for line in lines:
        line = line.split('#')[0].strip()
        if not line:
            continue
        k, v = line.split('=')
        vals, var, n = 0., 0., 0
        unc = '+/-' in v
        for x in v.split(','):
            f = 1.
            if x.strip().startswith('('):
                x, e = x.strip()[1:].split(')')
                f = float('1' + e)
            q = x.split('+/-')
            vals += float(q[0]) * f
            if unc:
                var += (float(q[1]) * f)**2
            n += 1
        out[k.strip()] = (vals / n, math.sqrt(var) / n if unc else None)
    return out


def printed(a, b):
    """b is a after printing it to a file and reading it."""
    if set(a) != set(b):
        return 'names %s' % sorted(set(a) ^ set(b))[:6]
    for k in sorted(a):
        (x, s), (y, t) = a[k], b[k]
        if not s:
            if not (y == x or abs(y - x) <= 1e-15 * abs(x)):
                return '%s: %r became %r' % (k, x, y)
            if t:
                return '%s got the uncertainty %r' % (k, t)
        else:
            if t is None:
                return '%s lost its uncertainty %r' % (k, s)
            if abs(y - x) > .145 * s + 1e-12 * abs(x):
                return '%s: %r+/-%r became %r' % (k, x, s, y)
            if abs(t - s) > .145 * s:
                return '%s: uncertainty %r became %r' % (k, s, t)
    return None


def exact(a, b):
    if a is None or b is None:
        return None if a is b else 'missing'
    if set(a) != set(b):
        return 'names %s' % sorted(set(a) ^ set(b))[:6]
    for k in sorted(a):
        (x, s), (y, t) = a[k], b[k]
        if x != y or (s or 0.) != (t or 0.):
            if not (close(x, y, 1e-14) and close(s or 0., t or 0., 1e-12)):
                return '%s: %r became %r' % (k, a[k], b[k])
    return None


def close(a, b, rel):
    return abs(a - b) <= rel * max(abs(a), abs(b))


def combine(bike, rid):
    """Nominal rear body of bicycle and rider."""
    g = lambda d, k: d[k][0] if k in d else 0.
    m = [g(bike, 'mB'), g(rid, 'mB')]
    M = sum(m)
    out = {'mB': M}
    c = {}
    for a in 'xz':
        c[a] = (m[0] * g(bike, a + 'B') + m[1] * g(rid, a + 'B')) / M
        out[a + 'B'] = c[a]
    I = {'xx': 0., 'xz': 0., 'yy': 0., 'zz': 0.}
    cy = m[1] * g(rid, 'yB') / M
    for d in (bike, rid):
        mm = g(d, 'mB')
        dx, dz = g(d, 'xB') - c['x'], g(d, 'zB') - c['z']
        dy = (g(d, 'yB') if d is rid else 0.) - cy
        I['xx'] += g(d, 'IBxx') + mm * (dy * dy + dz * dz)
        I['xz'] += g(d, 'IBxz') - mm * dx * dz
        I['yy'] += g(d, 'IByy') + mm * (dx * dx + dz * dz)
        I['zz'] += g(d, 'IBzz') + mm * (dx * dx + dy * dy)
    for k, v in I.items():
        out['IB' + k] = v
    return out


# -- execution ------------------------------------------------------------------


def snapshot(b):
    return {k: gen.plain(v) for k, v in b.parameters.items()}


def edit(b, e):
    if e[0] == 'set':
        sets = sorted(k for k in b.parameters if k != 'Measured')
        s = sets[e[1] % len(sets)]
        keys = sorted(b.parameters[s])
        b.parameters[s][keys[e[2] % len(keys)]] = gen.dec({'x': e[3]})['x']
    elif e[0] == 'add':
        b.parameters['Benchmark'][e[1]] = gen.dec({'x': e[2]})['x']
    elif e[0] == 'new':
        b.parameters[e[1]] = gen.dec(e[2])
    else:
        b.parameters[e[1]] = dict(b.parameters['Benchmark'])


def one(root, op, faults, plan):
    data = os.path.join(root, 'data')

    def body(ctx):
        def load():
            b = NS.bp.Bicycle(op['bike'], data, forceRawCalc=op['raw'] and
                              op['bike'] in plan['raw'])
            hold.append(b)
            return snapshot(b)
        hold = []
        if ctx.op('load', load)[0] != 'ok':
            return
        b = hold[0]
        for e in op['edits']:
            if e[0] == 'set' or op['rider'] is None:
                edit(b, e)
        if op['rider']:
            def ride():
                b.add_rider(op['rider'])
                return (snapshot(b), {k: gen.plain(v)
                                      for k, v in b.riderPar.items()})
            bare = snapshot(b)
            ctx.s.snaps.append(bare)
            if ctx.op('ride', ride)[0] != 'ok':
                return
        ctx.s.snaps.append((snapshot(b), {k: gen.plain(v)
                                          for k, v in b.riderPar.items()}))

        def save():
            b.save_parameters()
        for i in range(op['repeat']):
            ctx.op('save', save)
    return machine.session(root, body, faults, ['y'] * 50, plan['wchunk'],
                           plan['rchunk'], plan['perm'])


def look(root, bikes, plan):
    """A new process that loads everything."""
    data = os.path.join(root, 'data')

    def body(ctx):
        for b in bikes:
            ctx.op(b, lambda: snapshot(NS.bp.Bicycle(b, data)))
            for r in RIDERS:
                def ride():
                    k = NS.bp.Bicycle(b, data)
                    k.add_rider(r)
                    return snapshot(k), gen.plain(k.riderPar['Benchmark'])
                if os.path.exists(os.path.join(
                        data, 'riders', r, 'Parameters', r + b +
                        'Benchmark.txt')):
                    ctx.op(r + b, ride)
    s = machine.session(root, body, (), (), plan['wchunk'], plan['rchunk'],
                        plan['perm'] + 1)
    return s.ops


def build(root, plan):
    for rel, lines in plan['hand']:
        machine.put(os.path.join(root, 'data', *rel), '\n'.join(lines) +
                    ('' if plan['nonl'] else '\n'))
    for b in plan['bikes']:
        os.makedirs(os.path.join(root, 'data', 'bicycles', b), exist_ok=True)
        if b in plan['raw']:
            machine.put(os.path.join(root, 'data', 'bicycles', b, 'RawData',
                                     b + 'Measured.txt'),
                        '\n'.join(plan['raw'][b]) + '\n')


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    build(root, plan)
    model = {}                  # (bike, set) or (rider, bike): plain
    for rel, lines in plan['hand']:
        name = rel[-1][:-4]
        if rel[0] == 'bicycles':
            model[(rel[1], name[len(rel[1]):])] = parse(lines)
        else:
            model[(rel[1], name[len(rel[1]):-9])] = parse(lines)
    for b in plan['raw']:
        model[(b, 'Measured')] = parse(plan['raw'][b])
    bikes = [b for b in plan['bikes'] if (b, 'Benchmark') in model or
             b in plan['raw']]
    seen = observe(run, plan, root, bikes, model, {}, 'typed by hand')
    if run.violations or not bikes:
        return
    saved = set()
    for i, op in enumerate(plan['ops']):
        if op['bike'] not in bikes:
            continue
        pre = machine.tree(root)
        faults = []
        mine = [f for f in plan['faults'] if f['at'] == i]
        if mine:
            twin = machine.clone(root, os.path.join(run.root, 't%d' % i))
            ref = run.phase(one, twin, op, [], plan)
            n = sum(1 for e in ref.events if e[1] == 'save')
            faults = [dict(f, k=f['k'] % max(1, n)) for f in mine]
        s = run.phase(one, root, op, faults, plan)
        machine.account(run, s)
        run.check(not s.escapes, 'escape', 'wrote outside: %r' % s.escapes)
        got = machine.tree(root)
        fine = not [f for f in s.fired if not f.startswith('short')]
        what = 'step %d' % i
        b, r = op['bike'], op['rider']
        if s.ops['load'][0] != 'ok':
            return run.violate('load-fails', '%s: loading %s failed: %r' % (
                what, b, s.ops['load'][1:]))
        if r and s.ops.get('ride', ('x',))[0] != 'ok':
            # no such rider is an error, and nothing is saved
            if (r, b) in model:
                run.violate('rider-fails', '%s: adding %s to %s failed: %r' %
                            (what, r, b, s.ops['ride'][1:]))
            run.check(got == pre, 'changed', '%s: a failed addition changed '
                      'the files' % what)
            continue
        mem, rider = s.snaps[-1]
        out = s.ops.get('save')
        if out and out[0] != 'ok' and fine:
            return run.violate('save-fails', '%s: saving failed: %r' % (
                what, out[1:]))
        touched = {}
        if r:
            touched[(r, b)] = rider['Benchmark']
        else:
            for k, v in mem.items():
                if k != 'Measured':
                    touched[(b, k)] = v
        # only the documented files were written
        ok = set()
        for a, k in touched:
            if r:
                ok.add('data/riders/%s/Parameters/%s%sBenchmark.txt' % (
                    r, r, b))
                ok.add('data/riders/%s/Parameters/Combined/%s%s'
                       'Benchmark.txt' % (r, r, b))
            else:
                ok.add('data/bicycles/%s/Parameters/%s%s.txt' % (a, a, k))
        for k in sorted(set(pre) | set(got)):
            if pre.get(k) != got.get(k) and k not in ok and \
                    not os.path.basename(k).startswith('.'):
                run.violate('other-file', '%s: saving %s%s wrote %s' % (
                    what, b, ' with ' + r if r else '', k))
        if r and fine:
            comb = 'data/riders/%s/Parameters/Combined/%s%sBenchmark.txt' % (
                r, r, b)
            if comb not in got:
                run.violate('not-saved', '%s: no %s' % (what, comb))
            else:
                try:
                    d = printed(mem['Benchmark'],
                                parse(got[comb].decode().split('\n')))
                except ValueError as e:
                    d = str(e)
                run.check(d is None, 'combined', '%s: %s does not hold the '
                          'combined bicycle: %s' % (what, comb, d))
        if run.violations:
            return
        before = dict(model)
        # an interrupted save leaves each set old or new
        want = {}
        for k, v in touched.items():
            want[k] = ([v] if fine else [v, before.get(k)])
        seen2 = observe(run, plan, root, bikes, model, want, what)
        if run.violations:
            return
        # saving what was just loaded changes nothing
        if not op['edits'] and not op['raw'] and fine:
            for k in touched:
                d = exact(seen.get(k), seen2.get(k)) if k in saved else None
                if d:
                    run.violate('drift', '%s: saving the unchanged %s gave '
                                '%s' % (what, ' '.join(k), d))
        seen = seen2
        saved = (saved | set(touched)) if fine else saved - set(touched)
        run.state(bool(r), len(mem), sorted(e[0] for e in op['edits']),
                  op['raw'], sorted(s.fired), out and out[0],
                  any(s_ for d in mem.values() for _, s_ in d.values()))
        run.probe('saves', op['repeat'])


def observe(run, plan, root, bikes, model, want, what):
    """Checks what a new process sees against the model and makes it the
    model.  want: {key: acceptable saved parameters}."""
    ops = run.phase(look, root, bikes, plan)
    seen = {}
    for b in bikes:
        out = ops[b]
        if out[0] != 'ok':
            run.violate('load-fails', '%s: a new process cannot load %s: %r' %
                        (what, b, out[1:]))
            return seen
        for k, v in out[1].items():
            seen[(b, k)] = v
        for r in RIDERS:
            if r + b not in ops:
                continue
            out = ops[r + b]
            if out[0] != 'ok':
                run.violate('rider-fails', '%s: a new process cannot put %s '
                            'on %s: %r' % (what, r, b, out[1:]))
                return seen
            comb, rid = out[1]
            seen[(r, b)] = rid
            ref = combine(seen[(b, 'Benchmark')], rid)
            for k in ref:
                if not close(ref[k], comb['Benchmark'][k][0], 1e-9) and \
                        abs(ref[k] - comb['Benchmark'][k][0]) > 1e-9:
                    run.violate('combined', '%s: %s on %s has %s = %r '
                                'instead of %r' % (
                                    what, r, b, k, comb['Benchmark'][k][0],
                                    ref[k]))
                    return seen
    expect = set(model) | set(want)
    for k in sorted(set(seen) | expect):
        if k not in seen:
            opts = want.get(k, [1])
            if None not in opts:
                run.violate('lost', '%s: a new process has no %s' % (
                    what, ' '.join(k)))
            continue
        if k in want:
            ds = []
            for v in want[k]:
                d = printed(v, seen[k]) if v is not None else 'absent'
                if d is None:
                    break
                ds.append(d)
            else:
                run.violate('changed', '%s: %s was not saved as it was: %s' %
                            (what, ' '.join(k), ds[0]))
        elif k in model:
            d = exact(model[k], seen[k])
            run.check(d is None, 'changed' if what != 'typed by hand' else
                      'misread', '%s: %s: %s' % (what, ' '.join(k), d))
        elif not (k[1] == 'Benchmark' and k[0] in plan['raw']):
            run.violate('phantom', '%s: %s appeared' % (what, ' '.join(k)))
    model.update(seen)
    return seen
