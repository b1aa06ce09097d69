"""P05: what a bicycle loads depends only on its own files."""
import os
import shutil

from .. import core, env, fs as simfs, gen, machine, rig, sched
from . import p02, p04

ID = 'P05'
RUNS = {'quick': 2700, 'thorough': 30000}
LEVEL = 'seeded search over directory orders, neighbouring files, working ' \
    'directories, failing and short reads, load histories and ' \
    'interleavings of loading threads'
RULE = 'a run is non-trivial when a load happened beside debris, under a ' \
    'fault, after other loads or in parallel; counted by distinct (own ' \
    'files, options, debris kinds, fault, outcome) tuples'
STATE_MEASURE = 'distinct (own sets, raw data, options, path form, debris, ' \
    'fault, outcome, earlier loads) tuples'
REAL = ['Bicycle loading', 'text reader', 'benchmark calculation',
        'recording reader and period fit']
STUB = ['disk (directory order, failing, short and slow reads)',
        'thread scheduler', 'rasterizer of the fit plots']
ASSUMPTIONS = ['set and bicycle names are single capitalized words',
               'files named <Bicycle><Set>.txt belong to the bicycle']
SHRINK = ['faults', 'debris', 'ops', 'preempt', 'recs']

NS = None


def setup():
    global NS
    NS = env.load()


DEBRIS = [
    ('P', 'AlphaBenchmark.txt~', 'alt'), ('P', 'AlphaBenchmark.txt.bak', 'alt'),
    ('P', '.AlphaBenchmark.txt', 'alt'), ('P', '.AlphaBenchmark.txt.swp', 'bin'),
    ('P', '#AlphaBenchmark.txt#', 'alt'), ('P', 'AlphaBenchmark.bak', 'alt'),
    ('P', 'Copy of AlphaBenchmark.txt', 'alt'), ('P', 'AlphaBenchmark (1).txt',
                                                 'alt'),
    ('P', 'BravoBenchmark.txt', 'alt'), ('P', 'AlphabetBenchmark.txt', 'alt'),
    ('P', 'AlphaBenchmarkOld.txt', 'alt'), ('P', 'notes.txt', 'txt'),
    ('P', 'README', 'txt'), ('P', '.DS_Store', 'bin'), ('P', 'Thumbs.db',
                                                        'bin'),
    ('P', 'old/AlphaBenchmark.txt', 'alt'), ('P', 'JaneAlphaBenchmark.txt',
                                             'alt'),
    ('P', 'Alpha.txt', 'alt'), ('P', 'Benchmark.txt', 'alt'),
    ('P', 'AlphaBenchmark.csv', 'txt'), ('P', 'AlphaBenchmark.mat', 'bin'),
    ('P', '.0a1b2c.tmp', 'half'), ('P', 'tmp8f3a.tmp', 'half'),
    ('R', 'AlphaMeasured.txt~', 'alt'), ('R', 'AlphaMeasured.txt.orig', 'txt'),
    ('R', '.AlphaMeasured.txt', 'bin'), ('R', 'BravoMeasured.txt', 'alt'),
    ('R', 'AlphaBenchmark.txt', 'alt'), ('R', 'AlphaNotes.txt', 'txt'),
    ('R', 'AlphaFrameCompoundFirst1.mat~', 'bin'),
    ('R', '._AlphaFrameCompoundFirst1.mat', 'bin'),
    ('R', 'AlphaFrameCompoundFirst1.mat.part', 'bin'),
    ('R', 'old/AlphaFrameCompoundFirst1.mat', 'bin'),
    ('B', 'AlphaBenchmark.txt', 'alt'), ('B', 'AlphaMeasured.txt', 'alt'),
    ('B', 'notes.txt', 'txt'), ('B', 'Photos/AlphaMoore.txt', 'txt'),
    ('B', 'Plots/AlphaMoore.txt', 'txt'),
    ('X', 'bicycles/Alphabet/Parameters/AlphabetBenchmark.txt', 'alt'),
    ('X', 'bicycles/Alphabet/Parameters/AlphaBenchmark.txt', 'alt'),
    ('X', 'bicycles/Alph/Parameters/AlphaBenchmark.txt', 'alt'),
    ('X', 'bicycles/alpha/Parameters/alphaBenchmark.txt', 'alt'),
    ('X', 'bicycles/AlphaBenchmark.txt', 'alt'),
    ('X', 'riders/Jane/Parameters/JaneAlphaBenchmark.txt', 'alt'),
    ('X', 'riders/Alpha/Parameters/AlphaBenchmark.txt', 'alt'),
    ('X', 'AlphaBenchmark.txt', 'alt')]
FORMS = ['abs', 'abs', 'rel', 'curdir', 'dot', 'slash', 'default']


def own_files(rng, name):
    """The own files of one bicycle."""
    o = {'sets': {}, 'raw': None, 'recs': []}
    kind = rng.choice(['stored', 'stored', 'stored', 'both', 'both', 'both',
                       'raw', 'raw', 'raw', 'rec', 'noper'])
    if kind in ('stored', 'both'):
        o['sets']['Benchmark'] = gen.benchmark(rng)
    for s in rng.sample(['Moore', 'Sharp', 'Canonical'], rng.choice(
            [0, 0, 1, 2])):
        o['sets'][s] = gen.benchmark(rng)
    if kind != 'stored':
        p = rig.true_bike(rng)
        if rng.random() < .3:
            p = rig.split_fork(p, rng)
        mp, T = rig.measure(p, rng)
        mp = gen.enc(rng, mp, rng.choice([0., .8]))
        keys = sorted(T)
        drop = []
        if kind in ('rec', 'noper'):
            # a period of the frame and others are missing
            drop = [rng.choice([k for k in keys if k[1] == 'c'])]
            if kind == 'noper' or rng.random() < .5:
                drop += [k for k in rng.sample(keys, rng.randint(1, 2))
                         if k not in drop]
        for k in keys:
            if k not in drop:
                mp[k] = [T[k], 1e-5 * T[k]]
        o['raw'] = mp
        if kind == 'rec':
            for k in drop:
                o['recs'].append(p02.spec(rng, k, T[k], bike=name))
        elif rng.random() < .1:
            k = rng.choice(keys)
            o['recs'].append(p02.spec(rng, k, T[k], bike=name))
    return o


def generate(rng, tier, index):
    plan = {'alpha': own_files(rng, 'Alpha'), 'bravo': own_files(rng, 'Bravo'),
            'wchunk': None, 'rchunk': rng.choice([None, None, 33, 100]),
            'perm': rng.randint(0, 9999), 'swap': rng.random() < .5,
            'conc': rng.random() < .15, 'nonl': rng.random() < .3,
            'emptydirs': rng.random() < .2}
    n = rng.choice([0, 1, 2, 4, 8, 16])
    plan['debris'] = [list(d) for d in rng.sample(DEBRIS, n)]
    plan['alt'] = gen.benchmark(rng)
    ops, faults = [], []
    for i in range(rng.randint(1, 4)):
        ops.append({'bike': rng.choice(['Alpha', 'Alpha', 'Bravo']),
                    'raw': rng.random() < .4, 'per': rng.random() < .1,
                    'form': rng.choice(FORMS),
                    'spoil': rng.random() < .4})
        if rng.random() < .35:
            faults.append({'at': i, 'proc': 'p0', 'op': 'l%d' % i,
                           'k': rng.randint(0, 300), 'mode': rng.choice(
                               ['error', 'error', 'error', 'short', 'crash']),
                           'a': rng.randint(0, 9), 'b': rng.choice([0, 9]),
                           'c': rng.randint(0, 9),
                           'sticky': rng.random() < .3})
    plan['ops'], plan['faults'] = ops, faults
    plan['preempt'] = sorted([rng.randint(1, 60), rng.randint(0, 2)]
                             for _ in range(rng.randint(2, 8)))
    return plan


def build(root, plan, debris, only=None):
    data = os.path.join(root, 'data')
    for name, o in (('Alpha', plan['alpha']), ('Bravo', plan['bravo'])):
        if only and name != only:
            continue
        b = os.path.join(data, 'bicycles', name)
        os.makedirs(b, exist_ok=True)
        files = [(os.path.join(b, 'Parameters', name + s + '.txt'),
                  gen.text(v)) for s, v in sorted(o['sets'].items())]
        if o['raw'] is not None:
            files.append((os.path.join(b, 'RawData', name + 'Measured.txt'),
                          gen.text(o['raw'])))
        for sp in o['recs']:
            fn, by = rig.mat_bytes(sp)
            files.append((os.path.join(b, 'RawData', fn), by))
        if plan['swap'] and debris:
            files.reverse()
        for p, t in files:
            if plan['nonl'] and debris and isinstance(t, str):
                t = t.rstrip('\n')
            machine.put(p, t)
        if plan['emptydirs'] and debris:
            os.makedirs(os.path.join(b, 'RawData'), exist_ok=True)
    os.makedirs(os.path.join(root, 'elsewhere'), exist_ok=True)
    if not debris:
        return
    content = {'alt': gen.text(plan['alt']), 'txt': 'not a parameter file\n',
               'half': gen.text(plan['alt'])[:100] + '\nmB = ',
               'bin': bytes(range(256)) * 2}
    a = os.path.join(data, 'bicycles', 'Alpha')
    base = {'P': os.path.join(a, 'Parameters'), 'R': os.path.join(
        a, 'RawData'), 'B': a, 'X': data}
    for where, name, kind in plan['debris']:
        p = os.path.join(base[where], name)
        if not os.path.exists(p):
            machine.put(p, content[kind])


def place(root, form):
    data = os.path.join(root, 'data')
    return {'abs': (root, data), 'rel': (root, 'data'),
            'curdir': (data, '.'), 'dot': (os.path.join(root, 'elsewhere'),
                                           '../data'),
            'slash': (os.path.join(root, 'elsewhere'), data + os.sep),
            'default': (data, None)}[form]


def load(root, op):
    cwd, path = place(root, op['form'])
    os.chdir(cwd)
    kw = {}
    if op['raw']:
        kw['forceRawCalc'] = True
    if op['per']:
        kw['forcePeriodCalc'] = True
    if path is not None:
        kw['pathToData'] = path
    return NS.bp.Bicycle(op['bike'], **kw)


def snap(b):
    return {k: gen.plain(v) for k, v in b.parameters.items()}, \
        (b.hasRider, dict(b.riderPar), b.bicycleName)


def history(root, ops, faults, plan, perm):
    p02.stub_savefig()

    def body(ctx):
        held = []
        for i, op in enumerate(ops):
            def go():
                b = load(root, op)
                held.append(b)
                return snap(b)
            ctx.op('l%d' % i, go)
            with ctx.fs.hidden():
                ctx.s.snaps.append(machine.tree(root))
            if op['spoil'] and held:
                # users change what they have loaded
                for d in held[-1].parameters.values():
                    for k in sorted(d)[::2]:
                        d[k] = 1e3
                    d.pop((sorted(d) + ['x', 'y'])[1], None)
                held[-1].parameters['Junk'] = {}
                held[-1].riderPar['Benchmark'] = {'mB': 1.}
                held[-1].hasRider = True
    return machine.session(root, body, faults, (), plan['wchunk'],
                           plan['rchunk'], perm)


def threads(root, ops, faults, plan):
    """The loads run in concurrent threads (same working directory)."""
    p02.stub_savefig()
    sw = []

    def body(ctx):
        sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=True)

        def task(i):
            def go():
                ctx.fs.label('l%d' % i)
                op = dict(ops[i], form='abs')
                try:
                    v = ('ok', snap(load(root, op)))
                except (simfs.SimCrash, core.Hang, sched.Stuck):
                    raise
                except Exception as e:
                    v = ('exc', type(e).__name__, str(e)[:200],
                         isinstance(e, OSError))
                ctx.s.ops['l%d' % i] = v
            return go
        for i in range(len(ops)):
            sc.spawn(task(i), 'p%d' % i)
        sc.run()
        sw.extend(sc.switches)
        if sc.failure is not None:
            raise core.Hang(str(sc.failure))
        for t in sc.tasks:
            if isinstance(t.exc, core.Hang):
                raise t.exc
    return machine.session(root, body, faults, (), plan['wchunk'],
                           plan['rchunk'], plan['perm']), sw


def reference(run, plan, bike, raw, per, cache):
    """What the own files alone give: ('ok', sets) or ('exc',)."""
    key = (bike, raw, per)
    if key not in cache:
        root = os.path.join(run.root, 'ref%d' % len(cache))
        build(root, plan, False, bike)
        s = run.phase(history, root, [
            {'bike': bike, 'raw': raw, 'per': per, 'form': 'abs',
             'spoil': False}], [], dict(plan, rchunk=None), 0)
        cache[key] = s.ops['l0']
        shutil.rmtree(root)
    return cache[key]


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    build(root, plan, True)
    pre = machine.tree(root)
    ops = plan['ops']
    cache = {}
    if plan['conc']:
        # without faults; every thread loads
        if sum(o['bike'] == 'Bravo' for o in ops) in (0, len(ops)) and \
                plan['alpha' if ops and ops[0]['bike'] == 'Alpha' else
                     'bravo']['recs']:
            return              # two writers of the same raw file: P01, P02
        names = set()
        use = []
        for o in ops:
            own = plan['alpha' if o['bike'] == 'Alpha' else 'bravo']
            if own['recs'] and o['bike'] in names:
                continue
            names.add(o['bike'])
            use.append(o)
        s, sw = run.phase(threads, root, use[:3], [], plan)
        machine.account(run, s)
        run.note('switches', sw)
        for i, op in enumerate(use[:3]):
            judge(run, plan, op, s.ops.get('l%d' % i), s, cache, True,
                  'in parallel')
        after(run, pre, machine.tree(root), plan)
        run.state('threads', len(use), tuple(sw)[:6])
        return
    faults = []
    if plan['faults']:
        twin = machine.clone(root, os.path.join(run.root, 'twin'))
        ref = run.phase(history, twin, ops, [], plan, plan['perm'])
        for f in plan['faults']:
            n = sum(1 for e in ref.events if e[1] == f['op'])
            faults.append(dict(f, k=f['k'] % max(1, n)))
        shutil.rmtree(twin)
    s = run.phase(history, root, ops, faults, plan, plan['perm'])
    machine.account(run, s)
    run.check(not s.escapes, 'escape', 'wrote outside: %r' % s.escapes)
    for i, op in enumerate(ops):
        lab = 'l%d' % i
        if lab not in s.ops:
            break
        hit = any(f['op'] == lab and f['mode'] == 'error' for f in faults)
        # a forced period calculation lasts: it rewrites the raw file
        own = plan['alpha' if op['bike'] == 'Alpha' else 'bravo']
        forced = [o for o in ops[:i] if o['bike'] == op['bike'] and
                  o['per'] and (o['raw'] or 'Benchmark' not in own['sets'])]
        if forced and own['recs'] and not op['per'] and own['raw']:
            continue
        judge(run, plan, op, s.ops[lab], s, cache, not hit,
              'load %d of %d (%s)' % (i, len(ops), op['form']))
        if run.violations:
            return
    after(run, pre, machine.tree(root), plan)
    if not run.violations and plan['debris']:
        run.probe('loads-beside-debris')


def judge(run, plan, op, out, s, cache, clean, what):
    bike = op['bike']
    own = plan['alpha' if bike == 'Alpha' else 'bravo']
    ref = reference(run, plan, bike, op['raw'], op['per'], cache)
    what = '%s of %s (raw=%s, periods=%s)' % (what, bike, op['raw'],
                                              op['per'])
    if out is None:
        if clean and not s.crashed:
            run.violate('no-outcome', what)
        return
    if out[0] == 'exc':
        if clean and ref[0] == 'ok':
            run.violate('load-fails', '%s failed: %r (debris %s)' % (
                what, out[1:], [d[1] for d in plan['debris']]))
    else:
        if ref[0] != 'ok':
            run.violate('differs', '%s succeeded although the own files '
                        'alone give %r' % (what, ref[1:]))
            return
        sets, rest = out[1]
        want, wrest = ref[1]
        for k in sorted(set(sets) | set(want)):
            if k not in sets:
                run.violate('missing', '%s lacks %s' % (what, k))
            elif k not in want:
                run.violate('phantom', '%s has a set %s (debris %s)' % (
                    what, k, [d[1] for d in plan['debris']]))
            else:
                d = p04.exact(want[k], sets[k]) if not own['recs'] else \
                    near(want[k], sets[k])
                run.check(d is None, 'differs', '%s: %s %s' % (what, k, d))
        run.check(rest == wrest, 'differs', '%s: %r instead of %r' % (
            what, rest, wrest))
        # the stored sets are what the files state
        calc = (op['raw'] and own['raw'] is not None) or \
            'Benchmark' not in own['sets']
        for k, d in own['sets'].items():
            if (k == 'Benchmark' and calc) or run.violations:
                continue
            st = p04.parse(gen.text(d).split('\n'))
            d = p04.exact(st, sets.get(k))
            run.check(d is None, 'misread', '%s: %s %s' % (what, k, d))
        if own['raw'] is not None and not own['recs']:
            d = p04.exact(p04.parse(gen.text(own['raw']).split('\n')),
                          sets.get('Measured'))
            run.check(d is None, 'misread', '%s: Measured %s' % (what, d))
        if calc and own['raw'] is not None:
            b = sets.get('Benchmark')
            if b is None or not set(rig.CANON_KEYS) <= set(b):
                run.violate('missing', '%s did not compute all benchmark '
                            'parameters' % what)
            elif 'Benchmark' in own['sets']:
                st = p04.parse(gen.text(own['sets']['Benchmark']).split('\n'))
                run.check(p04.exact(st, b) is not None, 'not-recalculated',
                          '%s returned the stored parameters' % what)
    run.state(sorted(own['sets']), own['raw'] is not None, bool(own['recs']),
              op['raw'], op['per'], op['form'], len(plan['debris']),
              sorted(s.fired), out[0])
    run.probe('recalculated', bool(op['raw'] and own['raw'] is not None))


def near(a, b):
    """Equal up to the rounding of periods written to the raw file."""
    if set(a) != set(b):
        return 'names %s' % sorted(set(a) ^ set(b))[:6]
    for k in sorted(a):
        (x, s), (y, t) = a[k], b[k]
        if abs(x - y) > 1e-4 * abs(x) + 1e-5 + .3 * (s or 0.) or \
                abs((s or 0.) - (t or 0.)) > .3 * (s or 0.) + 1e-7:
            return '%s: %r became %r' % (k, a[k], b[k])
    return None


def after(run, pre, got, plan):
    for k in sorted(set(pre) | set(got)):
        if pre.get(k) == got.get(k):
            continue
        base = os.path.basename(k)
        if os.sep + 'Plots' + os.sep in k or base.startswith('.'):
            continue
        name = 'alpha' if 'Alpha' + os.sep in k else 'bravo'
        if base.endswith('Measured.txt') and k in pre and k in got and (
                plan[name]['recs'] or p02.parse(pre[k]) == p02.parse(got[k])):
            continue            # the periods: P02
        run.violate('changed', 'loading changed or created %s' % k)
