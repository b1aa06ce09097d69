"""P01: saving is all or nothing."""
import os

from .. import core, env, fs as simfs, gen, machine, rig, sched

ID = 'P01'
RUNS = {'quick': 3800, 'thorough': 60000}
LEVEL = 'seeded search over save kinds, prior contents, disk faults, crash ' \
    'and power-loss points and two-writer interleavings'
RULE = 'a run is non-trivial when a fault fired inside a save or two ' \
    'savers interleaved; counted by distinct (save kind, fault, event kind, ' \
    'outcome of the target) tuples'
STATE_MEASURE = 'distinct (save kind, fault mode and errno, file-system ' \
    'event hit, outcome old/new, result reported, interleaving) tuples'
REAL = ['parameter text writer', 'period writer', 'Bicycle.save_parameters',
        'ParameterSet YAML/INI writers', 'rST table writer', 'PyYAML']
STUB = ['disk (simulated faults and durability over a scratch directory)',
        'user at the prompt', 'process scheduler', 'pid/urandom/tempnames']
ASSUMPTIONS = [
    'power loss may drop any suffix of metadata operations and tear data '
    'that was not fsynced', 'rename within a directory is atomic']
SHRINK = ['faults', 'preempt', 'ops']

NS = None
KINDS = ['text', 'text', 'bike', 'rider', 'periods', 'rawcalc', 'yaml',
         'ini', 'rst']


def setup():
    global NS
    NS = env.load()


def generate(rng, tier, index):
    conc = rng.random() < 0.25
    plan = {'conc': conc, 'wchunk': rng.choice([None, None, 7, 50, 200]),
            'rchunk': rng.choice([None, None, 64]),
            'bench': gen.benchmark(rng, split=False, flywheel=False),
            'preexist': rng.random() < 0.8}
    p = rig.true_bike(rng)
    mp, T = rig.measure(p, rng)
    plan['measured'] = gen.enc(rng, mp, 1.0)
    plan['periods'] = gen.enc(rng, T, 1.0, 1e-5)
    plan['rider'] = rig.rider(rng)
    ops = []
    if conc:
        kind = rng.choice(['text', 'periods', 'yaml', 'ini', 'rst'])
        for i in range(2):
            ops.append({'kind': kind, 'new': newvals(rng, kind)})
        plan['preempt'] = sorted(
            [rng.randint(1, 30), rng.randint(0, 2)]
            for _ in range(rng.randint(1, 5)))
        if rng.random() < 0.4:
            plan['faults'] = [fault(rng, 'p%d' % rng.randint(0, 1))]
        else:
            plan['faults'] = []
    else:
        for i in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(KINDS)
            ops.append({'kind': kind, 'new': newvals(rng, kind)})
        plan['faults'] = []
        for i in range(len(ops)):
            if rng.random() < 0.9:
                f = fault(rng, 'p0')
                f['at'] = i
                plan['faults'].append(f)
        plan['preempt'] = []
    plan['ops'] = ops
    return plan


def newvals(rng, kind):
    if kind == 'periods':
        d = {}
        for k in rng.sample(['TcB1', 'TtB1', 'TtB2', 'TtH3', 'TcF1', 'TtP1'],
                            rng.randint(1, 5)):
            d[k] = [rng.uniform(.5, 3.), 1e-5 * rng.random() + 1e-8]
        return d
    d = rig.true_bike(rng)
    d['v'] = rng.uniform(1., 9.)
    if kind in ('text', 'bike', 'rider'):
        return gen.enc(rng, d, rng.choice([0., 1.]))
    return d


def fault(rng, proc):
    return {'proc': proc, 'op': 'save', 'k': rng.randint(0, 400),
            'mode': rng.choice(['error', 'error', 'crash', 'crash', 'power',
                                'short']),
            'a': rng.randint(0, 9), 'b': rng.choice([0, 0, 1, 13, 100, 900]),
            'c': rng.randint(0, 9), 'sticky': rng.random() < 0.6}


BYSTANDERS = [
    'data/bicycles/Beta/Parameters/BetaBenchmark.txt',
    'data/bicycles/Beta/RawData/BetaMeasured.txt',
    'data/bicycles/Alpha/RawData/notes.txt',
    'data/riders/Jane/Parameters/JaneBetaBenchmark.txt',
    'data/riders/Jane/Parameters/Combined/JaneBetaBenchmark.txt',
    'data/riders/Jane/Parameters/Combined/notes.txt',
    'data/riders/Joe/Parameters/Combined/JoeAlphaBenchmark.txt',
    'out/pars.txt.bak', 'out/pars.txt~', 'out/.pars.txt.swp', 'out/pars.tmp',
    'out/pars', 'out/set.yml.bak', 'out/set', 'out/.tmp', 'out/other.tmp',
]

#: what a kind of save is about
ABOUT = {
    'text': ['out/pars.txt'], 'yaml': ['out/set.yml'],
    'ini': ['out/set.ini'], 'rst': ['out/table.rst'],
    'periods': ['data/bicycles/Alpha/RawData/AlphaMeasured.txt'],
    'bike': ['data/bicycles/Alpha/Parameters/AlphaBenchmark.txt'],
    'rawcalc': ['data/bicycles/Alpha/Parameters/AlphaBenchmark.txt',
                'data/bicycles/Alpha/RawData/AlphaMeasured.txt'],
    'rider': ['data/riders/Jane/Parameters/JaneAlphaBenchmark.txt',
              'data/riders/Jane/Parameters/Combined/JaneAlphaBenchmark.txt'],
}


def build(root, plan):
    b = os.path.join(root, 'data', 'bicycles', 'Alpha')
    if plan['preexist']:
        machine.put(os.path.join(b, 'Parameters', 'AlphaBenchmark.txt'),
                    gen.text(plan['bench']))
    else:
        # the bicycle still needs parameters, but the save targets are new
        machine.put(os.path.join(b, 'Parameters', 'AlphaBenchmark.txt'),
                    gen.text(plan['bench']))
    raw = dict(plan['measured'])
    raw.update(plan['periods'])
    machine.put(os.path.join(b, 'RawData', 'AlphaMeasured.txt'),
                gen.text(raw))
    machine.put(os.path.join(root, 'data', 'riders', 'Jane', 'Parameters',
                             'JaneAlphaBenchmark.txt'),
                gen.text(plan['rider']))
    # files that no save is about
    for f in BYSTANDERS:
        machine.put(os.path.join(root, f), gen.text(plan['bench'])
                    if f.endswith('Benchmark.txt') else 'c = 0.1\n')
    os.makedirs(os.path.join(root, 'out'), exist_ok=True)
    if plan['preexist']:
        machine.put(os.path.join(root, 'out', 'pars.txt'),
                    gen.text(plan['bench']))
        machine.put(os.path.join(root, 'out', 'set.yml'),
                    'values:\n  old: 1.0\n')
        machine.put(os.path.join(root, 'out', 'set.ini'), 'old=1.0\n')
        machine.put(os.path.join(root, 'out', 'table.rst'), '+--+\n|  |\n')


def prepare(root, op):
    """Returns a function that performs the save."""
    data = os.path.join(root, 'data')
    out = os.path.join(root, 'out')
    new = gen.dec(op['new'])
    kind = op['kind']
    if kind == 'text':
        return lambda: NS.io.write_parameter_text_file(
            os.path.join(out, 'pars.txt'), new)
    if kind == 'periods':
        path = os.path.join(data, 'bicycles', 'Alpha', 'RawData',
                            'AlphaMeasured.txt')
        return lambda: NS.io.write_periods_to_file(path, new)
    if kind in ('yaml', 'ini'):
        cls = NS.parameter_sets.Meijaard2007ParameterSet
        ps = cls({k: float(v) for k, v in op['new'].items()}, True)
        if kind == 'yaml':
            return lambda: ps.to_yaml(os.path.join(out, 'set.yml'))
        return lambda: ps.to_ini(os.path.join(out, 'set.ini'))
    if kind == 'rawcalc':
        return lambda: NS.bp.Bicycle('Alpha', data, forceRawCalc=True
                                     ).save_parameters()
    bike = NS.bp.Bicycle('Alpha', data)
    if kind == 'rst':
        bike.parameters['Benchmark'].update(new)
        t = NS.tables.Table('Benchmark', False, [bike])
        return lambda: t.create_rst_table(os.path.join(out, 'table.rst'))
    if kind == 'rider':
        bike.add_rider('Jane')
    else:
        bike.parameters['Benchmark'].update(new)
    return lambda: bike.save_parameters()


def one(root, op, faults, plan, user=40):
    def body(ctx):
        fn = prepare(root, op)
        ctx.op('save', fn)
    return machine.session(root, body, faults, ['y'] * user, plan['wchunk'],
                           plan['rchunk'])


def loadable(root):
    """What a fresh process sees."""
    def body(ctx):
        def load():
            b = NS.bp.Bicycle('Alpha', os.path.join(root, 'data'))
            return {k: gen.plain(v) for k, v in b.parameters.items()}
        ctx.op('load', load)
    return machine.session(root, body)


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    build(root, plan)
    if plan['conc']:
        return concurrent(run, plan, root)
    for i, op in enumerate(plan['ops']):
        pre = machine.tree(root)
        twin = machine.clone(root, os.path.join(run.root, 'twin%d' % i))
        ref = run.phase(one, twin, op, [], plan)
        post = machine.tree(twin)
        if ref.ops['save'][0] != 'ok':
            run.violate('save-fails', 'a %s save without any fault failed: '
                        '%r' % (op['kind'], ref.ops['save'][1:]))
            return
        n = sum(1 for e in ref.events if e[1] == 'save')
        faults = []
        for f in plan['faults']:
            if f['at'] == i:
                f = dict(f)
                f['k'] = f['k'] % max(1, n)
                faults.append(f)
        s = run.phase(one, root, op, faults, plan)
        machine.account(run, s)
        got = machine.tree(root)
        judge(run, op, pre, post, got, s, faults)
        run.check(not s.escapes, 'escape', 'wrote outside: %r' % s.escapes)
        if run.violations:
            return
        if op['kind'] in ('bike', 'rawcalc') or s.crashed:
            a = run.phase(loadable, root)
            b = run.phase(loadable, twin)
            if a.ops['load'][0] != 'ok':
                run.violate('unloadable', 'after %s during a %s save the '
                            'bicycle cannot be opened: %r' % (
                                fdesc(s), op['kind'], a.ops['load'][1:]))
                return
            if b.ops['load'][0] == 'ok':
                run.check(set(a.ops['load'][1]) <= set(b.ops['load'][1]) |
                          {'Benchmark', 'Measured'}, 'phantom-set',
                          'left-overs are loaded as parameter sets: %r' % (
                              sorted(a.ops['load'][1]),))
        if run.violations:
            return


def fdesc(s):
    if s.crashed:
        return '%s at %s of %s' % (s.crashed[4], s.crashed[2], s.crashed[3])
    return ', '.join(sorted(s.fired)) or 'no fault'


def judge(run, op, pre, post, got, s, faults):
    kind = op['kind']
    targets = sorted(k for k in set(pre) | set(post)
                     if pre.get(k) != post.get(k))
    for t in targets:
        if t not in ABOUT[kind]:
            run.violate('other-file', 'a %s save %s %s' % (
                kind, 'changed' if t in post else 'deleted', t))
            return
    changed = 0
    for t in targets:
        g = got.get(t)
        if g == post.get(t):
            changed += 1
        elif g == pre.get(t):
            pass
        else:
            run.violate('torn', '%s of a %s save left %s with %s bytes that '
                        'are neither the old (%s) nor the new (%s) content: '
                        '%r...' % (fdesc(s), kind, t, len(g or b''),
                                   size(pre.get(t)), size(post.get(t)),
                                   (g or b'')[:80]))
    for k, v in pre.items():
        if k not in targets and got.get(k) != v:
            run.violate('other-file', '%s of a %s save changed %s' % (
                fdesc(s), kind, k))
    out = s.ops.get('save')
    errs = [e for e in s.fired if e.startswith('error')]
    if out is None:
        run.check(s.crashed, 'no-outcome', 'no outcome without a crash')
    elif out[0] == 'ok':
        if out[1] is not False and changed != len(targets) and \
                (errs or not s.fired):
            run.violate('false-success', 'a %s save reported success after '
                        '%s, but %s still has the old content' % (
                            kind, fdesc(s), targets))
        if not s.fired or all(e.startswith('short') for e in s.fired):
            run.check(changed == len(targets), 'not-saved',
                      '%s save succeeded but %d of %d files are new' % (
                          kind, changed, len(targets)))
    else:
        if not errs and not s.crashed:
            run.violate('save-fails', 'a %s save under %s failed: %r' % (
                kind, fdesc(s), out[1:]))
        elif not out[3]:
            run.violate('wrong-error', 'a disk error (%s) of a %s save '
                        'surfaced as %r' % (fdesc(s), kind, out[1:]))
    st = 'new' if changed == len(targets) else 'old' if not changed else 'mix'
    hit = s.crashed[2] if s.crashed else '-'
    run.state(kind, sorted(s.fired), hit, st, out and out[0],
              bool(targets and targets[0] in pre))
    run.probe('target-' + st)


def size(b):
    return 'absent' if b is None else '%d bytes' % len(b)


# ---------------------------------------------------------------------------


def concurrent(run, plan, root):
    ops = plan['ops']
    if len(ops) < 2:
        return
    pre = machine.tree(root)
    # sequential references
    versions = [pre]
    seqs = [[0], [1], [0, 1], [1, 0]]
    n = 1
    for j, seq in enumerate(seqs):
        twin = machine.clone(root, os.path.join(run.root, 'twin%d' % j))
        for i in seq:
            s = run.phase(one, twin, ops[i], [], plan)
            n = max(1, sum(1 for e in s.events if e[1] == 'save'))
            if s.ops['save'][0] != 'ok':
                run.violate('save-fails', 'a %s save without any fault '
                            'failed: %r' % (ops[i]['kind'],
                                            s.ops['save'][1:]))
                return
        versions.append(machine.tree(twin))
    targets = sorted(k for k in set().union(*versions)
                     if len(set(v.get(k) for v in versions)) > 1)
    for t in targets:
        run.check(any(t in ABOUT[o['kind']] for o in ops), 'other-file',
                  '%s saves changed or deleted %s' % (ops[0]['kind'], t))
    faults = []
    for f in plan['faults']:
        f = dict(f)
        f['k'] = f['k'] % n
        faults.append(f)
    s, sw, seen = run.phase(pair, root, ops, faults, plan, targets)
    machine.account(run, s)
    run.note('switches', sw)
    got = machine.tree(root)
    for t in targets:
        ok = set(v.get(t) for v in versions)
        if got.get(t) not in ok:
            run.violate('torn', 'two %s savers (%s, switches %s) left %s '
                        'with content of neither: %r...' % (
                            ops[0]['kind'], fdesc(s), sw, t,
                            (got.get(t) or b'')[:80]))
        for x in seen:
            if x not in ok:
                run.violate('torn-read', 'a reader during two %s saves saw '
                            'content of neither: %r...' % (
                                ops[0]['kind'], (x or b'')[:80]))
    for k, v in pre.items():
        if k not in targets and got.get(k) != v:
            run.violate('other-file', 'two %s savers changed %s' % (
                ops[0]['kind'], k))
    for label, out in sorted(s.ops.items()):
        if out[0] == 'exc' and not out[3]:
            run.violate('wrong-error', '%s saver: %r' % (ops[0]['kind'],
                                                         out[1:]))
        elif out[0] == 'exc' and not s.fired:
            run.violate('save-fails', 'a concurrent %s save failed without '
                        'any fault: %r' % (ops[0]['kind'], out[1:]))
    if not s.fired and ops[0]['kind'] != 'periods':
        for t in targets:
            run.check(got.get(t) != pre.get(t) or got.get(t) in
                      [v.get(t) for v in versions[1:]],
                      'not-saved', 'both savers finished, nothing saved')
    run.state('conc', ops[0]['kind'], sorted(s.fired), tuple(sw)[:8])


def pair(root, ops, faults, plan, targets):
    """Two savers and a reader as interleaved processes."""
    seen = []
    switches = []

    def body(ctx):
        fns = [prepare(root, op) for op in ops]
        sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=False)

        def saver(i):
            def go():
                ctx.fs.label('save')
                try:
                    v = fns[i]()
                except (simfs.SimCrash, core.Hang, sched.Stuck):
                    raise
                except Exception as e:
                    ctx.s.ops['p%d' % i] = ('exc', type(e).__name__,
                                            str(e)[:200],
                                            isinstance(e, OSError))
                else:
                    ctx.s.ops['p%d' % i] = ('ok', v if v in (True, False)
                                            else None)
            return go

        def reader():
            ctx.fs.label('read')
            for _ in range(2):
                for t in targets:
                    try:
                        with open(os.path.join(root, t), 'rb') as f:
                            seen.append(f.read())
                    except FileNotFoundError:
                        seen.append(None)
                    except OSError:
                        pass
        sc.spawn(saver(0), 'p0')
        sc.spawn(saver(1), 'p1')
        sc.spawn(reader, 'p2')
        sc.run()
        switches.extend(sc.switches)
        if sc.failure is not None:
            raise core.Hang(str(sc.failure))
        for t in sc.tasks:
            if isinstance(t.exc, simfs.SimCrash):
                ctx.s.crashed = ctx.fs.crash_note
            elif isinstance(t.exc, core.Hang):
                raise t.exc
    s = machine.session(root, body, faults, ['y'] * 20, plan['wchunk'],
                        plan['rchunk'])
    return s, switches, seen
