"""P06: adding a rider conserves mass properties or changes nothing."""
import os
import shutil

from .. import core, env, fs as simfs, gen, machine, rig, sched
from . import p04

ID = 'P06'
RUNS = {'quick': 4800, 'thorough': 30000}
LEVEL = 'seeded search over histories of loads, additions, queries, edits ' \
    'and failing reads over several bicycles, and interleaved additions to ' \
    'different bicycles'
RULE = 'a run is non-trivial when an addition was made, refused or failed; ' \
    'counted by distinct (rider source, state of the rider files, fault, ' \
    'outcome, earlier additions, uncertain or not) tuples'
STATE_MEASURE = 'distinct (rider source, rider file state, fault, outcome, ' \
    'additions before, uncertainties) tuples'
REAL = ['Bicycle.add_rider', 'composite body', 'yeadon rider configuration',
        'text reader']
STUB = ['disk (failing and short reads)', 'thread scheduler']
ASSUMPTIONS = ['one thread per bicycle', 'the yeadon package is right about '
               'the human body']
SHRINK = ['faults', 'ops', 'preempt']

NS = None
# measured riders: bicycle, rider
REAL_PAIRS = [['Browser', 'Jason'], ['Browserins', 'Jason'],
              ['Rigid', 'Jason'], ['Rigid', 'Jason']]
# measured values that decide how the rider is seated
SEAT = ['hbb', 'lsp', 'lst', 'lcs', 'lamst', 'whb', 'LhbF', 'LhbR']


def setup():
    global NS
    NS = env.load()


FILESTATES = ['ok', 'ok', 'ok', 'ok', 'ok', 'noyB', 'yB', 'missing', 'garbage',
              'lackmass', 'lackinertia', 'empty', 'dir']


def generate(rng, tier, index):
    real = rng.random() < .3
    plan = {'rchunk': rng.choice([None, None, 50]), 'real': real,
            'perm': rng.randint(0, 999), 'conc': rng.random() < .12}
    if real:
        pair = rng.choice(REAL_PAIRS)
        plan['bikes'] = {pair[0]: None, 'Alpha': gen.benchmark(rng)}
        plan['riders'] = {pair[1] + pair[0]: {
            'state': rng.choice(['measured', 'measured', 'both', 'nocfg',
                                 'badmeas']), 'par': rig.rider(rng)}}
        plan['riders']['KarlAlpha'] = {'state': 'ok', 'par': rig.rider(rng)}
        riders = [pair[1], 'Karl']
        plan['twins'] = {}
        if plan['riders'][pair[1] + pair[0]]['state'] != 'badmeas' and \
                rng.random() < .4:
            # another bicycle of almost the same measures, the same rider
            plan['bikes']['Twin'] = None
            plan['twins']['Twin'] = {
                'of': pair[0], 'f': {k: rng.uniform(.98, 1.02) for k in
                                     rng.sample(SEAT, 2)},
                'lean': rng.uniform(.95, 1.05)}
            plan['riders'][pair[1] + 'Twin'] = {'state': 'measured',
                                                'par': rig.rider(rng)}
    else:
        plan['bikes'] = {}
        for b in ['Alpha', 'Bravo', 'Comet'][:rng.choice([1, 2, 2, 3])]:
            plan['bikes'][b] = gen.benchmark(rng, unc=rng.choice(
                [0., .5, 1.]))
        plan['riders'] = {}
        riders = ['Jane', 'Karl']
        for b in plan['bikes']:
            for r in riders:
                st = rng.choice(FILESTATES)
                par = rig.rider(rng)
                if st == 'yB':
                    par['yB'] = rng.uniform(-.05, .05)
                if st == 'noyB':
                    del par['yB']
                plan['riders'][r + b] = {'state': st, 'par': gen.enc(
                    rng, par, rng.choice([0., 0., .5, 1.]))}
    names = sorted(plan['bikes'])
    ops, faults = [], []
    tune = real and rng.random() < .5
    for i in range(rng.randint(4, 9) if tune else rng.randint(2, 8)):
        # mostly a bicycle is edited a little and then gets its rider
        r = rng.choice([.3, .9, .9]) if tune else rng.random()
        slot = rng.randint(0, 2)
        if r < .6:
            ops.append({'op': 'ride', 'slot': slot,
                        'rider': rng.choice(riders + riders + ['Nobody']),
                        're': rng.random() < (.4 if real else .1)})
            if rng.random() < .3:
                faults.append({'at': i, 'proc': 'p0', 'op': 's%d' % i,
                               'k': rng.randint(0, 60), 'mode': rng.choice(
                                   ['error', 'error', 'error', 'short']),
                               'a': rng.randint(0, 9), 'b': 0, 'c': 0,
                               'sticky': rng.random() < .4})
        elif r < .7:
            ops.append({'op': 'load', 'slot': slot,
                        'bike': rng.choice(names)})
        elif r < .85:
            ops.append({'op': 'query', 'slot': slot,
                        'q': rng.choice(['eig', 'canonical', 'str', 'steer'])})
        else:
            if real and rng.random() < .7:
                ops.append({'op': 'edit', 'slot': slot, 'set': 'Measured',
                            'k': rng.choice(SEAT),
                            'f': rng.uniform(.98, 1.02)})
            elif rng.random() < .35:
                rb = rng.choice(sorted(plan['riders']))
                ops.append({'op': 'rewrite', 'slot': slot, 'rb': rb,
                            'f': rng.uniform(.97, 1.03)})
            else:
                ops.append({'op': 'edit', 'slot': slot, 'k': rng.choice(
                    ['mB', 'xB', 'zB', 'IBxx', 'mF', 'w', 'rR', 'note']),
                    'f': rng.uniform(.98, 1.02) if real else
                    rng.uniform(.8, 1.2)})
    plan['slots'] = [rng.choice(names) for _ in range(3)]
    if real:
        plan['slots'] = [rng.choice(names + [pair[0]] * 2) for _ in range(3)]
    plan['ops'], plan['faults'] = ops, faults
    plan['preempt'] = sorted([rng.randint(1, 300), rng.randint(0, 2)]
                             for _ in range(rng.randint(2, 9)))
    return plan


def scaled(txt, f):
    """The text of a parameter file with some values scaled."""
    out = []
    for ln in txt.split('\n'):
        k = ln.split('=')[0].strip()
        if '=' in ln and k in f:
            v = ln.split('=')[1].split('+/-')
            v[0] = repr(float(v[0]) * f[k])
            ln = '%s = %s' % (k, '+/-'.join(v))
        out.append(ln)
    return '\n'.join(out)


def leaned(txt, f):
    out = []
    for ln in txt.split('\n'):
        if ln.startswith('somersault:'):
            ln = 'somersault: %r' % (float(ln.split(':')[1].split('#')[0]) * f)
        out.append(ln)
    return '\n'.join(out)


def rewrite(root, rb, f, plan):
    """Somebody else changes what is stored of a rider: the parameters, or
    how far he leans."""
    b = max([x for x in plan['bikes'] if rb.endswith(x)], key=len)
    d = os.path.join(root, 'data', 'riders', rb[:-len(b)])
    for sub, suffix, fn in (
            ('Parameters', 'Benchmark.txt',
             lambda t: scaled(t, {'mB': f, 'zB': 2. - f, 'IBxx': f})),
            ('RawData', 'YeadonCFG.txt', lambda t: leaned(t, f))):
        p = os.path.join(d, sub, rb + suffix)
        if os.path.isfile(p):
            txt = gen.read(p)
            with open(p, 'w') as fh:
                fh.write(fn(txt))


def build(root, plan):
    data = os.path.join(root, 'data')
    src = os.path.join(env.REPO, 'data')
    for b, par in sorted(plan['bikes'].items()):
        d = os.path.join(data, 'bicycles', b)
        if par is None:
            tw = plan.get('twins', {}).get(b)
            of = tw['of'] if tw else b
            os.makedirs(os.path.join(d, 'Parameters'))
            os.makedirs(os.path.join(d, 'RawData'))
            for sub, f in (('Parameters', 'Benchmark.txt'),
                           ('RawData', 'Measured.txt')):
                txt = gen.read(os.path.join(src, 'bicycles', of, sub, of + f))
                if tw and sub == 'RawData':
                    txt = scaled(txt, tw['f'])
                machine.put(os.path.join(d, sub, b + f), txt)
        else:
            machine.put(os.path.join(d, 'Parameters', b + 'Benchmark.txt'),
                        gen.text(par))
    for rb, r in sorted(plan['riders'].items()):
        b = [x for x in plan['bikes'] if rb.endswith(x)]
        b = max(b, key=len)
        name = rb[:-len(b)]
        d = os.path.join(data, 'riders', name)
        path = os.path.join(d, 'Parameters', rb + 'Benchmark.txt')
        st = r['state']
        par = r['par']
        if st in ('measured', 'both', 'nocfg', 'badmeas'):
            os.makedirs(os.path.join(d, 'RawData'), exist_ok=True)
            meas = os.path.join(src, 'riders', name, 'RawData',
                                name + 'YeadonMeas.txt')
            shutil.copy(meas, os.path.join(d, 'RawData'))
            if st == 'badmeas':
                with open(os.path.join(d, 'RawData',
                                       name + 'YeadonMeas.txt'), 'w') as f:
                    f.write('Ls1L: 3\n')
            if st != 'nocfg':
                tw = plan['twins'].get(b)
                txt = gen.read(os.path.join(
                    src, 'riders', name, 'RawData', name + (
                        tw['of'] if tw else b) + 'YeadonCFG.txt'))
                if tw:
                    txt = leaned(txt, tw['lean'])
                machine.put(os.path.join(d, 'RawData',
                                         rb + 'YeadonCFG.txt'), txt)
            if st != 'both':
                continue
        if st == 'missing':
            os.makedirs(d, exist_ok=True)
            continue
        if st == 'dir':
            os.makedirs(path)
            continue
        if st == 'garbage':
            machine.put(path, 'this is not\na parameter file\n')
        elif st == 'empty':
            machine.put(path, '')
        else:
            par = dict(par)
            if st == 'lackmass':
                del par['mB']
            if st == 'lackinertia':
                del par['IBxz']
            machine.put(path, gen.text(par))


def snap(b):
    return {'par': {k: gen.plain(v) for k, v in b.parameters.items()},
            'has': bool(b.hasRider), 'rider': {
                k: gen.plain(v) for k, v in b.riderPar.items()},
            'name': getattr(b, 'riderName', None), 'str': str(b)}


def history(root, plan, ops, faults, conc=False):
    data = os.path.join(root, 'data')

    def body(ctx):
        slots = [NS.bp.Bicycle(n, data) for n in plan['slots']]
        ctx.s.snaps.append([snap(b) for b in slots])

        def do(op):
            b = slots[op['slot']]
            if op['op'] == 'ride':
                if op['re']:
                    b.add_rider(op['rider'], reCalc=True)
                else:
                    b.add_rider(op['rider'])
            elif op['op'] == 'rewrite':
                with ctx.fs.hidden():
                    rewrite(root, op['rb'], op['f'], plan)
            elif op['op'] == 'load':
                slots[op['slot']] = NS.bp.Bicycle(op['bike'], data)
            elif op['op'] == 'query':
                if op['q'] == 'eig':
                    b.eig([1., 5.])
                elif op['q'] == 'canonical':
                    b.canonical()
                elif op['q'] == 'str':
                    str(b)
                else:
                    b.steer_assembly_moment_of_inertia()
            else:
                d = b.parameters[op.get('set', 'Benchmark')]
                if op['k'] == 'note':
                    d['note'] = op['f']
                else:
                    d[op['k']] = d[op['k']] * op['f']
        if conc:
            sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=True)

            def task(i, op):
                def go():
                    ctx.fs.label('s%d' % i)
                    try:
                        do(op)
                        v = ('ok', None)
                    except (simfs.SimCrash, core.Hang, sched.Stuck):
                        raise
                    except Exception as e:
                        v = ('exc', type(e).__name__, str(e)[:200],
                             isinstance(e, OSError))
                    ctx.s.ops['s%d' % i] = v
                return go
            for i, op in enumerate(ops):
                sc.spawn(task(i, op), 'p%d' % i)
            sc.run()
            if sc.failure is not None:
                raise core.Hang(str(sc.failure))
            for t in sc.tasks:
                if isinstance(t.exc, core.Hang):
                    raise t.exc
            ctx.s.snaps.append([snap(b) for b in slots])
            ctx.s.switches = list(sc.switches)
            return
        for i, op in enumerate(ops):
            ctx.op('s%d' % i, do, op)
            ctx.s.snaps.append([snap(b) for b in slots])
    return machine.session(root, body, faults, (), None, plan['rchunk'],
                           plan['perm'])


def same(a, b):
    """Two snapshots are the same up to rounding."""
    for k in ('has', 'name', 'str'):
        if a[k] != b[k]:
            return '%s became %r from %r' % (k, b[k], a[k])
    for k in ('par', 'rider'):
        if set(a[k]) != set(b[k]):
            return 'sets %s became %s' % (sorted(a[k]), sorted(b[k]))
        for s in a[k]:
            d = p04.exact(a[k][s], b[k][s])
            if d:
                return '%s %s' % (s, d)
    return None


def near(a, b):
    """Equal up to the tolerance of the solver that seats the rider."""
    if set(a) != set(b):
        return 'names %s' % sorted(set(a) ^ set(b))
    for k in sorted(a):
        if abs(a[k][0] - b[k][0]) > 1e-6 * abs(a[k][0]) + 1e-9:
            return '%s: %r became %r' % (k, a[k], b[k])
    return None


def fresh_rider(run, plan, op, past, cache):
    """What the same addition gives in a new process, to a bicycle loaded and
    edited in the same way, with the files as they are: rider parameters or
    the exception.  `past` are the edits of the bicycle and the rewritings of
    the riders since the beginning."""
    edits, rewrites = past['edits'][op['slot']], past['rewrites']
    key = (past['bikes'][op['slot']], op['rider'], op['re'],
           repr((edits, rewrites)))
    if key not in cache:
        root = os.path.join(run.root, 'f%d' % len(cache))
        build(root, plan)
        for o in rewrites:
            rewrite(root, o['rb'], o['f'], plan)
        p = dict(plan, slots=[key[0]], rchunk=None)
        s = run.phase(history, root, p,
                      [dict(o, slot=0) for o in edits] +
                      [dict(op, slot=0)], [])
        cache[key] = (s.ops['s%d' % len(edits)], s.snaps[-1][0])
        shutil.rmtree(root)
    return cache[key]


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    build(root, plan)
    build(root + 'x', plan)
    ops = plan['ops']
    cache = {}
    if plan['conc']:
        used, use = set(), []
        for o in ops:
            if o['op'] == 'ride' and o['slot'] not in used:
                used.add(o['slot'])
                use.append(o)
        s = run.phase(history, root, plan, use, [], True)
        machine.account(run, s)
        run.note('switches', getattr(s, 'switches', []))
        for j in range(3):
            mine = [i for i, o in enumerate(use) if o['slot'] == j]
            before, after = s.snaps[0][j], s.snaps[-1][j]
            if not mine:
                d = same(before, after)
                run.check(d is None, 'isolation', 'slot %d was not used, but '
                          '%s' % (j, d))
                continue
            o = use[mine[0]]
            step(run, plan, root, o, s.ops.get('s%d' % mine[0]), before,
                 after, {'bikes': plan['slots'], 'edits': [[], [], []],
                         'rewrites': []}, cache, False, s, 'in parallel')
        run.state('threads', len(use), tuple(getattr(s, 'switches', []))[:5])
        return
    faults = []
    if plan['faults']:
        build(root + 'r', plan)
        ref = run.phase(history, root + 'r', plan, ops, [])
        for f in plan['faults']:
            n = sum(1 for e in ref.events if e[1] == f['op'])
            faults.append(dict(f, k=f['k'] % max(1, n)))
    s = run.phase(history, root, plan, ops, faults)
    machine.account(run, s)
    for o in ops:
        if o['op'] == 'rewrite':
            rewrite(root + 'x', o['rb'], o['f'], plan)
    run.check(machine.tree(root) == machine.tree(root + 'x'), 'files',
              'an addition changed files')
    bikes = list(plan['slots'])
    past = {'bikes': bikes, 'edits': [[], [], []], 'rewrites': []}
    for i, op in enumerate(ops):
        lab = 's%d' % i
        out = s.ops.get(lab)
        before, after = s.snaps[i], s.snaps[i + 1]
        for j in range(3):
            if j == op['slot']:
                continue
            d = same(before[j], after[j])
            run.check(d is None, 'isolation', 'step %d (%s on %s) changed '
                      'another %s: %s' % (i, op['op'], bikes[op['slot']],
                                          bikes[j], d))
        j = op['slot']
        what = 'step %d' % i
        hit = any(f['op'] == lab and f['mode'] == 'error' for f in faults)
        if op['op'] == 'load':
            bikes[j] = op['bike']
            past['edits'][j] = []
            run.check(out == ('ok', None), 'load-fails', '%s: %r' % (what,
                                                                     out))
            run.check(not after[j]['has'] and not after[j]['rider'],
                      'isolation', '%s: a new bicycle has a rider: %r' % (
                          what, after[j]['str']))
        elif op['op'] == 'edit':
            past['edits'][j].append(op)
        elif op['op'] == 'rewrite':
            past['rewrites'].append(op)
            d = same(before[j], after[j])
            run.check(d is None, 'isolation', '%s: changing files changed a '
                      'bicycle: %s' % (what, d))
        elif op['op'] == 'query':
            d = same(before[j], after[j])
            run.check(d is None, 'query', '%s: %s changed the bicycle: %s' % (
                what, op['q'], d))
        else:
            step(run, plan, root, op, out, before[j], after[j], past, cache,
                 hit, s, what)
        if run.violations:
            return


def step(run, plan, root, op, out, before, after, past, cache, hit, s, what):
    rider = op['rider']
    bike = past['bikes'][op['slot']]
    edited = bool(past['edits'][op['slot']])
    rb = plan['riders'].get(rider + bike)
    st = rb['state'] if rb else 'none'
    what = '%s: adding %s (%s) to %s%s' % (
        what, rider, st, bike, ' again calculated' if op['re'] else '')
    if out is None:
        return run.violate('no-outcome', what)
    run.state(st, op['re'], plan['real'], out[0], before['has'],
              sorted(s.fired) if hit else '', edited,
              len(past['rewrites']))
    if before['has']:
        d = same(before, after)
        run.check(d is None, 'second-rider', '%s, which has %s: %s' % (
            what, before['name'], d))
        run.check(out[0] == 'ok', 'second-rider', '%s, which has %s, failed: '
                  '%r' % (what, before['name'], out[1:]))
        run.probe('second-addition')
        return
    fromfile = rb and not op['re'] and st in ('ok', 'noyB', 'yB', 'both')
    if out[0] == 'exc':
        d = same(before, after)
        run.check(d is None, 'changed-on-failure', '%s failed with %r but '
                  '%s' % (what, out[1:], d))
        if not hit:
            if fromfile:
                run.violate('fails', '%s failed: %r' % (what, out[1:]))
            else:
                ref, _ = fresh_rider(run, plan, op, past, cache)
                run.check(ref[0] == 'exc', 'fails', '%s failed: %r; a new '
                          'bicycle takes the rider' % (what, out[1:]))
        run.probe('failed-additions')
        return
    # success
    run.probe('additions')
    if not after['has'] or after['name'] != rider or \
            rider not in after['str'] or bike not in after['str']:
        run.violate('who', '%s: the bicycle says %r' % (what, after['str']))
    rp = after['rider'].get('Benchmark')
    if rp is None:
        return run.violate('rider', '%s: no rider parameters' % what)
    if fromfile:
        txt = gen.text(rb['par'])
        for o in past['rewrites']:
            if o['rb'] == rider + bike:
                txt = scaled(txt, {'mB': o['f'], 'zB': 2. - o['f'],
                                   'IBxx': o['f']})
        d = p04.exact(p04.parse(txt.split('\n')), rp)
        run.check(d is None, 'rider', '%s: the rider is not the stored one: '
                  '%s' % (what, d))
    elif not rb or st in ('missing', 'garbage', 'lackmass', 'lackinertia',
                          'empty', 'dir', 'nocfg', 'badmeas') or \
            not plan['real']:
        run.violate('rider', '%s succeeded with %r' % (what, rp))
    else:
        ref, rs = fresh_rider(run, plan, op, past, cache)
        if ref[0] != 'ok':
            run.violate('rider', '%s succeeded, in a new process it fails '
                        'with %r' % (what, ref[1:]))
        else:
            d = near(rs['rider']['Benchmark'], rp)
            run.check(d is None, 'rider', '%s gives another rider than a new '
                      'process: %s' % (what, d))
            run.check(40 < rp['mB'][0] < 130 and -1.6 < rp['zB'][0] < -.5,
                      'rider', '%s: implausible rider %r' % (what, rp))
    comb, bare = after['par']['Benchmark'], before['par']['Benchmark']
    ref = p04.combine(bare, rp)
    for k, v in sorted(ref.items()):
        if not (p04.close(v, comb[k][0], 1e-9) or abs(v - comb[k][0]) < 1e-9):
            run.violate('composite', '%s: %s is %r instead of %r' % (
                what, k, comb[k][0], v))
            break
    unc = any(x[1] for x in list(bare.values()) + list(rp.values()))
    if not unc:
        run.check(not any(x[1] for x in comb.values()), 'composite',
                  '%s: uncertainties appeared' % what)
    elif bare['mB'][1] and rp['mB'][1]:
        ref = (bare['mB'][1]**2 + rp['mB'][1]**2)**.5
        run.check(comb['mB'][1] and p04.close(comb['mB'][1], ref, 1e-6),
                  'composite', '%s: uncertainty of mB is %r instead of %r' % (
                      what, comb['mB'][1], ref))
    for k in sorted(set(bare) | set(comb)):
        if k in ('mB', 'xB', 'zB', 'IBxx', 'IBxz', 'IByy', 'IBzz', 'yB'):
            continue
        if k not in bare or k not in comb or p04.exact(
                {k: bare[k]}, {k: comb[k]}):
            run.violate('other', '%s changed %s from %r to %r' % (
                what, k, bare.get(k), comb.get(k)))
            break
    if 'yB' in comb:
        run.check(abs(comb['yB'][0]) < .2, 'composite', '%s: yB = %r' % (
            what, comb['yB']))
    for k in before['par']:
        if k != 'Benchmark':
            d = p04.exact(before['par'][k], after['par'].get(k))
            run.check(d is None, 'other', '%s changed %s: %s' % (what, k, d))
