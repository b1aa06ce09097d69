"""P03: existing parameter files are overwritten only after a yes."""
import os
import shutil

from .. import env, gen, machine, rig

ID = 'P03'
RUNS = {'quick': 4200, 'thorough': 60000}
LEVEL = 'seeded search over keyboard replies, states of the target files, ' \
    'unreadable targets, disk errors and crashes over histories of saves'
RULE = 'a run is non-trivial when a save met an existing or unusual target; ' \
    'counted by distinct (save kind, target states, replies, faults, ' \
    'outcome) tuples'
STATE_MEASURE = 'distinct (save kind, states of the targets, decisive ' \
    'replies, fault, outcome, files replaced) tuples'
REAL = ['parameter text writer', 'Bicycle.save_parameters with and without '
        'rider', 'parameter loading']
STUB = ['user at the keyboard (scripted replies, end of input, Ctrl-C)',
        'disk (simulated faults and permissions)']
ASSUMPTIONS = ['asking whether a path exists does not itself fail',
               'only the saving process touches the target between the '
               'question and the write']
SHRINK = ['faults', 'ops', 'deny']

NS = None
REPLIES = ['y', 'y', 'n', 'n', 'maybe', '', 'q', 'ok', 'x', '1', 'yn', 'EOF',
           'INT']
STATES = ['absent', 'absent', 'other', 'other', 'other', 'same', 'empty',
          'garbage', 'long', 'symlink', 'dangling']


def setup():
    global NS
    NS = env.load()


def generate(rng, tier, index):
    plan = {'bench': gen.benchmark(rng), 'rider': rig.rider(rng),
            'wchunk': rng.choice([None, None, 30]),
            'rchunk': rng.choice([None, None, 64])}
    sets = ['Benchmark'] + rng.sample(['Canonical', 'Moore', 'Sharp'],
                                      rng.choice([0, 0, 1, 2]))
    plan['sets'] = {s: gen.benchmark(rng) for s in sets}
    ops, faults = [], []
    for i in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(['write', 'write', 'write', 'bike', 'bike',
                           'rider', 'rider'])
        style = rng.random()
        n = rng.randint(0, 5)
        if style < .4:
            ans = [rng.choice(['y', 'n']) for _ in range(6)]
        elif style < .5:
            ans = ['y'] * 8
        else:
            ans = [rng.choice(REPLIES) for _ in range(n)]
        op = {'kind': kind, 'answers': ans,
              'states': [rng.choice(STATES) for _ in range(6)],
              'where': rng.choice(['out', 'out', 'new', 'deep', 'bare']),
              'vals': gen.enc(rng, rig.true_bike(rng), rng.choice([0., 1.])),
              'deny': [rng.choice(['', '', '', 'EACCES', 'EIO', 'EMFILE'])
                       for _ in range(6)],
              'keepdirs': rng.random() < 0.7}
        if rng.random() < .3:
            # the same process has saved to these files before
            op['before'] = [[rng.choice('yyn') for _ in range(6)]
                            for _ in range(rng.choice([1, 1, 2]))]
        ops.append(op)
        if rng.random() < 0.5:
            faults.append({'at': i, 'proc': 'p0', 'op': 'save',
                           'k': rng.randint(0, 90), 'mode': rng.choice(
                               ['error', 'error', 'error', 'crash', 'short']),
                           'a': rng.randint(0, 9),
                           'b': rng.choice([0, 0, 9, 200]),
                           'c': rng.randint(0, 9),
                           'sticky': rng.random() < 0.4})
    plan['ops'], plan['faults'] = ops, faults
    return plan


def build(root, plan):
    d = os.path.join(root, 'data')
    for s, v in plan['sets'].items():
        machine.put(os.path.join(d, 'bicycles', 'Alpha', 'Parameters',
                                 'Alpha%s.txt' % s), gen.text(v))
    machine.put(os.path.join(d, 'riders', 'Jane', 'Parameters',
                             'JaneAlphaBenchmark.txt'),
                gen.text(plan['rider']))
    machine.put(os.path.join(root, 'out', 'other.txt'), 'a = 1.0\n')


def prepare(root, op):
    data = os.path.join(root, 'data')
    if op['kind'] == 'write':
        vals = gen.dec(op['vals'])
        path = {'out': os.path.join(root, 'out', 'pars.txt'),
                'new': os.path.join(root, 'fresh', 'pars.txt'),
                'deep': os.path.join(root, 'a', 'b', 'c', 'pars.txt'),
                'bare': 'pars.txt'}[op['where']]
        return lambda: NS.io.write_parameter_text_file(path, vals)
    bike = NS.bp.Bicycle('Alpha', data)
    if op['kind'] == 'rider':
        bike.add_rider('Jane')

    def save():
        bike.save_parameters()
        return True
    return save


def strip(root):
    """Remove everything a save may write to."""
    for d in (('data', 'bicycles', 'Alpha', 'Parameters'),
              ('data', 'riders', 'Jane', 'Parameters'), ('fresh',), ('a',)):
        shutil.rmtree(os.path.join(root, *d), ignore_errors=True)
    for f in (('out', 'pars.txt'), ('pars.txt',)):
        try:
            os.unlink(os.path.join(root, *f))
        except OSError:
            pass


def one(root, op, faults, plan, states, user, deny):
    """states: {relative path: bytes, None or ('link', path)} put in place
    between loading and saving."""
    def body(ctx):
        fn = prepare(root, op)
        for ans in op.get('before', ()):
            ctx.warm(fn, ans)
        with ctx.fs.hidden():
            strip(root)
            for t in sorted(states):
                p = os.path.join(root, t)
                v = states[t]
                if op['keepdirs'] or v is not None:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                if isinstance(v, tuple):
                    os.symlink(v[1], p)
                    if v[2] is not None:
                        machine.put(v[1], v[2])
                elif v is not None:
                    machine.put(p, v)
            ctx.s.snaps.append(machine.tree(root))
        ctx.op('save', fn)
    return machine.session(root, body, faults, user, plan['wchunk'],
                           plan['rchunk'], deny=deny)


def content(state, new, k):
    if state == 'absent':
        return None
    if state == 'other':
        return b'# typed by hand\nmB = 123.25+/-0.5\nw = 1.0\n'
    if state == 'same':
        return new
    if state == 'empty':
        return b''
    if state == 'garbage':
        return bytes(range(256)) * 3
    if state == 'long':
        return b'zz%d = 1.0\n' % k * 400
    return state


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    build(root, plan)
    for i, op in enumerate(plan['ops']):
        # what a save into an empty place writes
        twin = machine.clone(root, os.path.join(run.root, 'twin%d' % i))
        ref = run.phase(one, twin, op, [], plan, {}, ['y'] * 9, None)
        if ref.ops['save'][:2] != ('ok', True):
            run.violate('save-fails', 'a %s save to new files failed: %r' % (
                op['kind'], ref.ops['save'][1:]))
            return
        run.check(not ref.replies, 'asked', 'a %s save to new files asked '
                  '%r' % (op['kind'], [r[2] for r in ref.replies]))
        new = {k: v for k, v in machine.tree(twin).items()
               if k not in ref.snaps[0]}
        expect = 1 if op['kind'] == 'write' else \
            len(plan['sets']) if op['kind'] == 'bike' else 2
        run.check(len(new) == expect, 'not-saved', 'a %s save of %d sets '
                  'wrote %s' % (op['kind'], expect, sorted(new)))
        shutil.rmtree(twin)
        if run.violations:
            return
        states, deny, names = {}, {}, []
        for j, t in enumerate(sorted(new)):
            st = op['states'][j % 6]
            names.append(st)
            if st == 'symlink':
                states[t] = ('link', os.path.join(root, 'out', 'ln%d' % j),
                             b'mB = 1.0\n')
            elif st == 'dangling':
                states[t] = ('link', os.path.join(root, 'out', 'ln%d' % j),
                             None)
            else:
                states[t] = content(st, new[t], j)
            if op['deny'][j % 6] and st not in ('absent', 'dangling'):
                deny[t] = op['deny'][j % 6]
        faults = []
        mine = [f for f in plan['faults'] if f['at'] == i]
        if mine:
            twin = machine.clone(root, os.path.join(run.root, 'u%d' % i))
            ts = {k: (v[0], v[1].replace(root, twin), v[2])
                  if isinstance(v, tuple) else v for k, v in states.items()}
            ref = run.phase(one, twin, op, [], plan, ts, op['answers'], deny)
            n = sum(1 for e in ref.events if e[1] == 'save')
            for f in mine:
                faults.append(dict(f, k=f['k'] % max(1, n)))
            shutil.rmtree(twin)
        s = run.phase(one, root, op, faults, plan, states, op['answers'],
                      deny)
        machine.account(run, s)
        for r in s.replies:
            run.note('reply', r[0], r[1], r[3])
        judge(run, op, s, new, states, names, machine.tree(root), root)
        run.check(not s.escapes, 'escape', 'wrote outside: %r' % s.escapes)
        if run.violations:
            return
        # back to a loadable state for the next save
        shutil.rmtree(root)
        build(root, plan)


def judge(run, op, s, new, states, names, got, root):
    pre = s.snaps[0]
    out = s.ops.get('save')
    given = [r[3] for r in s.replies]
    decisive = [a for a in given if a in ('y', 'n')]
    what = '%s save onto %s with replies %s under %s' % (
        op['kind'], names, given, sorted(s.fired) or 'no fault')
    # what each question was about, where the question says so
    about = {}
    cur = None
    for _, at, prompt, ans in s.replies:
        hit = [(prompt.rfind(os.path.join(root, t)), t) for t in new]
        if max(hit)[0] >= 0:
            cur = max(hit)[1]
        if cur and ans in ('y', 'n'):
            about[cur] = ans
    exist = [t for t in new if pre.get(t) is not None]
    replaced, fresh = [], []
    for k, v in pre.items():
        if k not in new and got.get(k) != v and not (
                isinstance_link(states, root, k) and got.get(k) in
                new.values()):
            run.violate('other-file', '%s changed %s' % (what, k))
    for t in sorted(new):
        g = got.get(t)
        if t in exist:
            if g == pre[t] and g != new[t]:
                continue
            if g == new[t]:
                if g != pre[t]:
                    replaced.append(t)
                    if about.get(t, 'y') != 'y' or not decisive.count('y'):
                        run.violate('overwritten', '%s replaced %s without '
                                    'a yes' % (what, t))
            else:
                run.violate('overwritten' if not decisive.count('y') else
                            'torn', '%s left %s with %r instead of %r' % (
                                what, t, (g or b'')[:60], pre[t][:60]))
        elif g is not None:
            if g == new[t]:
                fresh.append(t)
            else:
                run.violate('torn', '%s created %s with %r' % (
                    what, t, g[:60]))
    if run.violations:
        return
    run.check(len(replaced) <= decisive.count('y'), 'overwritten',
              '%s replaced %d existing files' % (what, len(replaced)))
    run.check(len(decisive) <= len(exist) and (exist or not given), 'asked',
              '%s asked although only %s exist' % (what, exist))
    interrupted = s.fired and any(not f.startswith(('unreadable', 'short'))
                                  for f in s.fired)
    ended = any(a in ('EOF', 'INT') for a in given)
    if out is None:
        return run.check(s.crashed, 'no-outcome', what)
    if out[0] == 'exc':
        if not interrupted and not ended:
            run.violate('save-fails', '%s failed: %r' % (what, out[1:]))
    elif not interrupted and not ended:
        diff = [t for t in exist if new[t] != pre[t]]
        run.check(len(decisive) == len(exist), 'not-asked', '%s asked %d '
                  'times for the existing files %s' % (what, len(decisive),
                                                       exist))
        same = len(exist) - len(diff)
        ny = decisive.count('y')
        run.check(ny - same <= len(replaced) <= ny, 'not-saved',
                  '%s replaced only %s' % (what, replaced))
        run.check(len(fresh) == len(new) - len(exist), 'not-saved',
                  '%s did not create all of %s' % (what, sorted(new)))
    if out[0] == 'ok' and op['kind'] == 'write':
        t = list(new)[0]
        said = out[1]
        holds = got.get(t) == new[t]
        if said and not holds:
            run.violate('false-success', '%s reported success, the file '
                        'does not hold the parameters' % what)
        if not said and holds and pre.get(t) != new[t]:
            run.violate('false-failure', '%s reported failure, the file '
                        'holds the parameters' % what)
        if not ended and not interrupted:
            run.check(bool(said) == (not exist or decisive[-1:] == ['y']),
                      'false-report', '%s reported %r' % (what, said))
    run.state(op['kind'], sorted(names), op['where'] if op['kind'] == 'write'
              else '', decisive, ended, sorted(s.fired), out and out[0],
              len(replaced))
    run.probe('overwritten-after-yes', len(replaced))
    run.probe('kept', len(exist) - len(replaced))


def isinstance_link(states, root, k):
    p = os.path.join(root, k)
    return any(isinstance(v, tuple) and v[1] == p for v in states.values())
