"""P16: parameter set files preserve the values."""
import math
import os
from decimal import Decimal

import numpy as np

from .. import core, env, gen, machine, rig, sched
from . import p08

ID = 'P16'
RUNS = {'quick': 3500, 'thorough': 80000}
LEVEL = 'seeded search over histories of conversions, edits, writes with ' \
    'disk faults and crashes over existing files, and reads by the same, ' \
    'later and concurrent processes; every file read back is compared bit ' \
    'by bit with the sets that were written to it'
RULE = 'a run is non-trivial when a file was read back after a write, a ' \
    'failed write or a crash; counted by distinct (kind, converted, value ' \
    'types, rider, earlier content, fault, outcome) tuples'
STATE_MEASURE = 'distinct (kind of set, converted, value types, rider, ' \
    'format, content before, fault, outcome) tuples'
REAL = ['parameter sets of all kinds', 'conversions', 'YAML', 'file output']
STUB = ['disk', 'failing allocations', 'process and thread scheduling']
ASSUMPTIONS = ['finite values',
               'a file is read with the class of the set it was written from']
SHRINK = ['procs', 'procs.*', 'preempt']

NS = None
KINDS = {'whipple': 'Meijaard2007', 'feedback': 'Meijaard2007WithFeedback',
         'moore12': 'Moore2012', 'moore19': 'Moore2019',
         'lean': 'MooreRiderLean2012'}
TO = {'Meijaard2007': ['Moore2012', 'Meijaard2007WithFeedback'],
      'Meijaard2007WithFeedback': ['Moore2012'],
      'Moore2019': ['Meijaard2007', 'Meijaard2007WithFeedback'],
      'Moore2012': [], 'MooreRiderLean2012': []}
RIDER = ('Meijaard2007', 'Meijaard2007WithFeedback', 'Moore2012')
FILES = ['a.yml', 'b.yml', 'deep/c.yml', 'old.yml', 'a.ini', 'old.ini']


def setup():
    global NS
    NS = env.load()


def odd(rng):
    return rng.choice([
        0., -0., 1., -1., 5e-324, 2.2250738585072014e-308, 1e-5, 1e-16, 1e22,
        1e16, 123456789012345680., 1.7976931348623157e308, .1, 1. / 3.,
        -9.81, rng.uniform(-1, 1), rng.uniform(-1, 1) * 10. **
        rng.randint(-30, 30)])


def generate(rng, tier, index):
    plan = {'sets': []}
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(sorted(KINDS))
        if kind == 'moore19':
            p = {k: v * rng.uniform(.9, 1.1) for k, v in
                 sorted(NS.parameter_dicts.moore2019_browser_jason.items())}
        elif kind == 'moore12':
            p = {k: rng.uniform(-2, 3) for k in sorted(
                NS.parameter_sets.Moore2012ParameterSet.par_strings)}
        else:
            p = p08.values(rng, kind)
        wild = rng.random() < .35
        if wild:
            for k in rng.sample(sorted(p), rng.randint(1, 6)):
                p[k] = odd(rng)
        if rng.random() < .15:
            p[rng.choice(['extra', 'y', 'no', 'x1', 'on'])] = odd(rng)
        plan['sets'].append({
            'kind': kind, 'p': p, 'wild': wild,
            'rider': rng.random() < .5,
            'np': sorted(k for k in p if rng.random() < .5)
            if rng.random() < .4 else [],
            'order': rng.random() < .5})
    ns = len(plan['sets'])
    procs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            s = rng.randint(0, 9)
            if r < .2:
                ops.append({'op': 'conv', 's': s, 'to': rng.randint(0, 1)})
            elif r < .55:
                ops.append({'op': 'write', 's': s,
                            'file': rng.choice(FILES)})
                if rng.random() < .35:
                    ops[-1]['fault'] = [rng.choice(['error', 'error', 'short',
                                                    'crash']),
                                        rng.randint(0, 11),
                                        rng.randint(0, 9)]
                elif rng.random() < .08:
                    ops[-1]['abort'] = rng.choice([rng.randint(1, 10),
                                                   rng.randint(1, 60)])
            elif r < .66:
                ops.append({'op': 'edit', 's': s, 'k': rng.randint(0, 40),
                            'v': odd(rng) if rng.random() < .9 else
                            rng.randint(-3, 3)})
            elif r < .72:
                ops.append({'op': 'use', 's': s, 'how': rng.choice(
                    ['html', 'plot', 'same', 'bad'])})
            else:
                ops.append({'op': 'read', 'file': rng.choice(FILES[:4]),
                            'keep': rng.random() < .5})
        if rng.random() < .3:
            # write, read, change a digit, write and read again
            f, j = rng.choice(FILES[:4]), rng.randint(0, 9)
            for _ in range(2):
                ops += [{'op': 'write', 's': j, 'file': f},
                        {'op': 'read', 'file': f, 'keep': False},
                        {'op': 'edit', 's': j, 'k': rng.randint(0, 40),
                         'v': 'digit'}]
            ops.pop()
        procs.append(ops)
    plan['procs'] = procs
    plan['race'] = None
    if rng.random() < .3:
        plan['race'] = {'file': rng.choice(FILES[:3]),
                        's': [rng.randint(0, ns - 1), rng.randint(0, ns - 1)],
                        'writers': rng.choice([1, 1, 2]),
                        'fault': rng.choice([None, None, rng.randint(0, 9)])}
    plan['preempt'] = sorted([rng.randint(1, 600), rng.randint(0, 2)]
                             for _ in range(rng.randint(2, 12)))
    plan['wchunk'] = rng.choice([None, None, 60, 500])
    plan['rchunk'] = rng.choice([None, None, 64])
    return plan


def simplify(plan):
    for i in range(len(plan['sets'])):
        if plan['sets'][i]['np']:
            c = dict(plan, sets=list(plan['sets']))
            c['sets'][i] = dict(plan['sets'][i], np=[])
            yield c
    if plan['race']:
        yield dict(plan, race=None)


# -- the machine -----------------------------------------------------------------

def cls(name):
    return getattr(NS.parameter_sets, name + 'ParameterSet')


def make(spec):
    name = KINDS[spec['kind']]
    items = sorted(spec['p'].items(), reverse=spec['order'])
    p = {k: np.float64(v) if k in spec['np'] else v for k, v in items}
    if name in RIDER:
        return cls(name)(p, spec['rider'])
    return cls(name)(p)


def enc(s):
    """Everything a set is."""
    return (s.parameterization, type(s).__name__,
            sorted((k, float(v).hex()) for k, v in s.parameters.items()),
            getattr(s, 'includes_rider', None) if s.parameterization in RIDER
            else None)


def digit(v):
    """Another value with a text of the same length."""
    t = repr(float(v))
    for i, c in enumerate(t):
        if c.isdigit() and c != '0':
            new = t[:i] + ('3' if c != '3' else '7') + t[i + 1:]
            if len(repr(float(new))) == len(t):
                return float(new)
    return v


def slurp(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except OSError:
        return None


def one(root, plan, n, kinds, files=FILES):
    """One process.  kinds: {file: name of the class it was written from}."""
    ops = plan['procs'][n]
    recs = []

    def body(ctx):
        ctx.s.recs = recs
        sets = [make(x) for x in plan['sets']]
        ctx.s.made = [enc(x) for x in sets]
        conv = [False] * len(sets)
        tame = [not x['wild'] for x in plan['sets']]    # fit to convert
        known = dict(kinds)
        for i, op in enumerate(ops):
            k, lab = op['op'], 's%d' % i
            rec = {'i': i, 'out': None}
            recs.append(rec)
            before = [enc(x) for x in sets]
            j = op.get('s', 0) % len(sets)
            if k == 'conv':
                to = TO[sets[j].parameterization]
                if not to or not tame[j]:
                    continue
                rec['to'] = to[op['to'] % len(to)]
                res = ctx.op(lab, sets[j].to_parameterization, rec['to'])
                if res[0] == 'ok':
                    ctx.s.ops[lab] = ('ok',)
                    rec['got'] = enc(res[1])
                    rec['from'] = before[j]
                    sets.append(res[1])
                    conv.append(True)
                    tame.append(True)
                rec['out'] = res[:1] if res[0] == 'ok' else res
            elif k == 'write':
                path = os.path.join(root, op['file'])
                rec['set'] = before[j]
                rec['conv'] = conv[j]
                rec['np'] = sum(type(v) is not float for v in
                                sets[j].parameters.values())
                with ctx.fs.hidden():
                    rec['pre'] = slurp(path)
                fn = sets[j].to_ini if path.endswith('.ini') else \
                    sets[j].to_yaml
                ab = sched.Abort(env.PKG, op['abort'], MemoryError) \
                    if op.get('abort') else None
                rec['out'] = ctx.op(lab, (lambda: ab(fn, path)) if ab else
                                    (lambda: fn(path)))
                rec['fired'] = bool(ab and ab.fired)
                with ctx.fs.hidden():
                    rec['post'] = slurp(path)
                if rec['out'][0] == 'ok':
                    known[op['file']] = sets[j].parameterization
            elif k == 'edit':
                p = sets[j].parameters
                ks = sorted(p)
                key = ks[op['k'] % len(ks)]
                p[key] = digit(p[key]) if op['v'] == 'digit' else op['v']
                tame[j] = False
                before = None
            elif k == 'use':
                s = sets[j]
                if op['how'] == 'html':
                    res = ctx.op(lab, s._repr_html_)
                elif op['how'] == 'same':
                    res = ctx.op(lab, lambda: s.to_parameterization(
                        s.parameterization) is s)
                elif op['how'] == 'bad':
                    res = ctx.op(lab, s.to_parameterization, 'Nothing')
                else:
                    with ctx.fs.hidden():
                        res = ctx.op(lab, lambda: s.plot_all() and None
                                     if hasattr(s, 'plot_all') else None)
                rec['out'] = res[:1]
                ctx.s.ops[lab] = res[:1]
            elif k == 'read':
                name = known.get(op['file'])
                if name is None:
                    continue
                path = os.path.join(root, op['file'])
                res = ctx.op(lab, cls(name)._from_yaml, path)
                rec['kind'] = name
                if res[0] == 'ok':
                    ctx.s.ops[lab] = ('ok',)
                    rec['got'] = enc(res[1])
                    if op['keep']:
                        tame.append(any(
                            t and enc(x)[2] == rec['got'][2]
                            for t, x in zip(tame, sets)))
                        sets.append(res[1])
                        conv.append(True)
                rec['out'] = res[:1] if res[0] == 'ok' else res
            if before is not None and \
                    [enc(x) for x in sets[:len(before)]] != before:
                rec['changed'] = True
    faults = [{'op': 's%d' % i, 'proc': 'p0', 'k': o['fault'][1],
               'mode': o['fault'][0], 'a': o['fault'][2], 'b': 20, 'c': 1,
               'sticky': False} for i, o in enumerate(ops) if o.get('fault')]
    return machine.session(root, body, faults, [], plan['wchunk'],
                           plan['rchunk'])


def race(root, plan, init):
    """Writers and a reader at the same time."""
    r = plan['race']

    def body(ctx):
        sets = [make(plan['sets'][x]) for x in r['s']]
        sets[1:] = sets[1:r['writers']]
        path = os.path.join(root, r['file'])
        ctx.s.sets = [enc(x) for x in sets]
        ctx.s.got = []
        ctx.s.outs = {}
        ctx.s.was = None
        with ctx.fs.hidden():
            os.makedirs(os.path.dirname(path), exist_ok=True)
        if init is not None:
            with ctx.fs.hidden():
                machine.put(path, init)
        sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=True)

        def writer(i):
            def go():
                ctx.fs.label('w%d' % i)
                try:
                    sets[i].to_yaml(path)
                    ctx.s.outs[i] = 'ok'
                except Exception as e:
                    ctx.s.outs[i] = (type(e).__name__, str(e)[:200])
                ctx.fs.label('-')
            return go

        def reader():
            for _ in range(3):
                with open(path) as f:
                    ctx.s.got.append(f.read())
        for i in range(len(sets)):
            sc.spawn(writer(i), 'p%d' % i)
        if init is not None:
            sc.spawn(reader, 'p9')
        sc.run()
        if sc.failure is not None:
            raise core.Hang(str(sc.failure))
        for t in sc.tasks:
            if t.exc is not None:
                raise t.exc
        ctx.s.switches = list(sc.switches)
    faults = []
    if r['fault'] is not None:
        faults = [{'op': 'w0', 'proc': 'p0', 'k': r['fault'], 'mode': 'error',
                   'a': r['fault'], 'b': 0, 'c': 0, 'sticky': False}]
    return machine.session(root, body, faults, [], plan['wchunk'], None)


def parse(text, kinds):
    """The set that a YAML text holds, for any class that wrote it."""
    import tempfile
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'x.yml')
    try:
        machine.put(p, text)
        out = []
        for k in kinds:
            try:
                out.append(enc(cls(k)._from_yaml(p)))
            except Exception as e:
                out.append(('exc', type(e).__name__, str(e)[:200]))
        return out
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)


# -- oracle ------------------------------------------------------------------------

def ini_wrong(text, s):
    """What is wrong with the INI text of an encoded set, or None."""
    vals = dict((k, float.fromhex(h)) for k, h in s[2])
    seen = set()
    for line in text.split('\n'):
        if not line.strip():
            continue
        k, eq, v = line.partition('=')
        k, v = k.strip(), v.strip()
        if not eq or k in seen or k not in vals:
            return 'line %r' % line
        seen.add(k)
        try:
            d = Decimal(v)
        except ArithmeticError:
            return 'value %r of %s' % (v, k)
        if abs(d - Decimal(vals[k])) > Decimal('0.5000001e-16'):
            return '%s = %r, the set has %r' % (k, v, vals[k])
    if seen != set(vals):
        return 'no line for %s' % sorted(set(vals) - seen)
    return None


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    os.makedirs(os.path.join(root, 'deep'))
    long = 'values:\n' + ''.join('  z%d: 1.0\n' % i for i in range(300))
    machine.put(os.path.join(root, 'old.yml'), long)
    machine.put(os.path.join(root, 'old.ini'), long)
    # file -> the sets it may hold; None stands for the content before
    holds = {f: None for f in FILES}
    kinds = {}
    for n, ops in enumerate(plan['procs']):
        s = run.phase(one, root, plan, n, kinds)
        machine.account(run, s)
        run.check(not s.escapes, 'escape', 'wrote outside: %r' % s.escapes)
        for rec in s.recs:
            step(run, plan, s, ops[rec['i']], rec, holds, kinds, root)
            if run.violations:
                return
    # a later process reads everything
    last = [{'op': 'read', 'file': f, 'keep': False} for f in FILES[:4]
            if f in kinds]
    if last:
        p2 = dict(plan, procs=[last])
        s = run.phase(one, root, p2, 0, kinds)
        for rec in s.recs:
            step(run, p2, s, last[rec['i']], rec, holds, kinds, root)
            if run.violations:
                return
    if plan['race']:
        racing(run, plan, root)


def step(run, plan, s, op, rec, holds, kinds, root):
    k, out = op['op'], rec['out']
    if rec.get('changed'):
        return run.violate('changed', '%s changed a parameter set' % (op,))
    if k == 'conv' and rec.get('to'):
        if out is None or out[0] == 'exc':
            return run.violate('refused', 'conversion to %s failed: %r' % (
                rec['to'], out))
        run.check(rec['got'][:2] == (rec['to'], rec['to'] + 'ParameterSet'),
                  'kind', 'conversion to %s gave %s' % (rec['to'],
                                                        rec['got'][:2]))
        want = rec['from'][3] if rec['from'][0] != 'Moore2019' else True
        if rec['to'] in RIDER:
            run.check(rec['got'][3] == want, 'rider', 'the set converted to '
                      '%s has rider %r' % (rec['to'], rec['got'][3]))
    elif k == 'use' and out:
        run.check(out[0] == 'ok' or op['how'] in ('bad', 'plot'), 'refused',
                  '%s failed' % (op,))
    elif k == 'write' and 'set' in rec:
        f = op['file']
        st = rec['set']
        what = 'writing a %s set (%s%s) to %s' % (
            st[0], 'converted, ' if rec['conv'] else '',
            '%d numpy values' % rec['np'], f)
        post = rec.get('post')
        if out is None:
            post = slurp(os.path.join(root, f))
        run.state(st[0], rec['conv'], rec['np'] > 0, st[3], f[-3:],
                  rec['pre'] is None, op.get('fault', [None])[0],
                  out and out[0], rec['fired'] if 'fired' in rec else None)
        hit = out is None or rec.get('fired') or any(
            e[1] == 's%d' % rec['i'] and e[-1] and e[-1] != 'short'
            for e in s.events)
        if rec.get('fired'):
            run.fault('failing-allocation')
        if out is not None and out[0] == 'ok':
            full = True
        else:
            if not hit:
                return run.violate('refused', '%s failed: %r' % (what,
                                                                 out[1:]))
            full = post != rec['pre']
        if full:
            holds[f] = [st]
            kinds[f] = st[0]
            run.probe('writes')
            if f.endswith('.ini'):
                try:
                    bad = ini_wrong((post or b'').decode(), st)
                except UnicodeDecodeError:
                    bad = 'not text'
                run.check(not bad, 'ini', '%s (%s): %s' % (
                    what, 'done' if out else 'crashed', bad))
            elif out is None or out[0] != 'ok':
                # a failed write that replaced the file holds the whole set
                got = run.phase(parse, (post or b'').decode(
                    errors='replace'), [st[0]])[0]
                run.check(got == st, 'torn', '%s failed (%r) and left %r' % (
                    what, out and out[1], (post or b'')[:100]))
    elif k == 'read' and 'kind' in rec or k == 'read' and out is not None:
        f = op['file']
        if s.crashed and out is None:
            return
        if holds[f] is None:
            return
        if out is None or out[0] == 'exc':
            return run.violate('unreadable', 'a %s set written to %s can not '
                               'be read: %r' % (rec['kind'], f, out))
        got = rec['got']
        want = holds[f][0]
        for i, name in ((0, 'kind'), (2, 'values'), (3, 'rider')):
            if got[i] != want[i]:
                d = (got[i], want[i])
                if i == 2:
                    a, b = dict(got[2]), dict(want[2])
                    d = {x: (a.get(x), b.get(x)) for x in set(a) | set(b)
                         if a.get(x) != b.get(x)}
                return run.violate(name, 'a %s set read back from %s has '
                                   'another %s: %r' % (rec['kind'], f, name,
                                                       d))
        run.probe('read-back')


def racing(run, plan, root):
    r = plan['race']
    p = os.path.join(root, r['file'])
    init = 'values: {}\nparameterization: Old\nrider: null\n'
    s = run.phase(race, root, plan, init)
    machine.account(run, s)
    run.probe('switches', len(s.switches))
    run.note('switches', s.switches)
    for i, o in s.outs.items():
        if o != 'ok' and not (i == 0 and s.fired):
            return run.violate('refused', 'a write beside another failed: %r'
                               % (o,))
    texts = sorted(set(s.got))
    fin = (slurp(p) or b'').decode(errors='replace')
    for t in texts + [fin]:
        if t == init:
            continue
        got = run.phase(parse, t, [x[0] for x in s.sets])
        if not any(g == x for g, x in zip(got, s.sets)):
            return run.violate('torn', 'while sets were written to %s it '
                               'held %r' % (r['file'], t[:200]))
    if any(o == 'ok' for o in s.outs.values()):
        run.check(fin != init, 'lost', 'a write beside another is lost')
    run.probe('races')
