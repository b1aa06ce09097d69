"""P15: tables are repeatable reports of their bicycles' parameters."""
import math
import os

from .. import core, env, gen, machine, rig, sched

ID = 'P15'
RUNS = {'quick': 4800, 'thorough': 60000}
LEVEL = 'seeded search over histories of table creations, reports, saves ' \
    'with disk faults, failing allocations, queries, riders and edits over ' \
    'several bicycles, and over interleavings of reports in two threads; ' \
    'every report is parsed and compared with a reference computed from the ' \
    'parameters at the creation of the table'
RULE = 'a run is non-trivial when a report was compared with the reference; ' \
    'counted by distinct (source, format, kinds of bicycles, earlier ' \
    'reports, file, fault, outcome) tuples'
STATE_MEASURE = 'distinct (source, LaTeX, number and kinds of bicycles, ' \
    'reports before, target, fault, outcome) tuples'
REAL = ['tables', 'bicycle and rider loading', 'parameter calculation',
        'file output']
STUB = ['disk', 'failing allocations', 'thread scheduling']
ASSUMPTIONS = ['parameter names are those of the documented data files',
               'a bicycle in a table has the parameters the table is about']
SHRINK = ['ops', 'preempt']

NS = None
NAMES = ['Alpha', 'Bo', 'Cervelorandonneurgrandtourer', 'Delta', 'Evo']


def setup():
    global NS
    NS = env.load()


def unc(rng, d, style):
    """Uncertainties of all magnitudes."""
    out = {}
    for k, v in d.items():
        r = rng.random()
        if style == 'none' or r < .2:
            out[k] = v
        elif r < .75 or style == 'plain':
            out[k] = [v, abs(v) * 10. ** rng.uniform(-6, -1) + 1e-9]
        elif r < .82:
            out[k] = [v, 0.]
        elif r < .9:
            out[k] = [v, 10. ** rng.uniform(-1, 3)]
        elif r < .95:
            out[k] = [v, rng.choice([.1, .01, .5, .96, .0996, 1., 10., 1e-4,
                                     .95, 9.6])]
        else:
            out[k] = [v, 10. ** rng.uniform(-18, -6)]
    return out


def bike(rng):
    p = rig.true_bike(rng)
    if rng.random() < .3:
        p = rig.split_fork(p, rng)
    if rng.random() < .2:
        p['mD'], p['IDxx'], p['IDyy'] = 2.4, .03, .06
    if rng.random() < .25:
        p['xcl'], p['zcl'] = .5, -.35
    p.pop('v', None)
    r = rng.random()
    if r < .65:
        if rng.random() < .2:
            p['IBxz'] = 0.
            p['c'] = 0.
        return {'par': unc(rng, p, rng.choice(['none', 'plain', 'plain',
                                               'wild']))}
    n = {x: rng.choice([3, 3, 4, 5]) for x in 'BHGS'}
    if rng.random() < .25:
        n[rng.choice('BH')] = rng.choice([10, 11])
        if 'mG' in p:
            n['S'] = n['G'] = 3
    p = {k: v for k, v in p.items() if k not in ('xcl', 'zcl', 'mD', 'IDxx',
                                                  'IDyy')}
    mp, T = rig.measure(p, rng, norient=n)
    out = dict(mp)
    if rng.random() < .3:
        out = {k: [v, 0.] if not isinstance(v, (list, str)) and
               rng.random() < .1 else v for k, v in out.items()}
    return {'measured': out, 'T': T}


def generate(rng, tier, index):
    plan = {'bikes': [bike(rng) for _ in range(rng.randint(1, 4))]}
    nb = len(plan['bikes'])
    plan['riders'] = [gen.enc(rng, rig.rider(rng), .7) if
                      'par' in plan['bikes'][i] and rng.random() < .5
                      else None for i in range(nb)]
    meas = [i for i in range(nb) if 'measured' in plan['bikes'][i]]
    ops = []
    nt = 0
    for i in range(rng.randint(3, 10)):
        r = rng.random()
        if nt == 0 or r < .22:
            src = 'Measured' if meas and rng.random() < .5 else 'Benchmark'
            pool = meas if src == 'Measured' else list(range(nb))
            ops.append({'op': 'table', 'src': src,
                        'latex': rng.random() < .5,
                        'bikes': [rng.choice(pool) for _ in
                                  range(rng.choice([1, 1, 2, 2, 3]))],
                        'list': rng.choice(['own', 'own', 'tuple',
                                            'shared'])})
            if rng.random() < .06:
                ops[-1]['abort'] = rng.randint(1, 300)
            nt += 1
        elif r < .62:
            ops.append({'op': 'rst', 't': rng.randint(0, 9),
                        'file': rng.choice([None, None, 'same', 'new',
                                            'old', 'dir'])})
            if rng.random() < .08:
                ops[-1]['abort'] = rng.choice([rng.randint(1, 20),
                                               rng.randint(1, 400)])
            elif ops[-1]['file'] and rng.random() < .4:
                ops[-1]['fault'] = [rng.choice(['error', 'error', 'short',
                                                'crash']),
                                    rng.randint(0, 12), rng.randint(0, 9)]
        elif r < .7:
            ops.append({'op': 'query', 'b': rng.randint(0, nb - 1),
                        'kind': rng.choice(['str', 'canonical', 'eig',
                                            'ss'])})
        elif r < .77:
            ops.append({'op': 'rider', 'b': rng.randint(0, nb - 1)})
        elif r < .84:
            ops.append({'op': 'edit', 'b': rng.randint(0, nb - 1),
                        'k': rng.choice(['w', 'mB', 'c', 'lam', 'zB', 'new']),
                        'f': rng.uniform(.8, 1.2),
                        'u': rng.choice([None, 0., .02, 3.])})
        elif r < .9:
            ops.append({'op': 'save', 'b': rng.randint(0, nb - 1)})
        elif r < .94:
            ops.append({'op': 'regen', 't': rng.randint(0, 9)})
        else:
            ops.append({'op': 'both', 't': [rng.randint(0, 9),
                                            rng.randint(0, 9)]})
    plan['ops'] = ops
    plan['preempt'] = sorted([rng.randint(1, 800), rng.randint(0, 1)]
                             for _ in range(rng.randint(1, 10)))
    plan['wchunk'] = rng.choice([None, None, 40, 300])
    return plan


def simplify(plan):
    n = len(plan['bikes'])
    for i in range(n):
        b = plan['bikes'][i]
        if 'par' in b:
            for k in sorted(b['par']):
                if isinstance(b['par'][k], list):
                    c = dict(plan, bikes=list(plan['bikes']))
                    c['bikes'][i] = {'par': dict(b['par'],
                                                 **{k: b['par'][k][0]})}
                    yield c


# -- the machine ---------------------------------------------------------------

def fname(i, kind):
    return {'same': 'table.rst', 'new': 'table%d.rst' % i, 'old': 'old.rst',
            'dir': 'folder.rst'}[kind]


def build(root, plan):
    data = os.path.join(root, 'data')
    for i, b in enumerate(plan['bikes']):
        d = os.path.join(data, 'bicycles', NAMES[i])
        if 'par' in b:
            machine.put(os.path.join(d, 'Parameters',
                                     NAMES[i] + 'Benchmark.txt'),
                        gen.text(b['par']))
        else:
            mp = dict(b['measured'])
            mp.update(b['T'])
            machine.put(os.path.join(d, 'RawData',
                                     NAMES[i] + 'Measured.txt'),
                        gen.text(mp))
        if plan['riders'][i]:
            machine.put(os.path.join(data, 'riders', 'Jane', 'Parameters',
                                     'Jane%sBenchmark.txt' % NAMES[i]),
                        gen.text(plan['riders'][i]))
    machine.put(os.path.join(root, 'out', 'old.rst'), 'an older table\n')
    machine.put(os.path.join(root, 'out', 'folder.rst', 'x'), 'x')


def plain(par):
    out = {}
    for k, v in par.items():
        if hasattr(v, 'nominal_value'):
            out[k] = (float(v.nominal_value), float(v.std_dev))
        else:
            out[k] = (float(v), None)
    return out


def snap(bikes):
    return [(b.bicycleName, bool(b.hasRider),
             {s: list(plain(p).items()) for s, p in b.parameters.items()})
            for b in bikes]


def ask(b, kind):
    if kind == 'str':
        return str(b)
    if kind == 'canonical':
        return b.canonical()
    if kind == 'eig':
        return b.eig([1., 4.])
    return b.state_space(3.)


def history(root, plan):
    data = os.path.join(root, 'data')
    recs = []

    def body(ctx):
        ctx.s.recs = recs
        bikes = []
        for i, b in enumerate(plan['bikes']):
            bikes.append(NS.bp.Bicycle(NAMES[i], data,
                                       forceRawCalc='measured' in b))
        tabs, shared = [], []

        def state(idx, src):
            return [(NAMES[j], plain(bikes[j].parameters[src]))
                    for j in idx]
        for i, op in enumerate(plan['ops']):
            k = op['op']
            rec = {'i': i, 'out': None, 't': None}
            recs.append(rec)
            before = snap(bikes)
            lab = 's%d' % i
            if k == 'table':
                if op['list'] == 'shared':
                    shared[:] = [bikes[j] for j in op['bikes']]
                    lst = shared
                else:
                    lst = [bikes[j] for j in op['bikes']]
                    if op['list'] == 'tuple':
                        lst = tuple(lst)

                def make():
                    return NS.tables.Table(op['src'], op['latex'], lst)
                ab = sched.Abort(env.PKG, op['abort'], MemoryError) \
                    if op.get('abort') else None
                res = ctx.op(lab, (lambda: ab(make)) if ab else make)
                rec['fired'] = bool(ab and ab.fired)
                if res[0] == 'ok':
                    ctx.s.ops[lab] = ('ok',)
                    rec['t'] = len(tabs)
                    tabs.append({'tab': res[1], 'op': op,
                                 'want': state(op['bikes'], op['src'])})
                    rec['want'] = tabs[-1]['want']
                    res = ('ok',)
                rec['out'] = res
            elif k in ('rst', 'both', 'regen'):
                if not tabs:
                    continue
                if k == 'rst':
                    n = op['t'] % len(tabs)
                    rec['t'] = n
                    path = None
                    if op['file']:
                        path = os.path.join(root, 'out', fname(i, op['file']))
                        with ctx.fs.hidden():
                            if os.path.isfile(path):
                                with open(path, 'rb') as f:
                                    rec['pre'] = f.read()
                    ab = sched.Abort(env.PKG, op['abort'], MemoryError) \
                        if op.get('abort') else None

                    def report():
                        t = tabs[n]['tab']
                        return t.create_rst_table(path) if path else \
                            t.create_rst_table()
                    rec['out'] = ctx.op(lab, (lambda: ab(report)) if ab else
                                        report)
                    rec['fired'] = bool(ab and ab.fired)
                    if path:
                        with ctx.fs.hidden():
                            if os.path.isfile(path):
                                with open(path, 'rb') as f:
                                    rec['post'] = f.read()
                elif k == 'regen':
                    n = op['t'] % len(tabs)
                    rec['t'] = n
                    t = tabs[n]

                    def regen():
                        t['tab'].generate_variable_list()
                        t['tab'].generate_table_data()
                    res = ctx.op(lab, regen)
                    rec['out'] = res[:2]
                    t['want'] = state(t['op']['bikes'], t['op']['src'])
                    rec['want'] = t['want']
                else:
                    two = [x % len(tabs) for x in op['t']]
                    sc = sched.Scheduler(plan['preempt'], pkg=env.PKG,
                                         trace=True)
                    got = {}

                    def task(j, n):
                        def go():
                            try:
                                got[j] = ('ok', tabs[n]['tab']
                                          .create_rst_table())
                            except Exception as e:
                                got[j] = ('exc', type(e).__name__, str(e))
                        return go
                    for j, n in enumerate(two):
                        sc.spawn(task(j, n), 'p0')
                    sc.run()
                    if sc.failure is not None:
                        raise core.Hang(str(sc.failure))
                    rec['two'] = [(n, got.get(j)) for j, n in enumerate(two)]
                    rec['switches'] = list(sc.switches)
            elif k == 'query':
                res = ctx.op(lab, ask, bikes[op['b']], op['kind'])
                ctx.s.ops[lab] = res[:1]
                rec['out'] = res[:1]
            elif k == 'rider':
                b = bikes[op['b']]
                if plan['riders'][op['b']] is None or b.hasRider:
                    continue
                res = ctx.op(lab, b.add_rider, 'Jane')
                rec['out'] = res[:2]
                before = None
            elif k == 'edit':
                par = bikes[op['b']].parameters['Benchmark']
                from uncertainties import ufloat
                old = par.get(op['k'] if op['k'] != 'new' else 'xcl', .5)
                v = getattr(old, 'nominal_value', old) * op['f']
                par[op['k'] if op['k'] != 'new' else 'xcl'] = \
                    v if op['u'] is None else ufloat(v, op['u'])
                before = None
            elif k == 'save':
                res = ctx.op(lab, bikes[op['b']].save_parameters)
                rec['out'] = res[:1]
            if before is not None:
                after = snap(bikes)
                if after != before:
                    rec['changed'] = 'parameters or rider of a bicycle'
        # every table once more
        ctx.s.end = [ctx.op('end%d' % n, t['tab'].create_rst_table)
                     for n, t in enumerate(tabs)]
        ctx.s.wants = [(t['op'], t['want']) for t in tabs]
    faults = [{'op': 's%d' % i, 'proc': 'p0', 'k': o['fault'][1],
               'mode': o['fault'][0], 'a': o['fault'][2], 'b': 20, 'c': 0,
               'sticky': False}
              for i, o in enumerate(plan['ops']) if o.get('fault')]
    return machine.session(root, body, faults, ['y'] * 40, plan['wchunk'])


# -- oracle ----------------------------------------------------------------------

def cells(line, cols):
    if line[0] != '|' or line[-1] != '|':
        raise ValueError('row %r' % line)
    out = []
    for a, b in zip(cols, cols[1:]):
        if line[a] != '|' or line[b] != '|':
            raise ValueError('no border at %d: %r' % (a, line))
        cell = line[a + 1:b]
        if '|' in cell:
            raise ValueError('extra border: %r' % line)
        out.append(cell.strip())
    return out


def rule(line, cols, ch):
    want = [ch] * len(line)
    for c in cols:
        want[c] = '+'
    if line != ''.join(want):
        raise ValueError('border %r' % line)


def parse(text):
    """(bicycle names, header, rows) of a grid table with a header row."""
    lines = text.split('\n')
    while lines and not lines[-1]:
        lines.pop()
    if len(lines) < 5 or len(set(map(len, lines))) != 1:
        raise ValueError('lines of different lengths')
    top = [i for i, c in enumerate(lines[0]) if c == '+']
    rule(lines[0], top, '-')
    cols = [i for i, c in enumerate(lines[2]) if c == '+']
    rule(lines[2], cols, '=')
    names = cells(lines[1], top)
    if not set(top) <= set(cols) or top[0] != 0 or \
            top[-1] != len(lines[0]) - 1:
        raise ValueError('columns %s and %s' % (top, cols))
    if [cols.index(c) for c in top[1:]] != list(range(1, len(cols), 2)):
        raise ValueError('spans %s of %s' % (top, cols))
    rows = []
    if len(lines) % 2 == 0:
        raise ValueError('%d lines' % len(lines))
    for i in range(3, len(lines), 2):
        rows.append(cells(lines[i], cols))
        rule(lines[i + 1], cols, '-')
    return names, rows[0], rows[1:]


def bare(latex):
    s = latex
    for c in '\\{}_^':
        s = s.replace(c, '')
    return s.lower()


def number(s):
    """(value, decimals) of a number in the table."""
    v = float(s)
    d = s.split('.')[1] if '.' in s else ''
    return v, len(d)


def right(cell, sig, val):
    """Is val (nominal, std) shown correctly by the two cells?"""
    if val is None:
        return cell == sig == 'NA'
    nom, std = val
    if std is None:
        return sig == 'NA' and float(cell) == nom
    if std == 0.:
        return abs(float(cell) - nom) <= 1e-12 * abs(nom) + 1e-15 and \
            float(sig) == 0.
    e = math.floor(math.log10(std))
    v, dv = number(cell)
    s, ds = number(sig)
    if dv != ds or 'e' in cell + sig:
        return False
    half = .5 * 10. ** e * (1. + 1e-6)
    if e < 0 and not -e - 1 <= dv <= -e + 1:
        return False
    if e >= 0 and dv > 1:
        return False
    return s > 0. and abs(s - std) <= half + 1e-15 and \
        abs(v - nom) <= half + 4e-16 * abs(nom)


def judge(text, op, want):
    """None or what is wrong with a report."""
    try:
        names, header, rows = parse(text)
    except (ValueError, IndexError) as e:
        return 'malformed', 'not a table: %s' % e
    if names != [''] + [n for n, _ in want]:
        return 'bicycles', 'bicycles %s instead of %s' % (
            names[1:], [n for n, _ in want])
    v, sg = ('v', 'sigma') if not op['latex'] else (
        ':math:`v`', r':math:`\sigma`')
    if header != ['Variable'] + [v, sg] * len(want):
        return 'header', 'header %r' % header
    keys = set()
    for _, p in want:
        keys |= set(p)
    by = {}
    for r in rows:
        name = r[0]
        if op['latex']:
            if not (name.startswith(':math:`') and name.endswith('`')) or \
                    '`' in name[7:-1]:
                return 'label', 'label %r' % name
            name = bare(name[7:-1])
        if name in by:
            return 'twice', 'two rows %r' % r[0]
        by[name] = r
    for k in sorted(keys):
        n = k
        if op['latex']:
            n = {'lam': 'lambda', 'lamst': 'lambdast'}.get(k, k).lower()
        if n not in by:
            return 'missing', 'no row for %s in %s' % (k, sorted(by))
        r = by.pop(n)
        for j, (nm, p) in enumerate(want):
            c = r[1 + 2 * j:3 + 2 * j]
            try:
                ok = right(c[0], c[1], p.get(k))
            except ValueError:
                ok = False
            if not ok:
                return 'value', '%s of %s is %r, shown as %r' % (
                    k, nm, p.get(k), c)
    if by:
        return 'extra', 'rows %s' % sorted(by)
    return None


def kinds(plan, op):
    return sorted('measured' if 'measured' in plan['bikes'][j] else
                  'rider' if plan['riders'][j] else 'par'
                  for j in op['bikes'])


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    build(root, plan)
    s = run.phase(history, root, plan)
    machine.account(run, s)
    run.check(not s.escapes, 'escape', 'wrote outside: %r' % s.escapes)
    tabs, first, reports = [], {}, {}

    def report(n, text, what):
        op, want = tabs[n]
        key = (n, repr(want))
        if first.setdefault(key, text) != text:
            run.violate('repeat', '%s differs from the first report of the '
                        'same table:\n%s\n---\n%s' % (what, text[:500],
                                                      first[key][:500]))
            return
        bad = judge(text, op, want)
        if bad:
            run.violate(bad[0], '%s (%s, report %d of this table): %s' % (
                what, op['src'], reports.get(n, 0) + 1, bad[1]))
        reports[n] = reports.get(n, 0) + 1
        run.probe('reports')
    for rec in s.recs:
        op = plan['ops'][rec['i']]
        k = op['op']
        out = rec['out']
        if rec.get('changed'):
            run.violate('changed', '%s changed the %s' % (k, rec['changed']))
        if rec.get('fired'):
            run.fault('failing-allocation')
        if k == 'table':
            if out is None:
                continue
            if out[0] == 'ok':
                tabs.append((op, rec['want']))
            elif not rec['fired']:
                run.violate('refused', 'a table of %s (LaTeX %s) of %s '
                            'failed: %r' % (op['src'], op['latex'],
                                            kinds(plan, op), out[1:]))
        elif k == 'regen' and rec['t'] is not None:
            if out[0] == 'ok':
                tabs[rec['t']] = (tabs[rec['t']][0], rec['want'])
            else:
                run.violate('refused', 'renewing the table failed: %r' %
                            (out[1:],))
        elif k == 'both' and rec.get('two'):
            for n, o in rec['two']:
                if o[0] == 'ok':
                    report(n, o[1], 'a report made while another is made')
                else:
                    run.violate('refused', 'a report in a thread failed: %r'
                                % (o,))
            run.note('switches', rec['switches'])
            run.probe('thread-switches', len(rec['switches']))
        elif k == 'rst' and rec['t'] is not None:
            n = rec['t']
            what = 'report to %s' % op['file'] if op['file'] else 'report'
            f = op.get('fault', [None])[0]
            run.state(tabs[n][0]['src'], tabs[n][0]['latex'],
                      kinds(plan, tabs[n][0]), min(2, reports.get(n, 0)),
                      op['file'], f, out and out[0], bool(op.get('abort')))
            if out is not None and out[0] == 'ok':
                report(n, out[1], what)
                if op['file'] and not run.violations:
                    run.check((rec.get('post') or b'').decode() == out[1],
                              'file', '%s succeeded, the file holds %r' % (
                                  what, (rec.get('post') or b'')[:80]))
            else:
                full = first.get((n, repr(tabs[n][1])))
                if out is None:
                    p = os.path.join(root, 'out', fname(rec['i'], op['file'])
                                     if op['file'] else 'x')
                    post = None
                    if os.path.isfile(p):
                        with open(p, 'rb') as fh:
                            post = fh.read()
                elif not rec['fired'] and not any(
                        e[1] == 's%d' % rec['i'] and e[-1] for e in
                        s.events) and op['file'] != 'dir':
                    run.violate('refused', '%s failed: %r' % (what, out[1:]))
                    continue
                else:
                    post = rec.get('post')
                if op['file'] and post != rec.get('pre'):
                    if full is None or (post or b'').decode(
                            errors='replace') != full:
                        bad = judge((post or b'').decode(errors='replace'),
                                    *tabs[n])
                        run.check(not bad, 'torn', '%s failed (%r) and left '
                                  '%r' % (what, out and out[1],
                                          (post or b'')[:80]))
        elif k in ('query', 'rider', 'save') and out and out[0] == 'exc':
            run.violate('refused', '%s failed: %r' % (k, out))
        if run.violations:
            return
    if s.crashed:
        return
    for n, out in enumerate(s.end):
        if out[0] != 'ok':
            run.violate('refused', 'the last report of a table failed: %r' %
                        (out[1:],))
            return
        report(n, out[1], 'the last report')
        if run.violations:
            return
