"""P02: recalculating periods never loses raw measurements."""
import os

from .. import env, gen, machine, rig

ID = 'P02'
RUNS = {'quick': 1600, 'thorough': 16000}
LEVEL = 'seeded search over histories of loads, forced calculations, ' \
    'recordings arriving, being damaged and removed, manual edits, disk ' \
    'errors and crashes'
RULE = 'a run is non-trivial when a period calculation ran or was cut off; ' \
    'counted by distinct (step kind, number and state of the recordings, ' \
    'fault, outcome, file old/new) tuples'
STATE_MEASURE = 'distinct (step, recordings usable/bad/partial, enough ' \
    'periods, fault, outcome, raw file state) tuples'
REAL = ['Bicycle loading and calculate_from_measured', 'recording reader '
        '(scipy.io)', 'period fit', 'raw file rewriter', 'benchmark '
        'calculation']
STUB = ['disk', 'measurement rig (synthetic recordings)', 'rasterizer of '
        'the fit plots (a stub writes the plot file through the disk)']
ASSUMPTIONS = ['recordings resemble decaying oscillations or are damaged '
               'beyond use', 'a crash loses the process, or the machine '
               'with unsynced data']
SHRINK = ['faults', 'ops', 'recs']

NS = None


def simplify(plan):
    for i, ln in enumerate(plan['lines']):
        if ln[0] == 'com':
            yield dict(plan, lines=plan['lines'][:i] + plan['lines'][i + 1:])


def setup():
    global NS
    NS = env.load()


def stub_savefig():
    import matplotlib.figure

    def savefig(self, fname, *a, **kw):
        with open(fname, 'wb') as f:
            f.write(b'plot with %d axes\n' % len(self.axes) * 20)
    matplotlib.figure.Figure.savefig = savefig


# -- plan ---------------------------------------------------------------------


def spec(rng, key, T, bike='Alpha', trial=1):
    s = {'bike': bike, 'key': key, 'trial': trial,
         'T': T * (1. + rng.uniform(-1, 1) * 0.03),
         'seed': rng.getrandbits(30), 'phase': rng.uniform(0, 6.28),
         'amp': rng.uniform(.7, 2.5), 'offset': rng.uniform(-.5, 1.),
         'zeta': rng.uniform(1e-3, 8e-3), 'rate': rng.choice([200, 500]),
         'seconds': rng.choice([8., 12.])}
    s['timebase'] = rng.random() < 0.2
    s['angle'] = rng.random() < 0.3
    s['ratefield'] = rng.choice(['ActualRate', 'sampleRate'])
    if rng.random() < 0.3:
        s['rodname'] = rng.choice(['Rod', 'Crod'])
    return s


BAD = ['empty', 'truncated', 'garbage', 'nodata', 'nopart', 'oddpart', 'short']


def generate(rng, tier, index):
    p = rig.true_bike(rng)
    split = rng.random() < 0.3
    if split:
        p = rig.split_fork(p, rng)
    if rng.random() < 0.2:
        p['mD'], p['IDxx'], p['IDyy'] = 2.4, 0.03, 0.06
    mp, T = rig.measure(p, rng, norient=rng.choice([3, 3, 4]))
    keys = sorted(T)
    plan = {'split': split, 'stored': rng.random() < 0.25,
            'true': T, 'perm': rng.randint(0, 999),
            'rchunk': rng.choice([None, None, 300]),
            'wchunk': rng.choice([None, None, 40])}
    lines = [['val', k, gen.enc(rng, {k: v}, .8)[k]]
             for k, v in sorted(mp.items())]
    present = rng.choice(['all', 'all', 'most', 'few', 'none', 'edge'])
    n = {'all': len(keys), 'most': len(keys) - rng.randint(1, 3), 'few': 3,
         'none': 0, 'edge': 0}[present]
    have = sorted(rng.sample(keys, n))
    if present == 'edge':
        # just enough or one too few of one kind, the others complete
        kind = rng.choice(['Tc', 'Tt'])
        least = {'Tc': 5 if split else 4, 'Tt': 11 if split else 8}
        mine = [k for k in keys if k[:2] == kind]
        n = max(0, min(len(mine), least[kind] - rng.choice([0, 1, 1])))
        have = sorted(rng.sample(mine, n) +
                      [k for k in keys if k[:2] != kind])
    lines += [['val', k, [T[k], 1e-5 * T[k]]] for k in have]
    if present != 'edge':
        # names that contain the names of periods, or are contained
        for k in rng.sample(['TcB12', 'TtB10', 'TtF1b', 'TcR1old', 'TtP10',
                             'Temp', 'T', 'lF1', 'TcF'],
                            rng.choice([0, 0, 1, 3])):
            v = rng.uniform(.8, 2.)
            lines.append(['val', k, rng.choice([v, [v, 1e-5]])])
    for i in range(rng.randint(0, 3)):
        lines.append(['com', rng.choice(['# measured by Jane', '# TcB1 = 9.9',
                                         '# Temperature 20 C',
                                         '#TtP1 was 1.5'])])
    if have and rng.random() < 0.15:
        k = rng.choice(have)
        lines.append(['val', k, [T[k] * 1.001, 2e-5]])
    for ln in lines:
        # written by hand
        if ln[0] == 'val' and rng.random() < .1:
            ln.append(rng.choice(['%s=%s', '%s  =  %s  # by Jane', ' %s = %s',
                                  '%s = %s # was TcB1 = 3', '%s =%s#x']))
    if rng.random() < 0.5:
        rng.shuffle(lines)
    plan['lines'] = lines
    plan['newline'] = rng.random() < 0.8
    plan['bench'] = gen.benchmark(rng, split=False, flywheel=False)
    # recordings
    recs = []
    want = rng.choice(['none', 'some', 'some', 'some', 'missing'])
    if present == 'edge' and rng.random() < .7:
        want = 'missing'
    if want == 'missing':
        todo = [k for k in keys if k not in have]
        if len(todo) > 6:
            todo = rng.sample(todo, 4)
    elif want == 'some':
        todo = rng.sample(keys, rng.randint(1, 3))
    else:
        todo = []
    for k in sorted(todo):
        for trial in range(1, rng.choice([1, 1, 2, 3]) + 1):
            recs.append(spec(rng, k, T[k], trial=trial))
    plan['recs'] = recs
    ops = []
    for i in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.5:
            steps = [{'op': 'load', 'raw': rng.random() < 0.8,
                      'per': rng.random() < 0.6}]
            while rng.random() < 0.3:
                steps.append({'op': 'calc', 'per': rng.random() < 0.7})
            ops.append({'op': 'session', 'steps': steps})
        elif r < 0.65:
            k = rng.choice(keys)
            ops.append({'op': 'rec', 'spec': spec(
                rng, k, T[k], trial=rng.randint(1, 4))})
        elif r < 0.72:
            ops.append({'op': 'del', 'i': rng.randint(0, 9)})
        elif r < 0.82:
            ops.append({'op': 'bad', 'i': rng.randint(0, 9),
                        'how': rng.choice(BAD)})
        else:
            k = rng.choice(keys)
            ops.append({'op': 'edit', 'kind': rng.choice(
                ['comment', 'drop', 'set', 'newline', 'add']), 'key': k,
                'v': [T[k] * 1.0007, 3e-5]})
    if not any(o['op'] == 'session' for o in ops):
        ops.append({'op': 'session', 'steps': [
            {'op': 'load', 'raw': True, 'per': True}]})
    plan['ops'] = ops
    faults = []
    for i, o in enumerate(ops):
        if o['op'] == 'session' and rng.random() < 0.45:
            j = rng.randint(0, len(o['steps']) - 1)
            faults.append({'at': i, 'op': 's%d' % j, 'proc': 'p0',
                           'k': rng.randint(0, 500),
                           'mode': rng.choice(['error', 'error', 'crash',
                                               'power', 'short']),
                           'a': rng.randint(0, 9), 'b': rng.choice([0, 9, 300]),
                           'c': rng.randint(0, 9),
                           'sticky': rng.random() < 0.5})
    plan['faults'] = faults
    return plan


# -- reference ------------------------------------------------------------------


def parse(data):
    """{'vals': [(key, value, std)...], 'com': [...]} of a raw file."""
    vals, com = [], []
    for line in data.decode().split('\n'):
        s = line.strip()
        if not s:
            continue
        if s.startswith('#'):
            com.append(s)
            continue
        k, v = s.split('#')[0].strip().split('=')
        xs = []
        for item in v.split(','):
            part = item.split('+/-')
            xs.append(float(part[0]))
        std = float(v.split('+/-')[1]) if '+/-' in v and ',' not in v else None
        vals.append((k.strip(), sum(xs) / len(xs), std))
    return {'vals': vals, 'com': sorted(com)}


def last(vals):
    return {k: v for k, v, _ in vals}


def needs_calc(keys, split):
    tc = sum(1 for k in keys if k[:2] == 'Tc')
    tt = sum(1 for k in keys if k[:2] == 'Tt')
    return (tc < 5 or tt < 11) if split else (tc < 4 or tt < 8)


def render(lines, newline):
    out = []
    for ln in lines:
        if ln[0] == 'com':
            out.append(ln[1])
        else:
            txt = '%r+/-%r' % tuple(ln[2]) if isinstance(ln[2], list) else \
                repr(ln[2])
            out.append((ln[3] if len(ln) > 3 else '%s = %s') % (ln[1], txt))
    return '\n'.join(out) + ('\n' if newline else '')


class Lab(object):
    """What the laboratory knows: the recordings on disk."""

    def __init__(self, raw):
        self.raw = raw
        self.recs = {}

    def put(self, s, damage=None):
        s = dict(s)
        if damage in ('empty', 'truncated', 'garbage'):
            s['damage'] = damage
        elif damage == 'nodata':
            s['drop'] = ['data']
        elif damage == 'nopart':
            s['drop'] = ['part']
        elif damage == 'short':
            s['seconds'] = 8. / s.get('rate', 500)
        name, b = rig.mat_bytes(s)
        if damage == 'oddpart':
            import io
            import scipy.io
            _, d = rig.recording(s)
            d['part'] = 'Saddle'
            d.pop('rod', None)
            buf = io.BytesIO()
            scipy.io.savemat(buf, d)
            b = buf.getvalue()
        machine.put(os.path.join(self.raw, name), b)
        self.recs[name] = (s, damage)

    def usable(self):
        return not any(d for _, d in self.recs.values())

    def averages(self):
        by = {}
        for name in sorted(self.recs):
            s, _ = self.recs[name]
            by.setdefault(s['key'], []).append(s['T'])
        return {k: sum(v) / len(v) for k, v in by.items()}


def required(keys, vals, split):
    req = ['TcF1', 'TcR1', 'TcB1', 'TtP1', 'TtF1', 'TtR1']
    parts = 'BSG' if split else 'BH'
    for q in parts:
        req.append('Tc%s1' % q)
        n = sum(1 for k in vals if k.startswith('alpha' + q))
        req += ['Tt%s%d' % (q, i + 1) for i in range(n)]
    return [k for k in req if k not in keys]


# -- execution ------------------------------------------------------------------


def one(root, steps, faults, plan):
    stub_savefig()

    def body(ctx):
        data = os.path.join(root, 'data')
        hold = {}

        def do(st):
            if st['op'] == 'load':
                hold['b'] = NS.bp.Bicycle('Alpha', data,
                                          forceRawCalc=st['raw'],
                                          forcePeriodCalc=st['per'])
            else:
                if 'b' not in hold:
                    return None
                hold['b'].calculate_from_measured(forcePeriodCalc=st['per'])
            par = hold['b'].parameters
            return {'Measured': gen.plain(par['Measured'])
                    if 'Measured' in par else None,
                    'sets': sorted(par)}
        for j, st in enumerate(steps):
            ctx.op('s%d' % j, do, st)
            with ctx.fs.hidden():
                ctx.s.snaps.append(machine.tree(root))
    s = machine.session(root, body, faults, [], plan['wchunk'],
                        plan['rchunk'], plan['perm'])
    return s


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    raw = os.path.join(root, 'data', 'bicycles', 'Alpha', 'RawData')
    rawfile = os.path.join(raw, 'AlphaMeasured.txt')
    rel = os.path.relpath(rawfile, root)
    machine.put(rawfile, render(plan['lines'], plan['newline']))
    machine.put(os.path.join(raw, 'notes.txt'), 'TcB1 = broken\n')
    machine.put(os.path.join(raw, 'AlphaFrameCompoundFirst1.mat~'), 'old')
    machine.put(os.path.join(root, 'data', 'bicycles', 'Bravo', 'RawData',
                             'BravoMeasured.txt'),
                render(plan['lines'], True))
    if plan['stored']:
        machine.put(os.path.join(root, 'data', 'bicycles', 'Alpha',
                                 'Parameters', 'AlphaBenchmark.txt'),
                    gen.text(plan['bench']))
    lab = Lab(raw)
    for s in plan['recs']:
        lab.put(s)
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'rec':
            lab.put(op['spec'])
        elif op['op'] == 'del':
            names = sorted(lab.recs)
            if names:
                n = names[op['i'] % len(names)]
                os.remove(os.path.join(raw, n))
                del lab.recs[n]
        elif op['op'] == 'bad':
            names = sorted(lab.recs)
            if names:
                s, _ = lab.recs[names[op['i'] % len(names)]]
                lab.put(s, op['how'])
        elif op['op'] == 'edit':
            edit(rawfile, op)
        else:
            do_session(run, plan, root, rel, lab, i, op)
        if run.violations:
            return


def edit(path, op):
    with open(path) as f:
        txt = f.read()
    if op['kind'] == 'comment':
        txt = '# checked twice\n' + txt
    elif op['kind'] == 'drop':
        txt = ''.join(x for x in txt.splitlines(True)
                      if x.split('=')[0].strip() != op['key'])
    elif op['kind'] == 'newline':
        txt = txt.rstrip('\n')
    else:
        if op['kind'] == 'set':
            txt = ''.join(x for x in txt.splitlines(True)
                          if x.split('=')[0].strip() != op['key'])
        if txt and not txt.endswith('\n'):
            txt += '\n'
        txt += '%s = %r+/-%r\n' % (op['key'], op['v'][0], op['v'][1])
    with open(path, 'w') as f:
        f.write(txt)


def do_session(run, plan, root, rel, lab, i, op):
    steps = op['steps']
    pre = machine.tree(root)
    faults = []
    mine = [f for f in plan['faults'] if f['at'] == i]
    if mine:
        twin = machine.clone(root, os.path.join(run.root, 'twin%d' % i))
        ref = run.phase(one, twin, steps, [], plan)
        for f in mine:
            n = sum(1 for e in ref.events if e[1] == f['op'])
            f = dict(f)
            f['k'] = f['k'] % max(1, n)
            faults.append(f)
    s = run.phase(one, root, steps, faults, plan)
    machine.account(run, s)
    run.check(not s.escapes, 'escape', 'wrote outside: %r' % s.escapes)
    final = machine.tree(root)
    cur = pre
    versions = [pre[rel]]
    for j, st in enumerate(steps):
        label = 's%d' % j
        out = s.ops.get(label)
        if out is None and not s.crashed:
            break
        after = s.snaps[j] if j < len(s.snaps) else final
        if out is None and after.get(rel) in versions:
            # the loss of power may undo earlier, unsynced renames
            run.state('rolled-back', sorted(s.fired))
            return
        versions.append(after.get(rel))
        judge(run, plan, lab, rel, cur, after, st, out, s,
              [f for f in faults if f['op'] == label])
        if run.violations or out is None:
            return
        cur = after
        if out[0] == 'exc' and st['op'] == 'load':
            break
    for k, v in final.items():
        if k not in pre and os.sep + 'Plots' + os.sep not in k and \
                not os.path.basename(k).startswith('.'):
            run.violate('new-file', 'loading created %s' % k)


def same(a, b, std=None):
    return abs(a - b) <= 1e-9 * max(1., abs(a)) + (0.2 * std if std else 0.)


def judge(run, plan, lab, rel, before, after, st, out, s, faults):
    fired = bool(s.fired) and bool(faults)
    for k, v in before.items():
        if k != rel and os.sep + 'Plots' + os.sep not in k and \
                after.get(k) != v:
            run.violate('other-file', 'the %s changed %s' % (st['op'], k))
            return
    if after.get(rel) is None:
        run.violate('lost', 'the raw file is gone')
        return
    old = parse(before[rel])
    try:
        new = parse(after[rel])
    except Exception:
        run.violate('torn', 'the raw file is damaged: ...%r' %
                    after[rel][-120:])
        return
    keys = set(last(old['vals']))
    split = any(k[:1] == 'S' or k[1:2] == 'S' for k in keys)
    calc = st['op'] == 'calc' or st['raw'] or not plan['stored']
    if st['op'] == 'calc' and out is not None and out == ('ok', None):
        return
    force = calc and (st['per'] or needs_calc(keys, split))
    if split:
        labfits = not any(sp['key'][2] == 'H' for sp, _ in lab.recs.values())
    else:
        labfits = not any(sp['key'][2] in 'SG' and sp['key'][2] == 'G'
                          for sp, _ in lab.recs.values())
    usable = lab.usable() and labfits
    avg = lab.averages() if force and usable else {}
    unchanged = after[rel] == before[rel]
    what = '%s (raw=%s, periods=%s, %d recordings%s)' % (
        st['op'], st.get('raw'), st['per'], len(lab.recs),
        '' if usable else ', one unusable')
    # 1. nothing that was not recalculated may be lost or changed
    nv = {}
    for k, v, sd in new['vals']:
        nv.setdefault(k, []).append((v, sd))
    for k, v, sd in old['vals']:
        if k in avg:
            continue
        if k not in nv:
            run.violate('lost', '%s lost %s = %r from the raw file' % (
                what, k, v))
        elif not any(same(v, x) for x, _ in nv[k]):
            run.violate('changed', '%s changed %s from %r to %r' % (
                what, k, v, nv[k]))
    if old['com'] != new['com']:
        run.violate('lost-comment', '%s changed the comments from %r to %r' %
                    (what, old['com'], new['com']))
    for k in nv:
        if k not in keys and k not in avg:
            run.violate('invented', '%s added %s = %r' % (what, k, nv[k]))
    if run.violations:
        return

    # 2. old or new, as the outcome says
    def is_new():
        for k, v in avg.items():
            if len(nv.get(k, [])) != 1 or \
                    abs(nv[k][0][0] - v) > 4e-4 * v:
                return False
        return True
    stale = [k for k in avg if len(nv.get(k, [])) != 1 or
             abs(nv[k][0][0] - avg[k]) > 4e-4 * avg[k]]
    have = keys | set(avg)
    missing = required(have, keys, split)
    if not calc or not force:
        run.check(sorted(old['vals']) == sorted(new['vals']), 'uninvited',
                  '%s rewrote the raw file without a reason' % what)
    elif out is None or fired:
        # interrupted: complete old or complete new
        if not (unchanged or not stale):
            run.violate('torn', '%s after %s left %s neither old nor new' % (
                what, sorted(s.fired), stale))
    elif not usable:
        run.check(unchanged, 'changed-on-failure', '%s changed the raw file' %
                  what)
        run.check(out[0] == 'exc', 'bad-recording-accepted', '%s succeeded' %
                  what)
    elif out[0] == 'ok':
        run.check(not stale, 'stale', '%s: the raw file should hold %s once, '
                  'but holds %s' % (what, {k: avg[k] for k in stale},
                                    {k: nv.get(k) for k in stale}))
    else:
        run.check(unchanged or not stale, 'torn', '%s failed with %r and '
                  'left a mixture' % (what, out[1:]))
    if calc and not fired and out is not None and out[0] == 'exc' and \
            (usable or not force) and not missing:
        run.violate('load-fails', '%s failed although all measurements are '
                    'there: %r' % (what, out[1:]))
    if calc and not fired and out is not None and out[0] == 'ok' and missing:
        run.violate('incomplete', '%s succeeded without %s' % (what, missing))
    # 3. the bicycle in memory
    if out is not None and out[0] == 'ok' and out[1] and calc and not fired:
        mem = out[1]['Measured']
        lastfile = {}
        for k, v, sd in new['vals']:
            lastfile[k] = (v, sd)
        if mem is None or set(mem) != set(lastfile):
            run.violate('memory', '%s: bicycle and raw file disagree on the '
                        'names %s' % (what, sorted(
                            set(mem or {}) ^ set(lastfile))[:6]))
        else:
            for k in mem:
                v, sd = lastfile[k]
                if not same(mem[k][0], v, mem[k][1] or sd):
                    run.violate('memory', '%s: %s is %r in the bicycle and '
                                '%r in the raw file' % (what, k, mem[k], v))
                    break
            for k in avg:
                sd = mem[k][1]
                run.check(sd is not None and 0 <= sd < 0.01, 'memory',
                          '%s: the uncertainty of %s is %r' % (what, k, sd))
    run.state(st['op'], force, usable, len(avg), bool(missing),
              sorted(s.fired), out and out[0], unchanged, split)
    run.probe('period-calculations', bool(avg))
    run.probe('refused', not usable and force)
