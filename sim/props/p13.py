"""P13: a measurement campaign recovers the bicycle's true parameters."""
import math
import os

import numpy as np

from .. import env, gen, machine, rig
from . import p02

ID = 'P13'
RUNS = {'quick': 1100, 'thorough': 20000}
LEVEL = 'seeded search over simulated bicycles, measurement layouts and ' \
    'histories of campaigns with lost, late, wrong and corrected ' \
    'measurements, damaged recordings, disk errors and crashes'
RULE = 'a run is non-trivial when parameters were calculated from ' \
    'measurements or refused for want of one; counted by distinct (layout, ' \
    'orientations, uncertainties, source of the periods, what is missing, ' \
    'fault, outcome) tuples'
STATE_MEASURE = 'distinct (fork split, flywheel, kind of geometry, ' \
    'orientations, uncertainties, periods from file or recordings, kinds ' \
    'of missing measurements, fault, outcome) tuples'
REAL = ['Bicycle loading', 'text reader', 'recording reader (scipy.io)',
        'period fit', 'raw file rewriter', 'geometry, mass centre and '
        'inertia calculations']
STUB = ['physical bicycle and measurement rig', 'disk',
        'rasterizer of the fit plots']
ASSUMPTIONS = ['the measurements of one part are consistent',
               'the orientations of a part differ by ten degrees or more',
               'recordings of at most six orientations']
SHRINK = ['faults', 'ops', 'missing', 'other']

NS = None


def setup():
    global NS
    NS = env.load()


# -- reference: the inverse of the measurement procedure ----------------------


class Missing(Exception):
    pass


class M(dict):
    def __missing__(self, k):
        raise Missing(k)


def inverse(mp):
    """The parameters that follow from measurements mp (floats)."""
    mp = M(mp)
    split = any(k[:1] == 'S' or k[1:2] == 'S' for k in mp)
    P = {}
    P['rF'] = mp['dF'] / (2 * math.pi * mp['nF'])
    P['rR'] = mp['dR'] / (2 * math.pi * mp['nR'])
    if 'w' in mp:
        lam, w, off = math.radians(90. - mp['gamma']), mp['w'], mp['f']
    else:
        a = mp['h1'] + mp['h2'] - mp['h3'] + .5 * (mp['d1'] - mp['d2'])
        off = mp['h4'] - mp['h5'] + .5 * (mp['d4'] - mp['d3'])
        cc = math.sqrt((mp['d'] + .5 * (mp['d2'] + mp['d3']))**2 -
                       (a - off)**2)
        s = a + off
        # rear to front wheel centre: length L, at the angle of the axis
        L = math.hypot(s, cc)
        up = P['rF'] - P['rR']
        lam = math.asin(up / L) + math.atan2(cc, s)
        w = math.sqrt(L * L - up * up)
    P['lam'], P['w'] = lam, w
    P['c'] = (P['rF'] * math.sin(lam) - off) / math.cos(lam)
    P['g'] = g = mp['g']
    for k in ('xcl', 'zcl'):
        if 'xcl' in mp and 'zcl' in mp:
            P[k] = mp[k]
    parts = ['B', 'S', 'G'] if split else ['B', 'H']
    for q in ['F', 'R'] + parts:
        P['m' + q] = mp['m' + q]
    ref = {'B': (0., -P['rR']), 'H': (w, -P['rF']), 'S': (w, -P['rF'])}
    if split:
        r5, r6 = mp['d5'] / 2., mp['d6'] / 2.
        l1 = mp['h7'] - mp['h6'] + r5 - r6
        l2 = math.sqrt((mp['l'] - r5 - r6)**2 - l1 * l1)
        # forward along and above the wheel centre, turned by the tilt
        dx = l1 * math.cos(lam) - l2 * math.sin(lam)
        dz = -(l1 * math.sin(lam) + l2 * math.cos(lam))
        ref['G'] = (w + dx, -P['rF'] + dz)
    IP = mp['mP'] / 12. * (3 * (mp['dP'] / 2.)**2 + mp['lP']**2)
    k = IP / mp['TtP1']**2

    def tor(key):
        return k * mp[key]**2

    def comp(key, m, l):
        return (mp[key] / 2. / math.pi)**2 * m * g * l - m * l * l
    for q in parts:
        names = sorted(x for x in mp if x.startswith('alpha' + q))
        if len(names) < 3:
            raise Missing('alpha' + q)
        A, rhs, J, jr = [], [], [], []
        for n in names:
            n = n[5:]
            beta = lam - math.radians(mp['alpha' + n])
            sb, cb = math.sin(beta), math.cos(beta)
            x0, z0 = ref[q]
            # the line of distance a from the reference point
            A.append([sb, cb])
            rhs.append(sb * x0 + cb * z0 - mp['a' + n])
            J.append([cb * cb, -2 * sb * cb, sb * sb])
            jr.append(tor('Tt' + n))
        sol = np.linalg.lstsq(np.array(A), np.array(rhs), rcond=None)[0]
        P['x' + q], P['z' + q] = float(sol[0]), float(sol[1])
        sol = np.linalg.lstsq(np.array(J), np.array(jr), rcond=None)[0]
        for ax, v in zip(('xx', 'xz', 'zz'), sol):
            P['I' + q + ax] = float(v)
        l = math.hypot(P['x' + q] - ref[q][0], P['z' + q] - ref[q][1])
        P['I' + q + 'yy'] = comp('Tc' + q + '1', mp['m' + q], l)
    for q in 'FR':
        P['I' + q + 'xx'] = tor('Tt' + q + '1')
        P['I' + q + 'yy'] = comp('Tc' + q + '1', mp['m' + q], mp['l' + q])
    if 'mD' in mp:
        P['mD'] = mp['mD'] - mp['mF']
        if 'TtD1' in mp:
            P['IDxx'] = tor('TtD1') - P['IFxx']
        if 'TcD1' in mp:
            P['IDyy'] = comp('TcD1', mp['mD'], mp['lF']) - P['IFyy']
    if split:
        m = P['mH'] = P['mS'] + P['mG']
        for c in 'xz':
            P[c + 'H'] = (P['mS'] * P[c + 'S'] + P['mG'] * P[c + 'G']) / m
        I = {'xx': 0., 'xz': 0., 'yy': 0., 'zz': 0.}
        for q in 'GS':
            dx, dz = P['x' + q] - P['xH'], P['z' + q] - P['zH']
            mq = P['m' + q]
            for ax, v in (('xx', dz * dz), ('xz', -dx * dz),
                          ('yy', dx * dx + dz * dz), ('zz', dx * dx)):
                I[ax] += P['I' + q + ax] + mq * v
        for ax, v in I.items():
            P['IH' + ax] = v
    return P


NEEDED = ['IBxx', 'IBxz', 'IByy', 'IBzz', 'IFxx', 'IFyy', 'IHxx', 'IHxz',
          'IHyy', 'IHzz', 'IRxx', 'IRyy', 'c', 'g', 'lam', 'mB', 'mF', 'mH',
          'mR', 'rF', 'rR', 'w', 'xB', 'xH', 'zB', 'zH']


# -- plans ----------------------------------------------------------------------


def line(rng, k, v, unc, style):
    """One line of a raw file that states v for k."""
    if style == 'list' and rng.random() < .5:
        d = [rng.uniform(-1, 1) * 1e-3 * (abs(v) + .01) for _ in range(2)]
        d.append(-sum(d))
        vs = [v + x for x in d]
        if unc and k[0] != 'n':
            return '%s = %s' % (k, ', '.join('%r+/-%r' % (x, 1e-3 * abs(v) +
                                                          1e-6) for x in vs))
        return '%s = %s' % (k, ', '.join('%r' % x for x in vs))
    if unc:
        s = '%r+/-%r' % (v, abs(v) * rng.choice([1e-3, 1e-4]) + 1e-6)
    else:
        s = '%r' % v
    form = rng.random() if style == 'loose' else 0.
    if form < .4:
        return '%s = %s' % (k, s)
    if form < .6:
        return '%s=%s' % (k, s)
    if form < .8:
        return '  %s  =  %s' % (k, s)
    return '%s = %s # measured twice' % (k, s)


BAD = ['empty', 'truncated', 'garbage', 'nodata', 'nopart']


def generate(rng, tier, index):
    p = rig.true_bike(rng)
    split = rng.random() < .4
    if split:
        p = rig.split_fork(p, rng)
    fly = rng.random() < .3
    if fly:
        p['mD'] = rng.uniform(1., 4.)
        p['IDxx'], p['IDyy'] = rng.uniform(.02, .06), rng.uniform(.04, .12)
    recs = rng.random() < .45
    norient = {q: rng.choice([3, 3, 3, 4, 5, 6] if recs else
                             [3, 3, 4, 5, 6, 7, 10, 11, 12])
               for q in 'BHSG'}
    perp = rng.random() < .5
    mp, T = rig.measure(p, rng, norient=norient, perp=perp,
                        lateral=rng.random() < .2,
                        steep=rng.random() < .3)
    keys = sorted(T)
    # where the periods come from
    if recs:
        n = rng.choice([len(keys), len(keys), rng.randint(1, 6)])
        rec = sorted(rng.sample(keys, n))
    else:
        rec = []
    unc = rng.choice(['none', 'none', 'all', 'all', 'some'])
    style = rng.choice(['plain', 'plain', 'loose', 'list'])
    vals = dict(mp)
    vals.update({k: v for k, v in T.items()
                 if k not in rec or rng.random() < .2})
    stale = [k for k in rec if k in vals]
    for k in stale:
        vals[k] *= rng.uniform(.97, 1.03)

    def u():
        return unc == 'all' or unc == 'some' and rng.random() < .5
    items = []
    for k, v in sorted(vals.items()):
        items.append({'k': k, 'v': v, 'text': line(rng, k, v, u(), style)})
    for k in rec:
        for trial in range(1, rng.choice([1, 1, 1, 2]) + 1):
            s = p02.spec(rng, k, T[k], trial=trial)
            s['T'] = T[k]
            s['seconds'] = max(s['seconds'], 4. * T[k])
            items.append({'k': k, 'spec': s})
    order = rng.choice(['sorted', 'shuffled', 'shuffled', 'reversed'])
    if order == 'shuffled':
        rng.shuffle(items)
    elif order == 'reversed':
        items.reverse()
    # what never arrives
    missing = []
    if rng.random() < .3:
        pool = sorted(vals) + rec
        part = rng.random()
        if part < .75:  # angles and periods, or everything else
            pool = [k for k in pool if (k[0] == 'a' or k[:2] in (
                'Tc', 'Tt')) == (part < .4)] or pool
        for _ in range(rng.choice([1, 1, 2])):
            missing.append(rng.choice(pool))
    # the rest of the campaign
    ops = []
    late = []
    cut = rng.choice([0, 0, 1, 1, 2, 4])
    for it in rng.sample(items, cut):
        items.remove(it)
        late.append(it)
    wrong = rng.sample([it for it in items if 'v' in it and (
        it['k'][0] == 'm' or it['k'][:2] in ('Tc', 'Tt', 'lP'))],
        rng.choice([0, 0, 0, 1, 2]))
    for it in wrong:
        ops.append({'op': 'value', 'k': it['k'], 'v': it['v'],
                    'text': it['text'], 'how': rng.choice(['replace',
                                                           'append'])})
        it['v'] = it['v'] * rng.choice([.9, 1.05, 1.2])
        it['text'] = line(rng, it['k'], it['v'], u(), 'plain')
    for it in late:
        ops.append({'op': 'value', 'k': it['k'], 'v': it['v'],
                    'text': it['text'], 'how': 'append'} if 'v' in it else
                   {'op': 'rec', 'k': it['k'], 'spec': it['spec']})
    if rec and rng.random() < .25:
        rs = [it for it in items if 'spec' in it]
        if rs:
            it = rng.choice(rs)
            it['damage'] = rng.choice(BAD)
            ops.append({'op': 'rec', 'k': it['k'], 'spec': it['spec']})
    if rng.random() < .2:
        ops.append({'op': 'comment'})
    rng.shuffle(ops)
    out = []

    def sess(final=False):
        if not final and rng.random() < .5:
            return
        steps = []
        if rng.random() < .4:
            steps.append({'op': 'other', 'per': False})
        steps.append({'op': 'load', 'raw': rng.random() < .8,
                      'per': rng.random() < .5})
        while rng.random() < .25:
            steps.append({'op': 'calc', 'per': rng.random() < .5})
        out.append({'op': 'session', 'steps': steps})
    for o in ops:
        sess()
        out.append(o)
    sess(True)
    if rng.random() < .3:
        sess(True)
    other, _T = rig.measure(rig.true_bike(rng), rng)
    other.update(_T)
    # measured with the same tools: some of the values are the same
    share = rng.choice([0., .3, .8])
    for k in sorted(vals):
        if rng.random() < (share if k[0] != 'T' else share / 2):
            other[k] = vals[k]
    if rng.random() < .5:
        for k in ('lP', 'mP', 'dP', 'g'):
            other[k] = vals[k]
    plan = {'true': p, 'periods': T, 'items': items, 'ops': out,
            'missing': missing, 'split': split, 'perp': perp, 'fly': fly,
            'unc': unc, 'norient': norient,
            'other': ['%s = %r' % kv for kv in sorted(other.items())],
            'stored': rng.random() < .25,
            'bench': gen.benchmark(rng, split=False, flywheel=False),
            'perm': rng.randint(0, 999),
            'direct': rng.random() < .3,
            'rchunk': rng.choice([None, None, 300]),
            'wchunk': rng.choice([None, None, 40])}
    faults = []
    for i, o in enumerate(out):
        if o['op'] == 'session' and rng.random() < .25:
            j = rng.randint(0, len(o['steps']) - 1)
            faults.append({'at': i, 'op': 's%d' % j, 'proc': 'p0',
                           'k': rng.randint(0, 500),
                           'mode': rng.choice(['error', 'error', 'crash',
                                               'power', 'short']),
                           'a': rng.randint(0, 9), 'b': rng.choice([0, 9, 300]),
                           'c': rng.randint(0, 9),
                           'sticky': rng.random() < 0.5})
    plan['faults'] = faults
    return plan


# -- execution ----------------------------------------------------------------


def one(root, steps, faults, plan):
    p02.stub_savefig()

    def body(ctx):
        data = os.path.join(root, 'data')
        hold = {}

        def do(st):
            if st['op'] == 'other':
                b = NS.bp.Bicycle('Bravo', data, forceRawCalc=True)
                return None
            if st['op'] == 'load':
                hold['b'] = b = NS.bp.Bicycle('Alpha', data,
                                              forceRawCalc=st['raw'],
                                              forcePeriodCalc=st['per'])
                par, ext = b.parameters.get('Benchmark'), None
                if hasattr(b, 'extras'):
                    ext = b.extras
            else:
                b = hold.get('b')
                if b is None:
                    return None
                par, ext = b.calculate_from_measured(
                    forcePeriodCalc=st['per'])
            return {'par': gen.plain(par),
                    'measured': gen.plain(b.parameters['Measured'])
                    if 'Measured' in b.parameters else None}
        for j, st in enumerate(steps):
            ctx.op('s%d' % j, do, st)
            with ctx.fs.hidden():
                ctx.s.snaps.append(machine.tree(root))
    return machine.session(root, body, faults, [], plan['wchunk'],
                           plan['rchunk'], plan['perm'])


def direct(lines, perm):
    """The calculation on a dictionary given in some order."""
    import random
    import tempfile
    from uncertainties import UFloat
    d = {}
    for ln in lines:
        k, v = ln.split('#')[0].split('=')
        k = k.strip()
        xs = v.split(',')
        if len(xs) > 1:
            d[k] = sum(float(x.split('+/-')[0]) for x in xs) / len(xs)
        elif '+/-' in v:
            from uncertainties import ufloat
            a, b = v.split('+/-')
            d[k] = ufloat(float(a), float(b))
        else:
            d[k] = float(v)
    ks = sorted(d)
    random.Random(perm).shuffle(ks)
    mp = {k: d[k] for k in ks}
    before = dict(mp)
    try:
        par, _ = NS.main.calculate_benchmark_from_measured(mp)
        out = ('ok', gen.plain(par))
    except Exception as e:
        out = ('exc', type(e).__name__, str(e)[:200])
    same = list(mp) == list(before) and all(mp[k] is before[k] for k in mp)
    return out, same


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    raw = os.path.join(root, 'data', 'bicycles', 'Alpha', 'RawData')
    rawfile = os.path.join(raw, 'AlphaMeasured.txt')
    rel = os.path.relpath(rawfile, root)
    lines = []
    lab = p02.Lab(raw)
    gone = set(plan['missing'])
    for it in plan['items']:
        if it['k'] in gone:
            continue
        if 'spec' in it:
            lab.put(it['spec'], it.get('damage'))
        else:
            lines.append(it['text'])
    machine.put(rawfile, '\n'.join(lines) + '\n')
    machine.put(os.path.join(root, 'data', 'bicycles', 'Bravo', 'RawData',
                             'BravoMeasured.txt'),
                '\n'.join(plan['other']) + '\n')
    if plan['stored']:
        machine.put(os.path.join(root, 'data', 'bicycles', 'Alpha',
                                 'Parameters', 'AlphaBenchmark.txt'),
                    gen.text(plan['bench']))
    for i, op in enumerate(plan['ops']):
        if op.get('k') in gone:
            continue
        if op['op'] == 'rec':
            lab.put(op['spec'])
        elif op['op'] == 'comment':
            edit(rawfile, lambda t: '# second day\n' + t)
        elif op['op'] == 'value':
            def change(t):
                if op['how'] == 'replace':
                    t = ''.join(x for x in t.splitlines(True)
                                if x.split('=')[0].strip() != op['k'])
                return t + op['text'] + '\n'
            edit(rawfile, change)
        else:
            do_session(run, plan, root, rel, lab, i, op)
        if run.violations:
            return
    if plan['direct'] and not lab.recs:
        with open(rawfile) as f:
            ls = [x for x in f.read().splitlines()
                  if '=' in x and not x.startswith('#')]
        out, same = run.phase(direct, ls, plan['perm'])
        run.check(same, 'arguments', 'the calculation changed the dictionary '
                  'of measurements')
        known = {k: v for k, v, _ in p02.parse(
            ('\n'.join(ls) + '\n').encode())['vals']}
        compare(run, plan, known, {}, out, 'the calculation', False)


def edit(path, fn):
    with open(path) as f:
        t = f.read()
    with open(path, 'w') as f:
        f.write(fn(t))


def do_session(run, plan, root, rel, lab, i, op):
    steps = op['steps']
    pre = machine.tree(root)
    faults = []
    mine = [f for f in plan['faults'] if f['at'] == i]
    if mine:
        twin = machine.clone(root, os.path.join(run.root, 'twin%d' % i))
        ref = run.phase(one, twin, steps, [], plan)
        for f in mine:
            n = sum(1 for e in ref.events if e[1] == f['op'])
            f = dict(f)
            f['k'] = f['k'] % max(1, n)
            faults.append(f)
    s = run.phase(one, root, steps, faults, plan)
    machine.account(run, s)
    cur = pre[rel]
    for j, st in enumerate(steps):
        label = 's%d' % j
        out = s.ops.get(label)
        if out is None:
            return
        after = s.snaps[j].get(rel)
        if out == ('ok', None) or st['op'] == 'other':
            cur = after
            continue
        judge(run, plan, lab, cur, st, out, bool(s.fired) and
              any(f['op'] == label for f in faults))
        if run.violations or out[0] == 'exc' and st['op'] == 'load':
            return
        cur = after


def judge(run, plan, lab, before, st, out, fired):
    old = p02.last(p02.parse(before)['vals'])
    split = any(k[:1] == 'S' or k[1:2] == 'S' for k in old)
    calc = st['op'] == 'calc' or st['raw'] or not plan['stored']
    if not calc:
        if out[0] == 'ok':
            bench = gen.plain(gen.dec(plan['bench']))
            got = out[1]['par']
            run.check(all(abs(got[k][0] - bench[k][0]) < 1e-9 for k in bench),
                      'stored', 'a load without a forced calculation did not '
                      'return the stored parameters')
        return
    force = st['per'] or p02.needs_calc(set(old), split)
    known = dict(old)
    avg = {}
    if force:
        if not lab.usable():
            run.check(fired or out[0] == 'exc', 'bad-recording',
                      '%s succeeded with a damaged recording' % st['op'])
            return
        if any((sp['key'][2] in 'SG') != split and sp['key'][2] in 'HSG'
               for sp, _ in lab.recs.values()):
            return
        avg = lab.averages()
        known.update(avg)
    compare(run, plan, known, avg, out if out[0] == 'exc' else
            ('ok', out[1]['par']), st['op'], fired)


def compare(run, plan, known, avg, out, what, fired):
    what = '%s (%s fork, %s geometry, %s, orientations %s, uncertainties: ' \
        '%s, %d periods from recordings)' % (
            what, 'split' if plan['split'] else 'whole',
            'offset' if 'w' not in known else 'wheelbase',
            'flywheel' if 'mD' in known else 'no flywheel',
            {q: sum(1 for k in known if k.startswith('alpha' + q))
             for q in 'BHGS'}, plan['unc'], len(avg))
    lack = None
    try:
        exp = inverse(known)
    except Missing as e:
        lack = str(e)
    except (ValueError, ZeroDivisionError):
        return
    key = ('lack', ''.join(c for c in lack if not c.isdigit())) if lack \
        else ('all',)
    run.state(key, plan['split'], 'mD' in known, 'w' in known, plan['unc'],
              sorted(plan['norient'].items()) if len(plan['missing']) == 0
              else 0, len(avg), fired, out[0])
    run.probe('recovered', out[0] == 'ok' and not lack)
    run.probe('refused', out[0] == 'exc' and bool(lack))
    if lack:
        if out[0] == 'ok':
            if not fired:
                run.violate('missing', '%s returned parameters although %s '
                            'is missing' % (what, lack))
        return
    if out[0] == 'exc':
        if not fired:
            run.violate('refused', '%s failed although all measurements are '
                        'there: %r' % (what, out[1:]))
        return
    got = out[1]
    # what the inaccuracy of the periods explains
    tol = {k: 3e-7 * (1. + abs(v)) for k, v in exp.items()}
    for k in known:
        if k[:2] not in ('Tc', 'Tt'):
            continue
        rel = 4e-4 if k in avg or k in plan_recs(plan) else 0.
        if rel:
            m = dict(known)
            m[k] = known[k] * (1. + rel)
            alt = inverse(m)
            for q in exp:
                tol[q] += 1.2 * abs(alt[q] - exp[q])
    lackp = [k for k in NEEDED if k not in got]
    run.check(not lackp, 'incomplete', '%s left out %s' % (what, lackp))
    for k in sorted(exp):
        if k not in got:
            if k not in NEEDED:
                run.violate('incomplete', '%s left out %s' % (what, k))
            continue
        v = got[k][0]
        if not abs(v - exp[k]) <= tol[k]:
            run.violate('wrong', '%s: %s is %.9g, but the measurements give '
                        '%.9g (tolerance %.2g)' % (what, k, v, exp[k],
                                                   tol[k]))
            return
        if got[k][1] is not None and not got[k][1] >= 0.:
            run.violate('wrong', '%s: the uncertainty of %s is %r' % (
                what, k, got[k][1]))
    # the reference must itself find the truth
    if not plan['missing'] and all(
            k in known and abs(known[k] - plan['periods'][k]) <= 1e-12 + (
                4e-4 * known[k] if k in plan_recs(plan) else 0.)
            for k in plan['periods']):
        for k, v in plan['true'].items():
            if k in exp and all(k2 in known for k2 in known):
                if not abs(exp[k] - v) <= 3 * tol[k] + 1e-9 and \
                        not wrongmass(plan, known):
                    raise RuntimeError('reference: %s is %r, not %r' % (
                        k, exp[k], v))


def wrongmass(plan, known):
    for k, v in plan['true'].items():
        if k[0] == 'm' and k in known and k != 'mD' and \
                abs(known[k] - v) > 1e-6:
            return True
    if 'mD' in known and abs(known['mD'] - plan['true'].get('mD', 0.) -
                             plan['true']['mF']) > 1e-6:
        return True
    for it in plan['ops']:
        if it.get('k') in ('mP', 'lP'):
            return True
    return False


def plan_recs(plan):
    return {it['k'] for it in plan['items'] + plan['ops'] if 'spec' in it}
