"""P20: a calculated rider sits on the bicycle it is calculated for."""
import copy
import math
import os
import shutil

import numpy as np

from .. import core, env, fs as simfs, gen, machine, rig, sched
from . import p04

ID = 'P20'
RUNS = {'quick': 2200, 'thorough': 20000}
LEVEL = 'seeded search over simulated fittings: bicycles and bodies of all ' \
    'sizes, histories of fittings, adjustments, other riders, failing reads ' \
    'and fittings interleaved in threads'
RULE = 'a run is non-trivial when a rider was calculated; counted by ' \
    'distinct (body, reach of arms and legs, source, adjustments before, ' \
    'fault, outcome, interleaving) tuples'
STATE_MEASURE = 'distinct (body, reach, source, adjustments before, fault, ' \
    'outcome, threads) tuples'
REAL = ['Bicycle.add_rider', 'rider configuration', 'yeadon body model',
        'text reader', 'stick figure of the geometry plot']
STUB = ['disk (failing and short reads)', 'thread scheduler',
        'the tape measure (measurements follow from a fitted posture)']
ASSUMPTIONS = ['the yeadon package is right about the mass properties of a '
               'body in a given posture',
               'the posture is only judged where the body can reach grips '
               'and pedals with bent arms and legs']
SHRINK = ['faults', 'ops', 'preempt']

NS = None
#: shoulder height and width, leg, arm of the measured bodies
BODIES = {'Aurelia': [.479, .276, .7725, .5195],
          'Charlie': [.571, .458, .8485, .626],
          'Child': [.33, .2647, .4904, .3618],
          'Chris': [.472, .303, .836, .536],
          'Jason': [.493, .343, .928, .613],
          'Luke': [.502, .361, .825, .578],
          'Mont': [.539, .348, .9095, .621]}
SEAT = ['hbb', 'lsp', 'lst', 'lcs', 'lamst', 'whb', 'LhbF', 'LhbR']


def setup():
    global NS
    NS = env.load()


def fit(rng, body, s, lean):
    """Measurements of a bicycle that the body fits on."""
    S, sw, leg, arm = [x * s for x in BODIES[body]]
    k = leg / .85
    p = {'rR': rng.uniform(.25, .36), 'rF': rng.uniform(.25, .36),
         'w': rng.uniform(.95, 1.15)}
    p = {a: b * k for a, b in p.items()}
    hbb = rng.uniform(.24, .32) * k
    xbb = rng.uniform(.38, .46) * k
    lam = rng.uniform(1.12, 1.38)
    L = rng.uniform(.62, .96) * leg
    sad = (xbb - L * math.cos(lam), hbb + L * math.sin(lam))
    sh = (sad[0] + S * math.sin(lean), sad[1] + S * math.cos(lean))
    whb = sw * rng.uniform(.7, 1.7)
    r = rng.uniform(.6, .96) * arm
    r = math.sqrt(max(r**2 - ((whb - sw) / 2.)**2, .01))
    down = rng.uniform(.35, 1.1)
    gr = (sh[0] + r * math.cos(down), sh[1] - r * math.sin(down))
    lsp = L * rng.uniform(.1, .4)
    m = {'hbb': hbb, 'lcs': math.hypot(xbb, p['rR'] - hbb), 'lsp': lsp,
         'lst': L - lsp, 'lamst': lam, 'whb': whb,
         'LhbR': math.sqrt(gr[0]**2 + (gr[1] - p['rR'])**2 + whb**2 / 4.),
         'LhbF': math.sqrt((gr[0] - p['w'])**2 + (gr[1] - p['rF'])**2 +
                           whb**2 / 4.)}
    return m, p


def generate(rng, tier, index):
    plan = {'rchunk': rng.choice([None, None, 200]), 'bikes': {},
            'riders': {}, 'perm': rng.randint(0, 999),
            'conc': rng.random() < .15}
    names = ['Alpha', 'Bravo', 'Comet'][:rng.choice([1, 2, 2, 3])]
    riders = ['Jane', 'Karl', 'Mona'][:rng.choice([1, 2, 2])]
    for r in riders:
        body = rng.choice(sorted(BODIES))
        plan['riders'][r] = {
            'body': body, 's': rng.choice([1., rng.uniform(.9, 1.1)]),
            'mass': rng.choice([-1, round(rng.uniform(45., 110.), 1)]),
            'lean': {}, 'stored': {}}
    for b in names:
        r = plan['riders'][rng.choice(riders)]
        lean = rng.uniform(-.05, .75)
        m, p = fit(rng, r['body'], r['s'], lean)
        if rng.random() < .5:   # measured again; the set Benchmark counts
            m.update((k, p[k] * rng.uniform(.97, 1.03))
                     for k in ('w', 'rR', 'rF'))
        par = gen.benchmark(rng, unc=0., flywheel=False, split=False,
                            lateral=False, spare=1.)
        par.update(p)
        plan['bikes'][b] = {
            'p': gen.enc(rng, par, rng.choice([0., 1.])),
            'm': gen.enc(rng, m, rng.choice([0., .5, 1.]))}
        for n in riders:
            q = plan['riders'][n]
            if q is r or rng.random() < .5:
                q['lean'][b] = lean + (0. if q is r else
                                       rng.uniform(-.1, .1))
            if rng.random() < .25:
                q['stored'][b] = rig.rider(rng)
    ops, faults = [], []
    for i in range(rng.randint(2, 8)):
        r, slot = rng.random(), rng.randint(0, 2)
        if r < .5:
            ops.append({'op': 'ride', 'slot': slot,
                        'rider': rng.choice(riders),
                        're': rng.random() < .5})
            if rng.random() < .15:
                faults.append({'at': i, 'proc': 'p0', 'op': 's%d' % i,
                               'k': rng.randint(0, 40), 'mode': rng.choice(
                                   ['error', 'error', 'short']),
                               'a': rng.randint(0, 9), 'b': 0, 'c': 0,
                               'sticky': rng.random() < .3})
        elif r < .62:
            ops.append({'op': 'load', 'slot': slot, 'bike': rng.choice(names)})
        elif r < .8:
            k = rng.choice(SEAT + ['rR', 'rF', 'w'])
            ops.append({'op': 'edit', 'slot': slot, 'k': k,
                        'f': rng.uniform(.97, 1.03)})
        elif r < .9:
            ops.append({'op': 'lean', 'rider': rng.choice(riders),
                        'bike': rng.choice(names),
                        'd': rng.uniform(-.06, .06)})
        elif r < .95:
            ops.append({'op': 'grow', 'rider': rng.choice(riders),
                        'f': rng.uniform(.97, 1.03),
                        'mass': rng.choice([-1, round(rng.uniform(
                            45., 110.), 1)])})
        else:
            ops.append({'op': 'plot', 'slot': slot})
    plan['slots'] = [rng.choice(names) for _ in range(3)]
    plan['ops'], plan['faults'] = ops, faults
    plan['preempt'] = sorted([rng.randint(1, 400), rng.randint(0, 2)]
                             for _ in range(rng.randint(2, 9)))
    return plan


# ---------------------------------------------------------------------------
# the files


def meas_text(r):
    txt = gen.read(os.path.join(env.REPO, 'data', 'riders', r['body'],
                                'RawData', r['body'] + 'YeadonMeas.txt'))
    out = []
    for ln in txt.split('\n'):
        if ln.startswith('measurementconversionfactor'):
            ln = 'measurementconversionfactor: %r' % (.01 * r['s'])
            out.append(ln)
            out.append('totalmass: %r' % r['mass'])
        elif not ln.startswith('totalmass'):
            out.append(ln)
    return '\n'.join(out)


CFG = ['somersault', 'tilt', 'twist', 'PTsagittalFlexion', 'PTbending',
       'TCspinalTorsion', 'TCsagittalSpinalFlexion', 'CA1extension',
       'CA1adduction', 'CA1rotation', 'CB1extension', 'CB1abduction',
       'CB1rotation', 'A1A2extension', 'B1B2extension', 'PJ1extension',
       'PJ1adduction', 'PK1extension', 'PK1abduction', 'J1J2flexion',
       'K1K2flexion']


def cfg_text(lean):
    return ''.join('%s: %r\n' % (k, lean if k == 'somersault' else 0.)
                   for k in CFG)


def rider_files(root, n, r):
    d = os.path.join(root, 'data', 'riders', n)
    for f, t in [('%sYeadonMeas.txt' % n, meas_text(r))] + [
            ('%s%sYeadonCFG.txt' % (n, b), cfg_text(x))
            for b, x in sorted(r['lean'].items())]:
        p = os.path.join(d, 'RawData', f)
        if os.path.exists(p):
            os.remove(p)
        machine.put(p, t)


def build(root, plan):
    data = os.path.join(root, 'data')
    for b, x in sorted(plan['bikes'].items()):
        d = os.path.join(data, 'bicycles', b)
        machine.put(os.path.join(d, 'Parameters', b + 'Benchmark.txt'),
                    gen.text(x['p']))
        machine.put(os.path.join(d, 'RawData', b + 'Measured.txt'),
                    gen.text(x['m']))
    for n, r in sorted(plan['riders'].items()):
        rider_files(root, n, r)
        for b, par in sorted(r['stored'].items()):
            machine.put(os.path.join(data, 'riders', n, 'Parameters',
                                     n + b + 'Benchmark.txt'), gen.text(par))


# ---------------------------------------------------------------------------
# what is observed


def body_of(h):
    if not h:
        return None

    def v(x):
        return [float(y) for y in np.ravel(x)]
    return {'cfg': {k: float(x) for k, x in h.CFG.items()},
            'bounds': {k: [float(x) for x in y]
                       for k, y in zip(h.CFGnames, h.CFGbounds)},
            'mass': float(h.mass), 'meas': {k: float(h.meas[k]) for k in (
                'Lj3L', 'Lj5L', 'Lj6L', 'Ls4L', 'La2L', 'La4L', 'La5L')},
            'sides': [{'hip': v(J.pos), 'knee': v(K.pos),
                       'toe': v(K.end_pos), 'shoulder': v(A.pos),
                       'elbow': v(B.pos), 'tip': v(B.end_pos)}
                      for J, K, A, B in ((h.J1, h.J2, h.A1, h.A2),
                                         (h.K1, h.K2, h.B1, h.B2))],
            'head': v(h.C.end_pos)}


def snap(b):
    return {'par': {k: gen.plain(v) for k, v in b.parameters.items()},
            'has': bool(b.hasRider),
            'rider': {k: gen.plain(v) for k, v in b.riderPar.items()},
            'body': body_of(getattr(b, 'human', None))}


def figure(b):
    import matplotlib.pyplot as plt
    fig = b.plot_bicycle_geometry(show=False)
    ax = fig.axes[0]
    out = {'lines': [[[float(x) for x in ln.get_xdata()],
                      [float(y) for y in ln.get_ydata()]]
                     for ln in ax.lines if len(ln.get_xdata()) == 2],
           'ylim': [float(x) for x in ax.get_ylim()]}
    plt.close(fig)
    return out


def history(root, plan, ops, faults, conc=False):
    data = os.path.join(root, 'data')

    def body(ctx):
        slots = [NS.bp.Bicycle(n, data) for n in plan['slots']]
        riders = {n: dict(r, lean=dict(r['lean']))
                  for n, r in plan['riders'].items()}
        ctx.s.snaps.append([snap(b) for b in slots])
        ctx.s.figs = {}

        def do(i, op):
            k = op['op']
            if k == 'ride':
                slots[op['slot']].add_rider(op['rider'], reCalc=op['re'])
            elif k == 'load':
                slots[op['slot']] = NS.bp.Bicycle(op['bike'], data)
            elif k == 'edit':
                d = slots[op['slot']].parameters
                d = d['Measured' if op['k'] in SEAT else 'Benchmark']
                d[op['k']] = d[op['k']] * op['f']
            elif k in ('lean', 'grow'):
                with ctx.fs.hidden():
                    change(riders, op)
                    rider_files(root, op['rider'], riders[op['rider']])
            elif k == 'plot':
                ctx.s.figs[i] = figure(slots[op['slot']])
        if conc:
            sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=True)

            def task(i, op):
                def go():
                    ctx.fs.label('s%d' % i)
                    try:
                        do(i, op)
                        v = ('ok', None)
                    except (simfs.SimCrash, core.Hang, sched.Stuck):
                        raise
                    except Exception as e:
                        v = ('exc', type(e).__name__, str(e)[:200],
                             isinstance(e, OSError))
                    ctx.s.ops['s%d' % i] = v
                return go
            for i, op in enumerate(ops):
                sc.spawn(task(i, op), 'p%d' % i)
            sc.run()
            if sc.failure is not None:
                raise core.Hang(str(sc.failure))
            for t in sc.tasks:
                if isinstance(t.exc, core.Hang):
                    raise t.exc
            ctx.s.snaps.append([snap(b) for b in slots])
            ctx.s.switches = list(sc.switches)
            return
        for i, op in enumerate(ops):
            ctx.op('s%d' % i, do, i, op)
            ctx.s.snaps.append([snap(b) for b in slots])
    return machine.session(root, body, faults, (), None, plan['rchunk'],
                           plan['perm'])


def change(riders, op):
    r = riders[op['rider']]
    if op['op'] == 'lean':
        if op['bike'] in r['lean']:
            r['lean'][op['bike']] += op['d']
    else:
        r['s'] *= op['f']
        r['mass'] = op['mass']


# ---------------------------------------------------------------------------
# the oracle


def to_bike(m, p):
    """Positions of saddle and bottom bracket, and the map from the body's
    frame (x left, y back, z up, origin on the saddle) to the bicycle's."""
    bb = np.array([math.sqrt(m['lcs']**2 - (p['rR'] - m['hbb'])**2), 0.,
                   -m['hbb']])
    L = m['lsp'] + m['lst']
    sad = bb + L * np.array([-math.cos(m['lamst']), 0.,
                             -math.sin(m['lamst'])])

    def move(v):
        return sad + np.array([-v[1], -v[0], -v[2]])
    return bb, sad, move


def unit(v):
    return v / np.linalg.norm(v)


def reach(body, m, p, lean):
    """How far legs and arms are stretched, and whether a body can sit."""
    M = body['meas']
    bb, sad, move = to_bike(m, p)
    thigh, shank = M['Lj3L'], M['Lj5L'] + M['Lj6L'] - M['Lj3L']
    upper, fore = M['La2L'], M['La4L'] + M['La5L'] - M['La2L']
    L = math.hypot(*(sad - bb)[[0, 2]])
    leg = L / (thigh + shank)
    hw = m['whb'] / 2.
    a2, b2 = m['LhbR']**2 - hw**2, m['LhbF']**2 - hw**2
    d = np.array([p['w'], p['rF'] - p['rR']])
    dd = math.hypot(*d)
    if a2 <= 0 or b2 <= 0:
        return leg, None, False
    x = (a2 - b2 + dd**2) / (2. * dd)
    if a2 - x * x <= (.1 * dd)**2:
        return leg, None, False
    u = d / dd
    g = np.array([0., p['rR']]) + x * u + \
        math.sqrt(a2 - x * x) * np.array([-u[1], u[0]])
    sh = np.array(body['sides'][0]['shoulder'])
    # the shoulders for the given lean
    s = np.array([sad[0] + M['Ls4L'] * math.sin(lean),
                  -sad[2] + M['Ls4L'] * math.cos(lean)])
    arm2 = math.sqrt((g[0] - s[0])**2 + (g[1] - s[1])**2 +
                     (abs(sh[0]) - hw)**2)
    arm = arm2 / (upper + fore)
    ok = .55 < leg < .96 and .55 < arm < .94 and \
        L > 1.1 * abs(thigh - shank) and \
        arm2 > 1.3 * abs(upper - fore) and g[0] > s[0] and g[1] < s[1] and \
        abs(m['rR_hbb']) < m['lcs'] and g[1] > max(p['rR'], p['rF'])
    return leg, arm, ok


def body_mass(r, body, tmp):
    """Mass, mass centre and inertia of the body in that posture."""
    import yeadon
    path = os.path.join(tmp, 'meas.txt')
    with open(path, 'w') as f:
        f.write(meas_text(r))
    h = yeadon.Human.__new__(yeadon.Human)
    h.segmental_densities = copy.deepcopy(yeadon.Human.segmental_densities)
    h.__init__(path)
    h.set_CFG_dict(dict(body['cfg']))
    return float(h.mass), np.ravel(h.center_of_mass), np.array(h.inertia)


def weights(root, r, body):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return body_mass(r, body, root)


def judge(run, root, plan, what, before, after, r, lean):
    """A rider was calculated: before and after are snapshots of the
    bicycle, r is the rider as his files describe him."""
    m = {k: before['par']['Measured'][k][0] for k in SEAT}
    p = {k: before['par']['Benchmark'][k][0] for k in ('rR', 'rF', 'w')}
    m['rR_hbb'] = p['rR'] - m['hbb']
    body = after['body']
    rp = {k: v[0] for k, v in after['rider']['Benchmark'].items()}
    cfg = body['cfg']
    if abs(cfg['somersault'] - lean) > 1e-12:
        return run.violate('lean', '%s: leans by %r instead of %r' % (
            what, cfg['somersault'], lean))
    for k in ('tilt', 'twist', 'PTsagittalFlexion', 'PTbending',
              'TCspinalTorsion', 'TCsagittalSpinalFlexion', 'PJ1adduction',
              'PK1abduction'):
        run.check(cfg[k] == 0., 'posture', '%s: %s = %r' % (what, k, cfg[k]))
    bb, sad, move = to_bike(m, p)
    # mass properties
    mass, com, I = weights(root, r, body)
    com = move(com)
    R = np.array([[0., -1., 0.], [-1., 0., 0.], [0., 0., -1.]])
    I = R @ I @ R.T
    ref = {'mB': mass, 'xB': com[0], 'yB': com[1], 'zB': com[2],
           'IBxx': I[0, 0], 'IByy': I[1, 1], 'IBzz': I[2, 2],
           'IBxz': I[0, 2]}
    for k, v in sorted(ref.items()):
        if k not in rp or abs(rp[k] - v) > 1e-9 + 1e-7 * abs(v):
            return run.violate('rider', '%s: %s of the rider is %r instead '
                               'of %r' % (what, k, rp.get(k), v))
    run.probe('riders-weighed')
    # posture
    M = body['meas']
    leg, arm, ok = reach(body, m, p, lean)
    run.state(r['body'], round(leg, 1), arm and round(arm, 1), ok)
    if not ok:
        run.probe('out-of-reach')
        return
    run.probe('postures-compared')
    for k, (lo, hi) in body['bounds'].items():
        if not lo - 1e-9 <= cfg[k] <= hi + 1e-9:
            return run.violate('joint', '%s: %s = %r' % (what, k, cfg[k]))
    hubs = np.array([0., 0., -p['rR']]), np.array([p['w'], 0., -p['rF']])
    hands = []
    for i, s in enumerate(body['sides']):
        q = {k: move(v) for k, v in s.items()}
        foot = q['knee'] + unit(q['toe'] - q['knee']) * (
            M['Lj5L'] + M['Lj6L'] - M['Lj3L'])
        hand = q['elbow'] + unit(q['tip'] - q['elbow']) * (
            M['La4L'] + M['La5L'] - M['La2L'])
        hands.append(hand)
        for name, at, should in (
                ('hip', q['hip'][[0, 2]], sad[[0, 2]]),
                ('foot', foot[[0, 2]], bb[[0, 2]])):
            if not np.allclose(at, should, atol=2e-6):
                return run.violate('seat', '%s: %s %d is at %r instead of '
                                   '%r' % (what, name, i, list(at),
                                           list(should)))
        for name, got, want in (
                ('rear hub', np.linalg.norm(hand - hubs[0]), m['LhbR']),
                ('front hub', np.linalg.norm(hand - hubs[1]), m['LhbF']),
                ('middle', abs(hand[1]), m['whb'] / 2.)):
            if abs(got - want) > 2e-6:
                return run.violate('grip', '%s: hand %d is %r from the %s '
                                   'instead of %r' % (what, i, got, name,
                                                      want))
    a, b = hands
    run.check(np.allclose(a, b * [1, -1, 1], atol=1e-9) and a[1] * b[1] < 0,
              'symmetry', '%s: hands at %r and %r' % (what, list(a), list(b)))
    run.check(abs(rp['yB']) < 1e-6, 'symmetry', '%s: yB = %r' % (
        what, rp['yB']))


def stick(run, what, fig, m, p, body):
    """The stick figure of the geometry plot."""
    lines = [np.array(x) for x in fig['lines']]
    n = 8 if body else 2
    if len(lines) != n:
        return run.violate('figure', '%s: %d straight lines instead of %d' % (
            what, len(lines), n))
    if not body:
        return
    bb, sad, move = to_bike(m, p)
    s = {k: move(v)[[0, 2]] * [1, -1] for k, v in body['sides'][1].items()}
    s['head'] = move(body['head'])[[0, 2]] * [1, -1]
    for a, b in (('toe', 'knee'), ('knee', 'hip'), ('hip', 'shoulder'),
                 ('shoulder', 'elbow'), ('elbow', 'tip'),
                 ('shoulder', 'head')):
        want = np.array([s[a], s[b]]).T
        if not any(np.allclose(x, want, atol=1e-8) or
                   np.allclose(x[:, ::-1], want, atol=1e-8) for x in lines):
            return run.violate('figure', '%s: no line from %s %r to %s %r' % (
                what, a, list(s[a]), b, list(s[b])))
    run.check(fig['ylim'][1] >= s['head'][1] - 1e-9 and fig['ylim'][0] <= 0.,
              'figure', '%s: the head at %r is out of the limits %r' % (
                  what, s['head'][1], fig['ylim']))
    run.probe('figures-compared')


def same(a, b):
    if a['has'] != b['has']:
        return 'hasRider became %r' % b['has']
    for k in ('par', 'rider'):
        if set(a[k]) != set(b[k]):
            return 'sets %s became %s' % (sorted(a[k]), sorted(b[k]))
        for s in a[k]:
            d = p04.exact(a[k][s], b[k][s])
            if d:
                return '%s %s' % (s, d)
    if (a['body'] or {}).get('cfg') != (b['body'] or {}).get('cfg'):
        return 'the posture changed'
    return None


def ride(run, root, plan, op, out, before, after, bike, riders, hit, what,
         s):
    r = riders[op['rider']]
    what = '%s: %s (%s) on %s' % (what, op['rider'], r['body'], bike)
    if out is None:
        return run.violate('no-outcome', what)
    stored = bike in r['stored'] and not op['re']
    run.state(stored, out[0], before['has'], sorted(s.fired) if hit else '',
              bike in r['lean'], plan['conc'])
    if before['has']:
        d = same(before, after)
        return run.check(d is None, 'second-rider', '%s: %s' % (what, d))
    if out[0] == 'exc':
        d = same(before, after)
        run.check(d is None, 'changed-on-failure', '%s failed with %r but %s'
                  % (what, out[1:], d))
        if not hit and (stored or bike in r['lean']):
            run.violate('fails', '%s failed: %r' % (what, out[1:]))
        return
    rp = after['rider'].get('Benchmark')
    if rp is None or not after['has']:
        return run.violate('rider', '%s: no rider parameters' % what)
    if stored:
        d = p04.exact(gen.plain(r['stored'][bike]), rp)
        run.check(d is None, 'rider', '%s: the rider is not the stored one: '
                  '%s' % (what, d))
        return
    if bike not in r['lean'] or not after['body']:
        return run.violate('rider', '%s succeeded without %s' % (
            what, 'a configuration file' if after['body'] else 'a body'))
    judge(run, root, plan, what, before, after, r, r['lean'][bike])


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    build(root, plan)
    tmp = os.path.join(run.root, 't')
    os.makedirs(tmp)
    ops = plan['ops']
    riders = {n: dict(r, lean=dict(r['lean']))
              for n, r in plan['riders'].items()}
    if plan['conc']:
        used, use = set(), []
        for o in ops:
            if o['op'] == 'ride' and o['slot'] not in used:
                used.add(o['slot'])
                use.append(o)
        s = run.phase(history, root, plan, use, [], True)
        machine.account(run, s)
        run.note('switches', getattr(s, 'switches', []))
        for i, o in enumerate(use):
            ride(run, tmp, plan, o, s.ops.get('s%d' % i),
                 s.snaps[0][o['slot']], s.snaps[-1][o['slot']],
                 plan['slots'][o['slot']], riders, False, 'in parallel', s)
        run.state('threads', len(use), tuple(getattr(s, 'switches', []))[:5])
        return
    faults = []
    if plan['faults']:
        build(root + 'r', plan)
        ref = run.phase(history, root + 'r', plan, ops, [])
        for f in plan['faults']:
            n = sum(1 for e in ref.events if e[1] == f['op'])
            faults.append(dict(f, k=f['k'] % max(1, n)))
        shutil.rmtree(root + 'r')
    s = run.phase(history, root, plan, ops, faults)
    machine.account(run, s)
    bikes = list(plan['slots'])
    for i, op in enumerate(ops):
        lab = 's%d' % i
        out = s.ops.get(lab)
        before, after = s.snaps[i], s.snaps[i + 1]
        what = 'step %d' % i
        j = op.get('slot')
        for x in range(3):
            if x != j:
                d = same(before[x], after[x])
                run.check(d is None, 'isolation', '%s (%s) changed another '
                          '%s: %s' % (what, op['op'], bikes[x], d))
        hit = any(f['op'] == lab and f['mode'] == 'error' for f in faults)
        if op['op'] == 'load':
            run.check(out == ('ok', None) and not after[j]['has'],
                      'load-fails', '%s: %r' % (what, out))
            bikes[j] = op['bike']
        elif op['op'] in ('lean', 'grow'):
            change(riders, op)
        elif op['op'] == 'ride':
            ride(run, tmp, plan, op, out, before[j], after[j], bikes[j],
                 riders, hit, what, s)
        elif op['op'] == 'plot':
            d = same(before[j], after[j])
            run.check(d is None, 'figure', '%s: the plot changed the '
                      'bicycle: %s' % (what, d))
            if out != ('ok', None):
                run.violate('figure', '%s: the plot of %s failed: %r' % (
                    what, bikes[j], out))
            else:
                m = {k: v[0] for k, v in after[j]['par'][
                    'Measured'].items()}
                p = {k: v[0] for k, v in after[j]['par'][
                    'Benchmark'].items()}
                stick(run, '%s, %s' % (what, bikes[j]), s.figs[i], m, p,
                      after[j]['body'])
        if run.violations:
            return
