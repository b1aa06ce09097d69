"""P17: a parameter set answers, draws and converts for what it holds."""
import html
import math
import re

import numpy as np

from .. import core, env, machine, model, sched
from . import p08

ID = 'P17'
RUNS = {'quick': 2500, 'thorough': 40000}
LEVEL = 'seeded search over histories of edits, conversions, questions and ' \
    'drawings of parameter sets with failing allocations, and over ' \
    'interleavings of threads that share the sets; every answer and every ' \
    'line drawn is compared with rigid bodies computed from the values'
RULE = 'a run is non-trivial when an answer, a conversion or a drawing was ' \
    'compared; counted by distinct (operation, kind of set, converted, ' \
    'earlier edits and failures, shared axes, threads) tuples'
STATE_MEASURE = 'distinct (operation, kind of set, generations of ' \
    'conversions, edited, earlier failures, shared axes, outcome) tuples ' \
    'and switch prefixes'
REAL = ['parameter sets of all kinds', 'conversions', 'models (eigenvalues)',
        'matplotlib (Agg)', 'numpy']
STUB = ['failing allocations', 'thread scheduler']
ASSUMPTIONS = ['bodies lie in the plane of symmetry',
               'threads switch between lines of the package',
               'a user edits the values of a set, not its attributes']
SHRINK = ['ops', 'threads', 'preempt']

NS = None
KINDS = {'whipple': 'Meijaard2007', 'feedback': 'Meijaard2007WithFeedback',
         'moore19': 'Moore2019'}
TO = {'Meijaard2007': ['Moore2012', 'Meijaard2007WithFeedback'],
      'Meijaard2007WithFeedback': ['Moore2012'],
      'Moore2019': ['Meijaard2007', 'Meijaard2007',
                    'Meijaard2007WithFeedback'],
      'Moore2012': []}
GAINS = p08.GAINS
GEO = ['w', 'c', 'lam', 'rR', 'rF', 'v', 'g']
EXTRA = ['yD', 'yP', 'yH', 'yF', 'yR', 'xR']


def setup():
    global NS
    NS = env.load()
    bad = model.check()
    if bad:
        raise core.HarnessError(bad)
    import matplotlib.pyplot as plt
    plt.close(plt.figure())


def generate(rng, tier, index):
    sets = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(sorted(KINDS))
        if kind == 'moore19':
            p = {k: v * rng.uniform(.93, 1.07) for k, v in sorted(
                NS.parameter_dicts.moore2019_browser_jason.items())
                if k not in EXTRA}
            for b in 'DHP':
                if rng.random() < .5:
                    p['alpha' + b] = rng.uniform(-math.pi, math.pi)
            for k in EXTRA:
                if rng.random() < .5:
                    p[k] = 0.
        else:
            p = p08.values(rng, kind)
            if rng.random() < .3:
                p[rng.choice(['IBxz', 'IHxz'])] *= -1.
        sets.append({'kind': kind, 'p': p, 'rider': rng.random() < .5})
    ops = []
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        op = {'s': rng.choice([rng.randint(0, 9), -1])}
        if r < .2:
            op.update(op='edit', k=rng.randint(0, 60),
                      geo=rng.random() < .3,
                      f=rng.choice([rng.uniform(.93, 1.07), -1., 1.5]))
        elif r < .36:
            op.update(op='conv', to=rng.randint(0, 5))
        elif r < .4:
            op.update(op='make', how=rng.choice(['missing', 'none', 'int',
                                                 'text']),
                      k=rng.randint(0, 60))
        elif r < .86:
            op.update(ask(rng))
        else:
            op.update(op='eig', v=rng.choice([0., rng.uniform(0., 9.)]))
        if op['op'] not in ('edit', 'make') and rng.random() < .08:
            op['abort'] = rng.choice([rng.randint(1, 12),
                                      rng.randint(1, 60)])
        ops.append(op)
        if op['op'] != 'edit' and rng.random() < .25:
            # the same again after a change
            ops.append({'op': 'edit', 's': op['s'], 'k': rng.randint(0, 60),
                        'geo': rng.random() < .4,
                        'f': rng.uniform(.93, 1.07)})
            ops.append({k: v for k, v in op.items() if k != 'abort'})
    plan = {'sets': sets, 'ops': ops, 'threads': []}
    if rng.random() < .35:
        # threads with sets of the same kind do much the same
        alike = rng.random() < .6
        if alike and len(sets) < 3:
            c = dict(sets[0], p={
                k: v * rng.uniform(.95, 1.05) if k[0] not in 'Ia' else v
                for k, v in sets[0]['p'].items()})
            sets.append(c)
        kind = ask(rng)
        for t in range(rng.choice([2, 2, 3])):
            todo = []
            for _ in range(rng.randint(1, 3)):
                op = {'s': rng.randint(0, 9)}
                if alike:
                    op = dict(kind, s=(0 if t == 0 else len(sets) - 1))
                elif rng.random() < .4:
                    op.update(op='conv', to=rng.randint(0, 5))
                else:
                    op.update(ask(rng))
                todo.append(op)
            plan['threads'].append(todo)
    dense = rng.random() < .5
    plan['preempt'] = sorted([rng.randint(1, 150 if dense else 500),
                              rng.randint(0, 3)]
                             for _ in range(rng.randint(2, 30 if dense
                                                        else 12)))
    return plan


def ask(rng):
    r = rng.random()
    if r < .25:
        return {'op': 'com', 'b': [rng.randint(0, 9) for _ in range(
            rng.choice([1, 2, 2, 3, 4, 5]))]}
    if r < .35:
        return {'op': 'inertia', 'b': rng.randint(0, 9)}
    if r < .42:
        return {'op': 'html'}
    return {'op': 'draw', 'how': rng.choice(
        ['geometry', 'geometry', 'com', 'coms', 'radius', 'radii',
         'ellipse', 'ellipses', 'diamond', 'all']),
        'b': [rng.randint(0, 9) for _ in range(rng.randint(1, 4))],
        'flag': rng.random() < .5, 'all': rng.random() < .5,
        'ax': rng.choice([None, 0, 0, 1])}


# -- the machine -----------------------------------------------------------------

def cls(name):
    return getattr(NS.parameter_sets, name + 'ParameterSet')


def make(spec):
    name = KINDS[spec['kind']]
    p = dict(spec['p'])
    if name == 'Moore2019':
        return cls(name)(p)
    return cls(name)(p, spec['rider'])


def enc(s):
    return {'name': s.parameterization, 'cls': type(s).__name__,
            'p': dict(s.parameters),
            'rider': getattr(s, 'includes_rider', None)}


def same(a, b):
    return a['name'] == b['name'] and a['cls'] == b['cls'] and \
        a['rider'] == b['rider'] and set(a['p']) == set(b['p']) and \
        all(a['p'][k] == b['p'][k] for k in a['p'])


def labels(s):
    return list(s.body_labels)


def pick(s, idx):
    """Distinct bodies of a set."""
    out = []
    for i in idx:
        b = labels(s)[i % len(labels(s))]
        if b not in out:
            out.append(b)
    return out


def art(ax):
    return list(ax.patches) + list(ax.lines) + list(ax.texts)


def seen(ax, old):
    """What was drawn, in plain numbers."""
    from matplotlib import patches
    out = {'circles': [], 'ellipses': [], 'wedges': [], 'segments': [],
           'texts': [], 'ground': 0, 'other': []}
    for a in art(ax):
        if any(a is o for o in old):
            continue
        if isinstance(a, patches.Circle):
            out['circles'].append([float(x) for x in a.center] +
                                  [float(a.radius)])
        elif isinstance(a, patches.Ellipse):
            out['ellipses'].append([float(x) for x in a.center] +
                                   [float(a.width), float(a.height),
                                    float(a.angle)])
        elif isinstance(a, patches.Wedge):
            out['wedges'].append([float(x) for x in a.center] + [float(a.r)])
        elif hasattr(a, 'get_xdata'):
            x = [float(v) for v in np.ravel(a.get_xdata(orig=True))]
            y = [float(v) for v in np.ravel(a.get_ydata(orig=True))]
            if a.get_transform() != ax.transData:
                if all(v == 0. for v in y):
                    out['ground'] += 1
                else:
                    out['other'].append(repr(a))
                continue
            for i in range(len(x) - 1):
                out['segments'].append([x[i], y[i], x[i + 1], y[i + 1]])
        elif hasattr(a, 'get_text'):
            out['texts'].append([float(v) for v in a.get_position()] +
                                [a.get_text()])
        else:
            out['other'].append(repr(a))
    out['inverted'] = bool(ax.yaxis_inverted())
    out['aspect'] = ax.get_aspect() in (1, 1., 'equal')
    return out


def draw(s, op, ax):
    """Draws; returns (axes, what was asked)."""
    how = op['how']
    bs = pick(s, op['b'])
    kw = {} if ax is None else {'ax': ax}
    if how in ('coms', 'radii', 'ellipses'):
        if op['all']:
            bs = labels(s)
        else:
            kw['bodies'] = bs
    if how == 'geometry':
        if op['flag']:
            kw['show_steer_axis'] = op['all']
        got = s.plot_geometry(**kw)
    elif how == 'com':
        bs = bs[:1]
        got = s.plot_body_mass_center(bs[0], **kw)
    elif how == 'coms':
        got = s.plot_mass_centers(**kw)
    elif how == 'radius':
        bs = bs[:1]
        got = s.plot_body_principal_radii_of_gyration(bs[0], **kw)
    elif how == 'radii':
        got = s.plot_principal_radii_of_gyration(**kw)
    elif how == 'ellipse':
        bs = bs[:1]
        got = s.plot_body_principal_inertia_ellipsoid(bs[0], **kw)
    elif how == 'ellipses':
        got = s.plot_principal_inertia_ellipsoids(**kw)
    elif how == 'diamond':
        if op['flag']:
            kw['show_cross'] = op['all']
        got = s.plot_person_diamond(**kw)
    else:
        bs = labels(s)
        got = s.plot_all(**kw)
    return got, bs


def able(s, op):
    """Whether a set offers the operation."""
    k, n = op['op'], s.parameterization
    if k == 'conv':
        return bool(TO[n])
    if k in ('html', 'edit', 'make'):
        return True
    if n == 'Moore2012':
        return False
    if k == 'inertia':
        return n != 'Moore2019'
    if k == 'draw' and op['how'] == 'diamond':
        return n == 'Moore2019'
    return True


def act(s, op, axes):
    """One operation: (function, function of its result -> plain data)."""
    k = op['op']
    if k == 'com':
        bs = pick(s, op['b'])

        def fn():
            return s.mass_center_of(*bs)
        return fn, lambda v: {'bodies': bs, 'com': [float(x) for x in v]}
    if k == 'inertia':
        b = pick(s, [op['b']])[0]

        def fn():
            return s.form_inertia_tensor(b), s.form_mass_center_vector(b)
        return fn, lambda v: {'body': b, 'I': np.array(v[0], float).tolist(),
                              'c': [float(x) for x in v[1]]}
    if k == 'html':
        return s._repr_html_, lambda v: {'text': str(v)}
    if k == 'eig':
        def fn():
            n = 'Meijaard2007'
            if s.parameterization == 'Meijaard2007WithFeedback':
                n = 'Meijaard2007WithFeedback'
            return getattr(NS.models, n + 'Model')(s).calc_eigen(
                v=op['v'])
        return fn, lambda v: {'e': [complex(x) for x in np.ravel(v[0])]}
    if k == 'draw':
        ax = None if op['ax'] is None else axes[op['ax']]
        old = art(ax) if ax is not None else []

        def plain(v):
            got, bs = v
            return {'given': ax is None or got is ax, 'bodies': bs,
                    'seen': seen(got if ax is None else ax, old)}
        return (lambda: draw(s, op, ax)), plain
    raise core.HarnessError(k)


def one(root, plan):
    recs = []
    par = []

    def body(ctx):
        import matplotlib.pyplot as plt
        plt.close('all')
        ctx.s.recs, ctx.s.par = recs, par
        ctx.s.switches = []
        sets = [make(x) for x in plan['sets']]
        gen = [0] * len(sets)
        edited = [False] * len(sets)
        with ctx.fs.hidden():
            axes = [plt.subplots()[1] for _ in range(2)]
        for i, op in enumerate(plan['ops']):
            j = op['s'] % len(sets) if op['s'] >= 0 else len(sets) - 1
            s, k, lab = sets[j], op['op'], 's%d' % i
            if not able(s, op):
                continue
            before = [enc(x) for x in sets]
            rec = {'i': i, 'before': before[j], 'out': None, 'fired': False,
                   'gen': gen[j], 'edited': edited[j]}
            recs.append(rec)
            with ctx.fs.hidden():
                if k == 'edit':
                    ks = sorted(x for x in s.parameters if x not in EXTRA)
                    if op.get('geo'):
                        ks = [x for x in ks if x in GEO] or ks
                    key = ks[op['k'] % len(ks)]
                    if op['f'] < 0 and key not in (
                            'IBxz', 'IHxz', 'c', 'alphaD', 'alphaH', 'alphaP'):
                        continue
                    if op['f'] > 1.2 and key[0] not in 'vgmck':
                        continue
                    if op['f'] > 1.2 and key[0] == 'k' and key not in GAINS:
                        continue
                    s.parameters[key] = s.parameters[key] * op['f']
                    edited[j] = True
                    before[j]['p'][key] = s.parameters[key]
                elif k == 'make':
                    p = dict(s.parameters)
                    key = sorted(s.par_strings)[op['k'] % len(s.par_strings)]
                    if op['how'] == 'missing':
                        p.pop(key)
                    else:
                        p[key] = {'none': None, 'int': 1,
                                  'text': '1.0'}[op['how']]
                    keep = dict(p)
                    a = () if s.parameterization == 'Moore2019' else (True,)
                    res = ctx.op(lab, lambda: type(s)(p, *a) and None)
                    rec['out'] = res
                    rec['key'] = key
                    rec['kept'] = keep == p
                elif k == 'conv':
                    to = TO[s.parameterization]
                    rec['to'] = to[op['to'] % len(to)]
                    ab = sched.Abort(env.PKG, op['abort'], MemoryError) \
                        if op.get('abort') else None
                    fn = s.to_parameterization
                    res = ctx.op(lab, (lambda: ab(fn, rec['to'])) if ab else
                                 (lambda: fn(rec['to'])))
                    rec['fired'] = bool(ab and ab.fired)
                    rec['out'] = res[:2] if res[0] == 'exc' else ('ok',)
                    if res[0] == 'ok':
                        ctx.s.ops[lab] = ('ok',)
                        rec['got'] = enc(res[1])
                        # bodies and mass centres of the new set
                        rec['lab'] = labels(res[1])
                        sets.append(res[1])
                        gen.append(gen[j] + 1)
                        edited.append(False)
                else:
                    fn, plain = act(s, op, axes)
                    ab = sched.Abort(env.PKG, op['abort'], MemoryError) \
                        if op.get('abort') else None
                    res = ctx.op(lab, (lambda: ab(fn)) if ab else fn)
                    ctx.s.ops[lab] = res[:1]
                    rec['fired'] = bool(ab and ab.fired)
                    rec['out'] = res[:2] if res[0] == 'exc' else ('ok',)
                    if res[0] == 'ok':
                        rec['ans'] = plain(res[1])
            rec['left'] = [same(enc(x), y) for x, y in zip(sets, before)]
        if plan['threads']:
            threads(ctx, plan, sets, par, plt)
        with ctx.fs.hidden():
            plt.close('all')
    return machine.session(root, body, [], [], None, None)


def threads(ctx, plan, sets, par, plt):
    before = [enc(x) for x in sets]
    with ctx.fs.hidden():
        axes = [[plt.subplots()[1] for _ in todo] for todo in plan['threads']]
    sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=True)

    def task(t):
        def go():
            for n, op in enumerate(plan['threads'][t]):
                j = op['s'] % len(sets)
                s = sets[j]
                if not able(s, op):
                    continue
                rec = {'t': t, 'n': n, 'before': before[j], 'fired': False,
                       'gen': 0, 'edited': False}
                par.append(rec)
                if op['op'] == 'conv':
                    to = TO[s.parameterization]
                    rec['to'] = to[op['to'] % len(to)]
                    try:
                        rec['got'] = enc(s.to_parameterization(rec['to']))
                        rec['out'] = ('ok',)
                    except Exception as e:
                        rec['out'] = ('exc', type(e).__name__, str(e)[:200])
                    continue
                if op['op'] == 'draw':
                    op = dict(op, ax=0)
                fn, plain = act(s, op, [axes[t][n]])
                try:
                    v = fn()
                    rec['out'] = ('ok',)
                    rec['v'] = v
                    rec['plain'] = plain
                except Exception as e:
                    rec['out'] = ('exc', type(e).__name__, str(e)[:200])
        return go
    with ctx.fs.hidden():
        for t in range(len(plan['threads'])):
            sc.spawn(task(t), 't%d' % t)
        sc.run()
        if sc.failure is not None:
            raise core.Hang(str(sc.failure))
        for t in sc.tasks:
            if t.exc is not None:
                raise t.exc
        for rec in par:
            if 'plain' in rec:
                rec['ans'] = rec.pop('plain')(rec.pop('v'))
    par.sort(key=lambda r: (r['t'], r['n']))
    ctx.s.switches = list(sc.switches)
    ctx.s.kept = all(same(enc(x), y) for x, y in zip(sets, before))


# -- rigid bodies from the values --------------------------------------------------

def rigid(e):
    """{label: (mass, (x, z), 2-D inertia, Iyy)} of an encoded set."""
    p = e['p']
    if e['name'] != 'Moore2019':
        return {b: x for b, x in zip('RBHF', model.bodies(p, 'RBHF'))}
    out = {}
    for b in 'RDPHF':
        m = p['m' + b]
        if b in 'RF':
            c = (0., -p['rR']) if b == 'R' else (p['w'], -p['rF'])
            al, kb = 0., p['k%saa' % b]
        else:
            c = (p['x' + b], p['z' + b])
            al, kb = p['alpha' + b], p['k%sbb' % b]
        a = np.array([math.cos(al), -math.sin(al)])
        n = np.array([math.sin(al), math.cos(al)])
        I = m * (p['k%saa' % b]**2 * np.outer(a, a) + kb**2 * np.outer(n, n))
        out[b] = (m, np.array(c), I, m * p['k%syy' % b]**2)
    return out


def meijaard(e):
    """The benchmark parameters of an encoded set."""
    p = e['p']
    if e['name'] != 'Moore2019':
        return dict(p)
    r = rigid(e)
    out = {k: p[k] for k in ('w', 'c', 'lam', 'g', 'v', 'rR', 'rF')}
    for b, x in (('B', model.composite([r['D'], r['P']])), ('H', r['H'])):
        m, c, I, Iyy = x
        out.update({'m' + b: m, 'x' + b: c[0], 'z' + b: c[1],
                    'I%sxx' % b: I[0, 0], 'I%sxz' % b: I[0, 1],
                    'I%szz' % b: I[1, 1], 'I%syy' % b: Iyy})
    for b in 'RF':
        m, c, I, Iyy = r[b]
        out.update({'m' + b: m, 'I%sxx' % b: I[0, 0], 'I%syy' % b: Iyy})
    return out


def moore(p):
    """Moore2012 parameters: vectors along and across the steer axis."""
    s, c = math.sin(p['lam']), math.cos(p['lam'])
    e1, e3 = np.array([c, -s]), np.array([s, c])
    R, F = np.array([0., -p['rR']]), np.array([p['w'], -p['rF']])
    A = np.array([p['w'] + p['c'], 0.])
    out = {'rr': p['rR'], 'rf': p['rF'], 'g': p['g'], 'v': p['v'],
           'd1': (A - R) @ e1, 'd3': (F - A) @ e1, 'd2': (F - R) @ e3}
    B, H = np.array([p['xB'], p['zB']]), np.array([p['xH'], p['zH']])
    out['l1'], out['l2'] = (B - R) @ e1, (B - R) @ e3
    out['l3'], out['l4'] = (H - F) @ e1, (H - F) @ e3
    for b, n in (('B', 'c'), ('R', 'd'), ('H', 'e'), ('F', 'f')):
        out['m' + n] = p['m' + b]
        out['i%s22' % n] = p['I%syy' % b]
        if b in 'RF':
            out['i%s11' % n] = p['I%sxx' % b]
            continue
        I = np.array([[p['I%sxx' % b], p['I%sxz' % b]],
                      [p['I%sxz' % b], p['I%szz' % b]]])
        out['i%s11' % n] = e1 @ I @ e1
        out['i%s33' % n] = e3 @ I @ e3
        out['i%s31' % n] = e3 @ I @ e1
    return out


def close(a, b, scale=1., tol=1e-9):
    return abs(a - b) <= tol * max(scale, abs(a), abs(b))


def near(a, b, tol=1e-8):
    return len(a) == len(b) and all(close(x, y, 1., tol)
                                    for x, y in zip(a, b))


def matched(got, want):
    """Whether two lists of number lists are the same set."""
    got = list(got)
    for w in want:
        for i, g in enumerate(got):
            if near(g, w):
                del got[i]
                break
        else:
            return 'nothing at %r among %r' % (w, got)
    return 'also drawn: %r' % got if got else None


def seg(a, b):
    a, b = [float(x) for x in a], [float(x) for x in b]
    return a + b if tuple(a) <= tuple(b) else b + a


def outline(p, steer):
    """Lines of the fundamental geometry; None where they are degenerate."""
    s, c = math.sin(p['lam']), math.cos(p['lam'])
    e3 = np.array([s, c])
    R, F = np.array([0., -p['rR']]), np.array([p['w'], -p['rF']])
    A = np.array([p['w'] + p['c'], 0.])
    P = A + ((R - A) @ e3) * e3
    Q = A + ((F - A) @ e3) * e3
    if np.linalg.norm(P - Q) < 1e-3:
        return None
    out = [(R, P), (P, Q), (Q, F)]
    if steer:
        out.append((Q, A))
    return out


def drawing(op, rec):
    """What is wrong with a drawing, or None."""
    e, ans = rec['before'], rec['ans']
    p, see, how = e['p'], ans['seen'], op['how']
    m19 = e['name'] == 'Moore2019'
    r = rigid(e)
    if not ans['given']:
        return 'not drawn on the axes given'
    if not see['inverted']:
        return 'z points up'
    if not see['aspect']:
        return 'the axes are distorted'
    if see['other']:
        return 'also drawn: %r' % see['other']
    circles, segs, ells, coms = [], [], [], []
    parts = {'all': ['radii', 'ellipses', 'geometry', 'coms'] +
             (['diamond'] if m19 else [])}.get(how, [how])
    loose = []      # (body) radii lines to find by their meaning
    for part in parts:
        bs = ans['bodies']
        if part in ('com', 'coms'):
            coms += bs
        elif part in ('radius', 'radii'):
            for b in bs:
                mass, c, I, Iyy = r[b]
                circles.append([c[0], c[1], math.sqrt(Iyy / mass)])
                loose.append(b)
        elif part in ('ellipse', 'ellipses'):
            ells += bs
        elif part == 'geometry':
            steer = how == 'all' or not op['flag'] or op['all']
            circles.append([0., -p['rR'], p['rR']])
            circles.append([p['w'], -p['rF'], p['rF']])
            lines = outline(p, steer)
            if lines is None:
                return None
            segs += [seg(*x) for x in lines]
            if not see['ground']:
                return 'no ground line'
        elif part == 'diamond':
            a = np.array([math.cos(p['alphaP']), -math.sin(p['alphaP'])])
            n = np.array([math.sin(p['alphaP']), math.cos(p['alphaP'])])
            c = np.array([p['xP'], p['zP']])
            v = [c + a * p['wP'] / 2, c + n * p['lP'] / 2,
                 c - a * p['wP'] / 2, c - n * p['lP'] / 2]
            segs += [seg(v[i], v[(i + 1) % 4]) for i in range(4)]
            if how == 'diamond' and op['flag'] and op['all']:
                segs += [seg(v[0], v[2]), seg(v[1], v[3])]
    if see['ground'] and 'geometry' not in parts:
        return 'a ground line was drawn'
    # symbols of mass centres: a circle with two wedges and a label
    texts = list(see['texts'])
    wedges = list(see['wedges'])
    left = list(see['circles'])
    for b in coms:
        c = r[b][1]
        got = [t for t in texts if t[2] == b]
        if len(got) != 1:
            return '%d labels of body %s' % (len(got), b)
        texts.remove(got[0])
        mine = [w for w in wedges if near(w[:2], c)]
        # two bodies may share a mass centre
        if len(mine) < 2:
            return 'no symbol at %r, the mass centre of %s, but %r' % (
                list(c), b, wedges)
        for w in mine[:2]:
            wedges.remove(w)
        rad = mine[0][2]
        if not 0 < rad < p['w']:
            return 'symbol of size %r' % rad
        ring = [x for x in left if near(x, [c[0], c[1], rad])]
        if not ring:
            return 'no circle around the mass centre of %s' % b
        left.remove(ring[0])
        if math.hypot(got[0][0] - c[0], got[0][1] - c[1]) > 3 * rad:
            return 'the label of %s is at %r' % (b, got[0])
    if texts or wedges:
        return 'also drawn: %r %r' % (texts, wedges)
    bad = matched(left, circles)
    if bad:
        return 'circles: ' + bad
    # straight lines
    got = [seg(x[:2], x[2:]) for x in see['segments']]
    got = [g for g in got if not near(g[:2], g[2:], 1e-12)]
    for w in segs:
        for i, g in enumerate(got):
            if near(g, w):
                del got[i]
                break
        else:
            return 'no line %r among %r' % (w, see['segments'])
    for b in loose:
        mass, c, I, Iyy = r[b]
        mine = []
        for g in got:
            a, d = np.array(g[:2]), np.array(g[2:])
            if near((a + d) / 2, c):
                mine.append((g, (d - a) / 2))
        ok = None
        for i in range(len(mine)):
            for j in range(i):
                h = [mine[i][1], mine[j][1]]
                L = [np.linalg.norm(x) for x in h]
                if min(L) < 1e-9 or abs(h[0] @ h[1]) > 1e-7 * L[0] * L[1]:
                    continue
                u, v = h[0] / L[0], h[1] / L[1]
                size = np.trace(I)
                if abs(u @ I @ v) > 1e-7 * size:
                    continue
                # a point mass that far out has the moment of the body
                if abs(mass * L[0]**2 - v @ I @ v) < 1e-7 * size and \
                        abs(mass * L[1]**2 - u @ I @ u) < 1e-7 * size:
                    ok = [mine[i][0], mine[j][0]]
        if ok is None:
            return 'no radii of gyration of %s at %r with inertia %r, ' \
                'mass %r among %r' % (b, list(c), I.tolist(), mass, got)
        for g in ok:
            got.remove(g)
    if got:
        return 'also drawn: %r' % got
    # ellipses
    left = list(see['ellipses'])
    for b in ells:
        mass, c, I, Iyy = r[b]
        for i, (x, z, w, h, ang) in enumerate(left):
            if not near([x, z], c):
                continue
            t = math.radians(ang)
            u = np.array([math.cos(t), math.sin(t)])
            v = np.array([-math.sin(t), math.cos(t)])
            size = np.trace(I) + Iyy
            # a solid of uniform density with half axes w/2 and h/2 in the
            # plane: a**2 = 5/(2 m) (Iyy + Iv - Iu)
            if abs(u @ I @ v) < 1e-7 * size and \
                    abs((w / 2)**2 * mass * .4 -
                        (Iyy + v @ I @ v - u @ I @ u)) < 1e-6 * size and \
                    abs((h / 2)**2 * mass * .4 -
                        (Iyy + u @ I @ u - v @ I @ v)) < 1e-6 * size:
                del left[i]
                break
        else:
            ev = np.linalg.eigvalsh(I)
            if Iyy - (ev[1] - ev[0]) < 1e-6 * Iyy:
                # no solid has this inertia
                left = [x for x in left if all(map(math.isfinite, x))]
                continue
            return 'no ellipse of %s (mass %r, inertia %r, %r) at %r among ' \
                '%r' % (b, mass, I.tolist(), Iyy, list(c), see['ellipses'])
    if left:
        return 'also drawn: %r' % left
    return None


def real(e):
    """Whether the bodies of a set have positive inertia."""
    return all(np.linalg.eigvalsh(x[2])[0] > 1e-9 and x[3] > 0
               for x in rigid(e).values())


# -- oracle ------------------------------------------------------------------------

def execute(run, plan):
    s = run.phase(one, run.root, plan)
    machine.account(run, s)
    fails = 0
    for rec in s.recs:
        op = plan['ops'][rec['i']]
        run.steps += 1
        if not all(rec.get('left', [])):
            return run.violate('changed', '%s changed set %d' % (
                op, rec['left'].index(False)))
        if op['op'] == 'edit':
            continue
        if rec['fired']:
            run.fault('failing-allocation')
        run.state(op['op'], op.get('how'), rec['before']['name'], rec['gen'],
                  rec['edited'], fails > 0, op.get('ax'),
                  rec['out'] and rec['out'][0])
        judge(run, op, rec)
        fails += rec['fired']
        if run.violations:
            return
    if plan['threads']:
        run.probe('switches', len(s.switches))
        run.note('switches', s.switches)
        run.check(s.kept, 'changed', 'threads that did not edit sets changed '
                  'one')
        for rec in s.par:
            op = plan['threads'][rec['t']][rec['n']]
            run.steps += 1
            run.state('thread', op['op'], op.get('how'),
                      rec['before']['name'], rec['out'][0])
            judge(run, op, rec)
            if run.violations:
                return


def judge(run, op, rec):
    k, out, e = op['op'], rec['out'], rec['before']
    what = '%s of a %s set%s' % (
        {k: v for k, v in op.items() if k != 's'}, e['name'],
        ' in thread %d' % rec['t'] if 't' in rec else '')
    if k == 'make':
        run.check(out == ('exc', 'ValueError') or out[:2] == (
            'exc', 'ValueError'), 'accepted', 'a %s set with %s %s gave %r'
            % (e['name'], rec['key'], op['how'], out[:2]))
        run.check(rec['kept'], 'changed', 'refusing a dictionary changed it')
        run.probe('refusals')
        return
    if out[0] == 'exc':
        run.check(rec['fired'], 'refused', '%s failed: %r' % (what, out))
        return
    if k == 'conv':
        return converted(run, rec, what)
    ans = rec['ans']
    run.probe(k)
    if k == 'com':
        m, c, _, _ = model.composite([rigid(e)[b] for b in ans['bodies']])
        run.check(near(ans['com'], [c[0], 0., c[1]]), 'centre',
                  'the mass centre of %s of a %s set is %r, not %r' % (
                      ans['bodies'], e['name'], ans['com'], list(c)))
    elif k == 'inertia':
        m, c, I, Iyy = rigid(e)[ans['body']]
        want = [[I[0, 0], 0., I[0, 1]], [0., Iyy, 0.], [I[1, 0], 0., I[1, 1]]]
        run.check(all(near(a, b) for a, b in zip(ans['I'], want)), 'inertia',
                  'the inertia of %s is %r, not %r' % (ans['body'], ans['I'],
                                                       want))
        run.check(near(ans['c'], [c[0], 0., c[1]]), 'centre',
                  'the mass centre of %s is %r, not %r' % (
                      ans['body'], ans['c'], list(c)))
    elif k == 'html':
        rows = re.findall(r'<td>\\\((.*?)\\\)</td>\s*<td>([^<]*)</td>',
                          html.unescape(ans['text']))
        tex = cls(e['name']).par_strings
        want = sorted((v, e['p'][n]) for n, v in tex.items())
        bad = None
        if sorted(x[0] for x in rows) != [x[0] for x in want]:
            bad = 'other names'
        else:
            # two parameters may share a symbol
            for (_, a), (_, b) in zip(
                    sorted((n, float(v)) for n, v in rows), want):
                if abs(a - b) > .00051 + 1e-9 * abs(b):
                    bad = '%r shown for %r' % (a, b)
        run.check(not bad, 'table', 'the table of a %s set shows %s' % (
            e['name'], bad))
    elif k == 'eig':
        if e['name'] == 'Meijaard2007WithFeedback':
            want = np.linalg.eigvals(model.feedback(e['p'], op['v'])[0])
        else:
            want = model.eig(meijaard(e), op['v'])
        want = [complex(x) for x in want]
        run.check(spread(ans['e'], want), 'eigenvalues',
                  'the eigenvalues of a %s set at %r m/s are %r, not %r' % (
                      e['name'], op['v'], ans['e'], want))
    elif k == 'draw':
        if not real(e):
            return
        bad = drawing(op, rec)
        run.check(not bad, 'drawing', '%s: %s' % (what, bad))


def spread(a, b):
    """Eigenvalues agree: their polynomials do (roots that nearly coincide
    are not well defined)."""
    pa, pb = np.poly(a), np.poly(b)
    scale = max(1., max(abs(x) for x in list(a) + list(b)))
    return all(abs(x - y) <= 1e-7 * scale**i
               for i, (x, y) in enumerate(zip(pa, pb)))


def converted(run, rec, what):
    e, got, to = rec['before'], rec['got'], rec['to']
    run.probe('conversions')
    if (got['name'], got['cls']) != (to, to + 'ParameterSet'):
        return run.violate('kind', 'conversion of a %s set to %s gave %s' % (
            e['name'], to, got['cls']))
    want_rider = True if e['name'] == 'Moore2019' else e['rider']
    run.check(got['rider'] == want_rider, 'rider', 'the set converted from '
              '%s to %s has rider %r' % (e['name'], to, got['rider']))
    b = meijaard(e)
    if to == 'Moore2012':
        want = moore(b)
    else:
        want = {k: b[k] for k in cls('Meijaard2007').par_strings}
        if to == 'Meijaard2007WithFeedback':
            want.update({k: 0. for k in GAINS})
    for k in sorted(want):
        if k not in got['p'] or not close(float(got['p'][k]), want[k]):
            return run.violate(
                'converted', '%s of a %s set converted to %s is %r, not %r' %
                (k, e['name'], to, got['p'].get(k), want[k]))
    types = sorted(k for k in want if not isinstance(got['p'][k], float))
    run.check(not types, 'types', 'converted values are no floats: %r' %
              types)
