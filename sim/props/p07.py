"""P07: queries of a bicycle are pure and reflect its current parameters."""
import copy
import math
import os

import numpy as np

from .. import core, env, gen, machine, model, rig, sched
from . import p04

ID = 'P07'
RUNS = {'quick': 2100, 'thorough': 30000}
LEVEL = 'seeded search over histories of queries, parameter changes, rider ' \
    'additions, copies, spoiled results and failing allocations over several ' \
    'bicycles, and over interleavings of threads that query shared bicycles'
RULE = 'a run is non-trivial when at least one query was answered; counted ' \
    'by distinct (query, form of its arguments, number of changes before, ' \
    'kind of bicycle, threads or not) tuples'
STATE_MEASURE = 'distinct (query, argument form, changes before, uncertain, ' \
    'split fork, rider, concurrent) tuples and thread switch prefixes'
REAL = ['Bicycle queries and plots', 'bicycle, inertia, com and geometry '
        'functions', 'numpy', 'uncertainties', 'matplotlib (Agg)', 'dtk bode']
STUB = ['thread scheduler', 'failing allocations', 'disk']
ASSUMPTIONS = ['threads switch between lines of the package, not inside '
               'numpy', 'threads do not plot or change parameters']
SHRINK = ['ops', 'threads', 'preempt']

NS = None


def setup():
    global NS
    NS = env.load()
    bad = model.check()
    if bad:
        raise core.HarnessError(bad)


FLAGS = ['handlebar', 'fork', 'wheel', 'aboutSteerAxis']
SPEEDS = ['scalar', 'int', 'list', 'tuple', 'array', 'intarray', 'ints',
          'zerod', 'npfloat']


def speeds(rng):
    form = rng.choice(SPEEDS)
    n = 1 if form in ('scalar', 'int', 'zerod', 'npfloat') else \
        rng.choice([1, 2, 3, 5])
    if form in ('int', 'intarray', 'ints'):
        v = [rng.randint(-2, 12) for _ in range(n)]
    else:
        v = [rng.choice([0., rng.uniform(0, 12), rng.uniform(-4, 25)])
             for _ in range(n)]
    return {'form': form, 'v': v}


def form(s):
    v = s['v']
    return {'scalar': lambda: float(v[0]), 'int': lambda: int(v[0]),
            'list': lambda: list(v), 'tuple': lambda: tuple(v),
            'array': lambda: np.array(v, dtype=float),
            'intarray': lambda: np.array([int(x) for x in v]),
            'ints': lambda: [int(x) for x in v],
            'zerod': lambda: np.array(v[0]),
            'npfloat': lambda: np.float64(v[0])}[s['form']]()


def query(rng, plots):
    k = rng.choice(['canonical', 'state', 'state', 'eig', 'eig', 'steer',
                    'steer', 'str'] +
                   (['geometry', 'eigplot', 'bode', 'bodes'] if plots else
                    []))
    q = {'k': k, 'nominal': rng.random() < .5}
    if k == 'state':
        q['v'] = {'form': rng.choice(['scalar', 'int', 'npfloat']),
                  'v': [rng.choice([0, rng.uniform(0, 12),
                                    rng.uniform(-3, 30)])]}
    elif k == 'eig':
        q['v'] = speeds(rng)
    elif k == 'steer':
        q['flags'] = [int(rng.random() < .6) for _ in FLAGS]
    elif k == 'geometry':
        q['flags'] = [int(rng.random() < .6) for _ in range(3)]
    elif k == 'eigplot':
        q['v'] = {'form': rng.choice(['list', 'array', 'tuple']),
                  'v': [rng.uniform(0, 12) for _ in range(rng.randint(2, 9))]}
        q['mode'] = rng.choice(['modes', 'modes', 'generic', 'largest'])
        q['fig'] = rng.random() < .2
    elif k in ('bode', 'bodes'):
        n = 1 if k == 'bode' else rng.randint(1, 3)
        q['v'] = [rng.uniform(0.5, 12) for _ in range(n)]
        q['u'], q['y'] = rng.randint(0, 1), rng.randint(0, 3)
        q['fig'] = rng.random() < .2
    return q


def generate(rng, tier, index):
    conc = rng.random() < .15
    names = ['Alpha', 'Bravo', 'Comet'][:rng.choice([1, 2, 3])]
    plan = {'bikes': {}, 'riders': {}, 'conc': conc}
    unc = rng.choice([0., .5, 1.])
    for b in names:
        plan['bikes'][b] = gen.benchmark(rng, unc=unc)
        if rng.random() < .5:
            plan['riders']['Jane' + b] = gen.enc(rng, rig.rider(rng), unc)
    plan['slots'] = [rng.choice(names) for _ in range(3)]
    if rng.random() < .06:
        # a measured bicycle of the repository: pendulum axes are drawn
        plan['slots'][0] = rng.choice(['Browser', 'Pista', 'Rigid'])
    ops = []
    for i in range(rng.randint(3, 10)):
        r = rng.random()
        slot = rng.randint(0, 2)
        if r < .62:
            ops.append({'op': 'q', 'slot': slot, 'q': query(rng, not conc)})
            if rng.random() < .3:
                ops[-1]['spoil'] = True
            if rng.random() < .12:
                ops[-1]['abort'] = [rng.randint(1, 400), rng.choice(
                    ['MemoryError', 'MemoryError', 'KeyboardInterrupt'])]
        elif r < .85:
            k = rng.choice(['w', 'c', 'lam', 'g', 'v', 'mB', 'mR', 'mF', 'mH',
                            'xB', 'zB', 'xH', 'zH', 'rR', 'rF', 'IBxx',
                            'IBxz', 'IBzz', 'IByy', 'IHxz', 'IHzz', 'IRyy',
                            'IFyy', 'IFxx', 'IRxx', 'mS', 'xG', 'ISxz'])
            ops.append({'op': 'edit', 'slot': slot, 'key': k,
                        'f': rng.choice([rng.uniform(.8, 1.25),
                                         rng.uniform(.8, 1.25), 0., -1.])
                        if k in ('c', 'IBxz', 'IHxz')
                        else rng.uniform(.8, 1.25),
                        'plain': rng.random() < .5,
                        'whole': rng.random() < .3})
        elif r < .93:
            ops.append({'op': 'ride', 'slot': slot})
        else:
            ops.append({'op': 'copy', 'slot': slot, 'to': rng.randint(0, 2),
                        'deep': True})
    plan['ops'] = ops
    if conc:
        shared = rng.random() < .6
        plan['threads'] = []
        for t in range(rng.choice([2, 2, 3])):
            slot = 0 if shared else rng.randint(0, 2)
            plan['threads'].append({'slot': slot, 'q': [
                query(rng, False) for _ in range(rng.randint(1, 3))]})
        plan['preempt'] = sorted([rng.randint(1, 500), rng.randint(0, 2)]
                                 for _ in range(rng.randint(2, 12)))
    return plan


def build(root, plan):
    data = os.path.join(root, 'data')
    for b, par in sorted(plan['bikes'].items()):
        machine.put(os.path.join(data, 'bicycles', b, 'Parameters',
                                 b + 'Benchmark.txt'), gen.text(par))
    for rb, par in sorted(plan['riders'].items()):
        machine.put(os.path.join(data, 'riders', rb[:4], 'Parameters',
                                 rb + 'Benchmark.txt'), gen.text(par))


def both(x):
    """(nominal, std) arrays of a possibly uncertain array or number."""
    from uncertainties import unumpy
    return (np.array(unumpy.nominal_values(x), dtype=float),
            np.array(unumpy.std_devs(x), dtype=float))


def snap(b):
    return {'par': {k: list(gen.plain(v).items()) for k, v in
                    b.parameters.items()}, 'has': bool(b.hasRider),
            'str': str(b), 'name': b.bicycleName}


def encfig(fig):
    out = []
    for ax in fig.axes:
        d = {'lines': [], 'circles': [], 'ellipses': [], 'texts': [],
             'title': ax.get_title(), 'xlabel': ax.get_xlabel(),
             'ylabel': ax.get_ylabel()}
        for l in ax.lines:
            d['lines'].append((l.get_linestyle(), str(l.get_label()),
                               np.array(l.get_xdata(), dtype=float),
                               np.array(l.get_ydata(), dtype=float)))
        for p in ax.patches:
            t = type(p).__name__
            if t == 'Circle':
                d['circles'].append((p.center[0], p.center[1], p.radius))
            elif t == 'Ellipse':
                d['ellipses'].append((p.center[0], p.center[1], p.width,
                                      p.height, p.angle))
        for t in ax.texts:
            d['texts'].append((t.get_position()[0], t.get_position()[1],
                               t.get_text()))
        out.append(d)
    return out


def ask(b, q):
    """Puts query q to bicycle b.  Returns (picklable answer, the arrays the
    caller received, the arguments before and after)."""
    import matplotlib.pyplot as plt
    k = q['k']
    raw, args = [], None
    if k == 'canonical':
        r = b.canonical(nominal=True) if q['nominal'] else b.canonical()
        raw = list(r)
        ans = [both(x) for x in r]
    elif k == 'state':
        v = form(q['v'])
        r = b.state_space(v, nominal=q['nominal'])
        raw = list(r)
        ans = [both(x) for x in r]
    elif k == 'eig':
        v = form(q['v'])
        v0 = copy.deepcopy(v)
        r = b.eig(v)
        raw = list(r)
        ans = [np.array(x) for x in r]
        args = (v0, v)
    elif k == 'steer':
        r = b.steer_assembly_moment_of_inertia(
            nominal=q['nominal'], **{f: bool(x) for f, x in
                                     zip(FLAGS, q['flags'])})
        raw = [r]
        ans = [both(r)]
    elif k == 'str':
        ans = str(b)
    elif k == 'geometry':
        fig = b.plot_bicycle_geometry(show=False, **{
            f: bool(x) for f, x in zip(['pendulum', 'centerOfMass',
                                        'inertiaEllipse'], q['flags'])})
        ans = encfig(fig)
        plt.close(fig)
    elif k == 'eigplot':
        v = form(q['v'])
        v0 = copy.deepcopy(v)
        fig = plt.subplots()[0] if q['fig'] else None
        kw = {} if fig is None else {'fig': fig}
        if q['mode'] != 'modes':
            kw[q['mode']] = True
        got = b.plot_eigenvalues_vs_speed(v, **kw)
        if fig is not None and got is not fig:
            raise AssertionError('the given figure was not used')
        ans = encfig(got)
        plt.close(got)
        args = (v0, v)
    elif k == 'bode':
        kw = {}
        if q['fig']:
            kw['fig'] = plt.subplots(2, 1)[0]
        mag, phase, fig = b.plot_bode(q['v'][0], q['u'], q['y'], **kw)
        ans = [np.array(mag), np.array(phase), encfig(fig)]
        plt.close(fig)
    else:
        v = list(q['v'])
        kw = {}
        if q['fig']:
            kw['fig'] = plt.subplots(2, 1)[0]
        fig = b.compare_bode_speeds(v, q['u'], q['y'], **kw)
        ans = encfig(fig)
        plt.close(fig)
        args = (q['v'], v)
    if args is not None:
        a, z = args
        args = bool(type(a) is type(z) and np.array_equal(
            np.array(a), np.array(z)))
    return ans, raw, args


def spoil(raw):
    for x in raw:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = 0. * x + 17.


def outcome(fn):
    try:
        return ('ok', fn())
    except (core.Hang, sched.Stuck):
        raise
    except (Exception, KeyboardInterrupt) as e:
        return ('exc', type(e).__name__, str(e)[:300])


def load(plan, data):
    out = []
    for n in plan['slots']:
        if n in plan['bikes']:
            out.append(NS.bp.Bicycle(n, data))
        else:
            out.append(NS.bp.Bicycle(n, os.path.join(env.REPO, 'data'),
                                     forceRawCalc=True))
    return out


def history(root, plan):
    data = os.path.join(root, 'data')

    def body(ctx):
        slots = load(plan, data)
        s = ctx.s
        s.results, s.held = [], []
        s.snaps.append([snap(b) for b in slots])
        for i, op in enumerate(plan['ops']):
            b = slots[op['slot']]
            res = None
            if op['op'] == 'q':
                call = (lambda: ask(b, op['q']))
                if op.get('abort'):
                    n, exc = op['abort']
                    ab = sched.Abort(env.PKG, n, {
                        'MemoryError': MemoryError,
                        'KeyboardInterrupt': KeyboardInterrupt}[exc])
                    out = outcome(lambda: ab(call))
                    import matplotlib.pyplot as plt
                    plt.close('all')
                    res = ('abort', ab.fired) + (out[:2] if out[0] == 'exc'
                                                 else ('ok', out[1][0],
                                                       out[1][2]))
                else:
                    out = outcome(call)
                    if out[0] == 'ok':
                        ans, raw, args = out[1]
                        if op.get('spoil'):
                            spoil(raw)
                        else:
                            s.held.append((i, raw, ans))
                        res = ('ok', ans, args)
                    else:
                        res = out
            elif op['op'] == 'edit':
                par = b.parameters['Benchmark']
                k = op['key']
                if k in par:
                    v = par[k] * op['f']
                    if op['plain']:
                        v = gen.plain({k: v})[k][0]
                    if op['whole']:
                        b.parameters['Benchmark'] = dict(par, **{k: v})
                    else:
                        par[k] = v
            elif op['op'] == 'ride':
                res = outcome(lambda: b.add_rider('Jane'))
            else:
                slots[op['to']] = copy.deepcopy(b)
            s.results.append(res)
            s.snaps.append([snap(x) for x in slots])
        # results handed out earlier are still what they were
        s.stale = []
        for i, raw, ans in s.held:
            for x, y in zip(raw, ans):
                if isinstance(y, tuple):
                    now = both(x)
                    ok = np.array_equal(now[0], y[0]) and np.array_equal(
                        now[1], y[1])
                else:
                    ok = np.array_equal(np.array(x), y)
                if not ok:
                    s.stale.append(i)
        s.held = []
    return machine.session(root, body)


def threads(root, plan):
    data = os.path.join(root, 'data')

    def body(ctx):
        s = ctx.s
        slots = load(plan, data)
        s.snaps.append([snap(b) for b in slots])
        s.results = {}
        sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=True)

        def task(i, t):
            def go():
                s.results[i] = []
                for q in t['q']:
                    out = outcome(lambda: ask(slots[t['slot']], q))
                    s.results[i].append(('ok', out[1][0], out[1][2])
                                        if out[0] == 'ok' else out)
            return go
        for i, t in enumerate(plan['threads']):
            sc.spawn(task(i, t), 'p0')
        sc.run()
        if sc.failure is not None:
            raise core.Hang(str(sc.failure))
        for t in sc.tasks:
            if t.exc is not None:
                raise t.exc
        s.switches = list(sc.switches)
        s.lines = sc.steps
        s.snaps.append([snap(b) for b in slots])
    return machine.session(root, body)


# -- oracle ------------------------------------------------------------------

def off(a, b, tol, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    if scale is None:
        scale = max(1e-3, np.max(np.abs(b))) if b.size else 1.
    if not np.all(np.isfinite(a)) or np.max(np.abs(a - b), initial=0.) > \
            tol * scale:
        return '%s instead of %s' % (np.round(a, 9).tolist(),
                                     np.round(b, 9).tolist())
    return None


def spread(f, par):
    """Standard deviations of f(par) for independent parameters."""
    base = {k: v[0] for k, v in par.items()}
    var = 0.
    for k, v in par.items():
        if not v[1]:
            continue
        h = max(abs(v[0]), 1e-3) * 1e-6
        hi = np.asarray(f(dict(base, **{k: v[0] + h})))
        lo = np.asarray(f(dict(base, **{k: v[0] - h})))
        var = var + ((hi - lo) / (2 * h) * v[1])**2
    return np.sqrt(var)


def judge(run, what, q, res, snap, indep):
    """Compare the answer to q with the reference for the parameters the
    bicycle has."""
    k = q['k']
    par = dict(snap['par']['Benchmark'])
    p = {x: v[0] for x, v in par.items()}
    if k == 'steer':
        ref = model.steer_inertia(p, *[bool(x) for x in q['flags']])
        if ref is None:
            run.check(res[0] == 'exc' and res[1] == 'ValueError', 'wrong',
                      '%s: the parts are not known but %r' % (what, res[:2]))
            return
    if res[0] == 'exc':
        return run.violate('fails', '%s: %r' % (what, res))
    ans, args = res[1], res[2]
    run.check(args is not False, 'argument', '%s: the argument was changed' %
              what)
    d = None
    if k == 'canonical':
        ref = model.canonical(p)
        for n, a, b in zip('M C1 K0 K2'.split(), ans, ref):
            d = d or off(a[0], b, 1e-9) and '%s is %s' % (n, off(a[0], b,
                                                                 1e-9))
        if d is None:
            d = sigma(q, ans, lambda x: model.canonical(x), par, indep)
    elif k == 'state':
        v = form(q['v'])
        ref = model.state_space(p, v)
        for n, a, b in zip('AB', ans, ref):
            t = off(a[0], b, 1e-8)
            d = d or t and '%s is %s' % (n, t)
        if d is None:
            d = sigma(q, ans, lambda x: model.state_space(x, v), par, indep)
    elif k == 'eig':
        v = np.atleast_1d(form(q['v']))
        w, V = ans
        if w.shape != (len(v), 4) or V.shape != (len(v), 4, 4):
            d = 'shapes %s, %s' % (w.shape, V.shape)
        else:
            for i, x in enumerate(v):
                A = model.state_space(p, x)[0]
                if not model.same_set(w[i], np.linalg.eigvals(A), 1e-5):
                    d = 'eigenvalues %s at %g m/s' % (w[i].tolist(), x)
                R = A @ V[i] - V[i] * w[i]
                n = np.linalg.norm(V[i], axis=0)
                if np.max(np.abs(R)) > 1e-7 * max(1., np.abs(A).max()) or \
                        np.any(np.abs(n - 1.) > 1e-6):
                    d = d or 'column j of the vectors does not belong to ' \
                        'value j at %g m/s' % x
    elif k == 'steer':
        t = off(ans[0][0], ref, 1e-9, max(1e-3, np.abs(ref).max()))
        d = t and 'tensor is %s' % t
        if d is None:
            d = sigma(q, ans, lambda x: [model.steer_inertia(
                x, *[bool(f) for f in q['flags']])], par, indep)
    elif k == 'str':
        if snap['name'] not in ans:
            d = 'it is called %r' % ans
    elif k == 'geometry':
        d = geometry(q, ans, p, snap)
    elif k == 'eigplot':
        d = eigplot(q, ans, p, snap)
    elif k == 'bode':
        d = bode(q, [(0, q['v'][0])], ans[2], p) or \
            line(ans[0], ans[1], np.logspace(0, 2, 1000), p, q, q['v'][0])
    else:
        d = bode(q, list(enumerate(q['v'])), ans, p, True)
    if d:
        run.violate('wrong', '%s: %s' % (what, d))


def sigma(q, ans, f, par, indep):
    if q['nominal']:
        return None if all(not np.any(a[1]) for a in ans) else \
            'nominal results have uncertainties'
    if not indep:
        return None
    n = len(f({k: v[0] for k, v in par.items()}))
    for i in range(n):
        ref = spread(lambda x: f(x)[i], par)
        ref = np.zeros(ans[i][0].shape) + ref
        got = ans[i][1]
        scale = max(1e-9, np.max(ref))
        if np.max(np.abs(got - ref)) > 2e-3 * scale + 1e-9:
            return 'uncertainty of result %d is %s instead of %s' % (
                i, got.tolist(), ref.tolist())
    return None


def parts(p):
    return sorted(k[1:] for k in p if k[0] == 'm' and len(k) == 2)


def geometry(q, axes, p, snap):
    ax = axes[0]
    pend, com, ell = q['flags']
    if snap['name'] not in ax['title']:
        return 'title %r' % ax['title']

    def has(seq, ref, n):
        return any(np.allclose(x[:n], ref, rtol=1e-7, atol=1e-9)
                   for x in seq)
    wheels = [(0., p['rR'], p['rR']), (p['w'], p['rF'], p['rF'])]
    for w in wheels:
        if not has(ax['circles'], w, 3):
            return 'no wheel at %r among %r' % (w, ax['circles'])
    cent = {}
    for x in parts(p):
        if x == 'R':
            cent[x] = (0., p['rR'])
        elif x in 'FD':
            cent[x] = (p['w'], p['rF'])
        else:
            cent[x] = (p['x' + x], -p['z' + x])
    small = [c for c in ax['circles'] if abs(c[2] - .03) < 1e-9]
    names = [t for t in ax['texts'] if t[2].isalpha()]
    shown = [x for x in cent if x != 'D']
    if not com:
        if small or names:
            return 'mass centres drawn though not asked for'
    else:
        if sorted(t[2] for t in names) != sorted(shown):
            return 'mass centres %r' % [t[2] for t in names]
        if len(small) != len(shown):
            return '%d mass centres' % len(small)
        for x in shown:
            if not has(small, cent[x], 2):
                return 'mass centre of %s not at %r: %r' % (x, cent[x], small)
            t = [t for t in names if t[2] == x][0]
            if math.hypot(t[0] - cent[x][0], t[1] - cent[x][1]) > .2:
                return 'label %s is away from %r' % (x, cent[x])
    if not ell:
        if ax['ellipses']:
            return 'ellipses drawn though not asked for'
    else:
        if len(ax['ellipses']) != len(cent):
            return '%d ellipses for %s' % (len(ax['ellipses']), sorted(cent))
        left = list(ax['ellipses'])
        for x in sorted(cent):
            if x in 'RFD':
                lo = hi = p['I%sxx' % x]
                th = None
            else:
                a, b, c = p['I%sxx' % x], p['I%sxz' % x], p['I%szz' % x]
                m, r = (a + c) / 2, math.hypot((a - c) / 2, b)
                lo, hi = m - r, m + r
                # direction of the smallest moment, in the plot (x, -z)
                th = math.degrees(-.5 * math.atan2(-2 * b, c - a))
                if r < 1e-6 * m:
                    th = None
            if lo <= 0:
                return None
            ref = sorted([hi / 2, hi / 2 * math.sqrt(lo / hi)])
            for e in left:
                if not np.allclose(e[:2], cent[x], atol=1e-9) or \
                        not np.allclose(sorted(e[2:4]), ref, rtol=1e-6):
                    continue
                if th is not None:
                    ang = e[4] + (90. if e[2] < e[3] else 0.)
                    dd = (ang - th) % 180.
                    if min(dd, 180. - dd) > .01:
                        continue
                left.remove(e)
                break
            else:
                return 'no ellipse of %s: centre %r, axes %r, angle %r ' \
                    'among %r' % (x, cent[x], ref, th, left)
    # frame and steer axis
    segs = [np.column_stack(l[2:4]) for l in ax['lines']]

    def through(pt):
        return [s for s in segs if any(np.allclose(r, pt, atol=1e-7)
                                       for r in s)]
    for pt in ((0., p['rR']), (p['w'], p['rF'])):
        if not through(pt):
            return 'the frame does not reach %r' % (pt,)
    if abs(p['lam']) > 1e-3 and not through((p['w'] + p['c'], 0.)):
        return 'no steer axis reaches the ground at %r' % (p['w'] + p['c'])
    if not any(np.allclose(s, 0. * s + np.array([[0., 0.]]) + np.column_stack(
            [s[:, 0], 0 * s[:, 0]])) for s in segs):
        return 'no ground line'
    return None


def eigplot(q, axes, p, snap):
    ax = axes[0]
    v = np.sort(np.array(form(q['v']), dtype=float))
    ref = np.array([model.eig(p, x) for x in v])
    lines = [l for l in ax['lines'] if len(l[2]) == len(v)]
    for l in lines:
        if not np.allclose(l[2], v):
            return 'speeds %s instead of %s' % (l[2], v)
    zero = [i for i, l in enumerate(lines) if not np.any(l[3])
            and l[0] == '-' and l[1].startswith('_')]
    if zero:
        del lines[zero[0]]
    tol = 1e-5 * max(1., np.abs(ref).max())
    if q['mode'] == 'largest':
        top = ref.real.max(axis=1)
        ok = [l for l in lines if np.allclose(l[3], top, atol=tol)]
        if len(lines) != 1 or not ok:
            return 'largest eigenvalues %r instead of %r' % (
                [l[3].tolist() for l in lines], top.tolist())
        if snap['name'] not in ok[0][1]:
            return 'label %r' % ok[0][1]
        return None
    re = [l for l in lines if l[0] == '-']
    im = [l for l in lines if l[0] != '-']
    if len(re) != 4 or len(im) != 4:
        return '%d real and %d imaginary lines' % (len(re), len(im))
    for i in range(len(v)):
        a = sorted(l[3][i] for l in re)
        b = sorted(ref[i].real)
        c = sorted(l[3][i] for l in im)
        e = sorted(abs(ref[i].imag))
        if not np.allclose(a, b, atol=20 * tol) or not np.allclose(
                c, e, atol=20 * tol):
            return 'at %g m/s real parts %s, imaginary %s instead of %s, ' \
                '%s' % (v[i], a, c, b, e)
    if q['mode'] == 'modes':
        if snap['name'] not in ax['title']:
            return 'title %r' % ax['title']
        # the real and imaginary parts of a label belong to each other
        key = {}
        for n, ls in (('re', re), ('im', im)):
            for l in ls:
                mode = l[1].split()[-1]
                key.setdefault(mode, {}).setdefault(n, []).append(l[3])
        for i in range(len(v)):
            got = []
            for mode, d in sorted(key.items()):
                if len(d.get('re', [])) != len(d.get('im', [])):
                    return 'lines of %s: %s' % (mode, [
                        (l[0], l[1]) for l in lines])
                got += [complex(a[i], b[i]) for a, b in zip(d['re'], d['im'])]
            if not model.same_set(got, ref[i].real + 1j * np.abs(
                    ref[i].imag), 1e-4):
                return 'at %g m/s the modes are %s instead of %s' % (
                    v[i], got, ref[i].tolist())
    return None


def line(mag, phase, w, p, q, v):
    A, B = model.state_space(p, v)
    if mag.shape != w.shape or phase.shape != w.shape:
        return 'shapes %s %s' % (mag.shape, phase.shape)
    idx = [0, 99, 400, 650, 999]
    for i in idx:
        H = np.linalg.solve(1j * w[i] * np.eye(4) - A, B[:, q['u']])[q['y']]
        db, ph = 20 * math.log10(abs(H)), math.degrees(math.atan2(
            H.imag, H.real))
        dp = (phase[i] - ph) % 360.
        if abs(mag[i] - db) > 1e-3 or min(dp, 360. - dp) > 1e-2:
            return 'response at %g rad/s and %g m/s is %g dB, %g deg instead ' \
                'of %g dB, %g deg' % (w[i], v, mag[i], phase[i], db, ph)
    return None


def bode(q, want, axes, p, aligned=False):
    if len(axes) != 2:
        return '%d axes' % len(axes)
    m, f = axes[0]['lines'], axes[1]['lines']
    if len(m) != len(want) or len(f) != len(want):
        return '%d lines for %d speeds' % (len(m), len(want))
    for i, v in want:
        d = line(m[i][3], f[i][3], m[i][2], p, q, v)
        if d:
            return d
        if aligned and not -181. <= f[i][3][0] <= 181.:
            return 'phase starts at %g' % f[i][3][0]
        if aligned and str(v) not in m[i][1]:
            return 'label %r for %r m/s' % (m[i][1], v)
    return None


def kind(plan, snap):
    p = dict(snap['par']['Benchmark'])
    return (any(v[1] for v in p.values()), 'mS' in p, 'mD' in p, snap['has'])


def qform(q):
    return (q['k'], q.get('v', {}).get('form') if isinstance(
        q.get('v'), dict) else None, q.get('flags'), q.get('mode'),
        q['nominal'])


def unchanged(a, b):
    if a == b:
        return None
    for k in a['par']:
        if k not in b['par']:
            return 'set %s vanished' % k
        x, y = dict(a['par'][k]), dict(b['par'][k])
        for n in sorted(set(x) | set(y)):
            if x.get(n) != y.get(n):
                return '%s %s became %r from %r' % (k, n, y.get(n), x.get(n))
    return 'it became %r' % (b,) if set(a['par']) == set(b['par']) else \
        'sets became %s' % sorted(b['par'])


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    build(root, plan)
    if plan['conc']:
        s = run.phase(threads, root, plan)
        machine.account(run, s)
        run.note('switches', s.switches)
        run.steps += s.lines
        run.probe('concurrent-runs')
        run.probe('switches', len(s.switches))
        for j in range(3):
            d = unchanged(s.snaps[0][j], s.snaps[1][j])
            run.check(d is None, 'changed', 'queries in threads: %s' % d)
        for i, t in enumerate(plan['threads']):
            for n, q in enumerate(t['q']):
                judge(run, 'thread %d, query %d (%s)' % (i, n, q['k']), q,
                      s.results[i][n], s.snaps[0][t['slot']],
                      plan['slots'][t['slot']] in plan['bikes'])
                run.probe('queries')
                run.state('t', qform(q))
        run.state('sw', tuple(s.switches)[:6])
        return
    s = run.phase(history, root, plan)
    machine.account(run, s)
    changes = [0, 0, 0]
    ridden = [False] * 3
    for i, op in enumerate(plan['ops']):
        before, after = s.snaps[i], s.snaps[i + 1]
        j = op['slot']
        res = s.results[i]
        what = 'step %d' % i
        for x in range(3):
            if op['op'] == 'q' or (x != j and not (op['op'] == 'copy' and
                                                   x == op['to'])):
                d = unchanged(before[x], after[x])
                run.check(d is None, 'changed', '%s: %s on bicycle %d '
                          'changed bicycle %d: %s' % (
                              what, op['q']['k'] if op['op'] == 'q' else
                              op['op'], j, x, d))
        if op['op'] == 'copy':
            changes[op['to']] = changes[j]
            ridden[op['to']] = ridden[j]
            d = unchanged(before[j], after[op['to']])
            run.check(d is None, 'copy', '%s: the copy differs: %s' % (
                what, d))
        elif op['op'] in ('edit', 'ride'):
            changes[j] += 1
            ridden[j] = True        # no longer independent parameters
        else:
            q = op['q']
            w = '%s (%s)' % (what, q['k'])
            if res[0] == 'abort':
                run.probe('aborted' if res[1] else 'abort-too-late')
                if res[1]:
                    run.fault(op['abort'][1])
                if res[2] == 'ok':
                    judge(run, w + ' with a failing allocation', q,
                          ('ok', res[3], res[4]), before[j], False)
                continue
            judge(run, w, q, res, before[j],
                  not ridden[j] and plan['slots'][j] in plan['bikes'])
            run.note(what, q['k'], _short(res))
            run.probe('queries')
            run.state(qform(q), changes[j], kind(plan, before[j]))
        if run.violations:
            return
    run.check(not s.stale, 'aliasing', 'the result of step %r changed '
              'afterwards' % s.stale)


def _short(res):
    if res[0] != 'ok':
        return res

    def h(x):
        if isinstance(x, np.ndarray):
            return np.round(x, 6).tolist() if x.size < 50 else complex(
                np.round(np.sum(x), 6))
        if isinstance(x, (list, tuple)):
            return [h(y) for y in x]
        if isinstance(x, dict):
            return {k: h(v) for k, v in sorted(x.items())}
        return x
    return repr(h(res[1]))[:3000]


_ = p04
