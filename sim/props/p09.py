"""P09: simulations follow the model under any controller."""
import copy
import math
import time

import numpy as np

from .. import core, env, machine, model, sched
from . import p07, p08

ID = 'P09'
RUNS = {'quick': 2600, 'thorough': 40000}
LEVEL = 'seeded search over histories and thread interleavings of ' \
    'simulations with misbehaving input functions (raising, stalling, ' \
    'returning unusable values, simulating themselves) and failing ' \
    'allocations'
RULE = 'a run is non-trivial when a simulation was answered; counted by ' \
    'distinct (model, function, time grid, input function, earlier ' \
    'failures, threads or not) tuples'
STATE_MEASURE = 'distinct (model, function, time grid and its form, form of ' \
    'the initial condition, input function, overridden names, outcome, ' \
    'earlier failing calls) tuples and switch prefixes'
REAL = ['models', 'parameter sets', 'scipy.integrate', 'numpy',
        'matplotlib (Agg)']
STUB = ['input functions', 'thread scheduler', 'sleep', 'failing allocations']
ASSUMPTIONS = ['input functions do not change their arguments, depend on '
               'nothing but them and stay constant or smooth for at least '
               'the largest spacing of the requested times',
               'at least two increasing times',
               'the rear wheel of the leaning rider model starts with the '
               'rate that belongs to the speed, whatever the initial '
               'condition says',
               'the solver keeps its default tolerances (a thousandth)']
SHRINK = ['ops', 'threads', 'preempt']

NS = None
NU = {'whipple': 2, 'feedback': 2, 'lean': 3}
NX = {'whipple': 4, 'feedback': 4, 'lean': 12}


def setup():
    global NS
    NS = env.load()
    p08.NS = NS
    bad = model.check()
    if bad:
        raise core.HarnessError(bad)


# -- plans -------------------------------------------------------------------

def grid(rng):
    n = rng.choice([2, 3, 5, 11, 21, 31])
    dt = rng.choice([.01, .02, .05, .1, .1, .2])
    t0 = rng.choice([0., 0., 0., rng.uniform(-3, 3), 100.])
    k = rng.choice(['uniform', 'uniform', 'uniform', 'uneven', 'int'])
    if k == 'int':
        t = list(range(rng.choice([0, 0, 1, -2]), rng.choice([3, 4])))
    elif k == 'uniform':
        t = [t0 + i * dt for i in range(n)]
    else:
        t = [t0]
        for i in range(n - 1):
            t.append(t[-1] + dt * rng.uniform(.2, 1.5))
    return {'k': k, 't': t, 'form': rng.choice(['array', 'array', 'list',
                                                'tuple', 'ro'])}


def controller(rng, kind, t):
    nx, nu = NX[kind], NU[kind]
    span = t[-1] - t[0]
    gap = max(b - a for a, b in zip(t, t[1:]))
    c = {'k': rng.choice(['none', 'none', 'fb', 'fb', 'sine', 'pulse',
                          'pulse', 'mix', 'mix', 'sat', 'zero']),
         'ret': rng.choice(['list', 'tuple', 'array', 'buffer'])}
    k = c['k']
    if k in ('fb', 'mix', 'sat'):
        K = [[0.] * nx for _ in range(nu)]
        for _ in range(rng.randint(1, 4)):
            j = rng.randrange(nx) if kind != 'lean' else rng.choice(
                [3, 5, 7, 8, 10, 11])
            K[rng.randrange(nu)][j] = rng.uniform(-15, 15)
        c['K'] = K
    if k in ('sine', 'mix'):
        c['amp'] = [rng.choice([0., rng.uniform(-5, 5)]) for _ in range(nu)]
        c['w'] = rng.uniform(.2, min(12., 1.5 / gap))
        c['ph'] = rng.uniform(0, 6)
    if k in ('pulse', 'mix'):
        a = t[0] + rng.uniform(0, .9) * span
        c['pulse'] = [a, a + max(gap * 1.01, rng.uniform(0, .5) * span)]
        c['pamp'] = [rng.choice([0., rng.uniform(-8, 8)]) for _ in range(nu)]
    if k == 'sat':
        c['lim'] = rng.uniform(.2, 3)
    if k != 'none':
        r = rng.random()
        if r < .14:
            c['fail'] = {'exc': rng.choice(
                ['ValueError', 'ZeroDivisionError', 'KeyboardInterrupt',
                 'MemoryError', 'IndexError', 'StopIteration', 'Own',
                 'RuntimeError', 'TypeError', 'AttributeError',
                 'FloatingPointError', 'OverflowError', 'ArithmeticError',
                 'KeyError', 'OSError', 'AssertionError', 'RecursionError',
                 'NotImplementedError', 'EOFError', 'UserWarning',
                 'LinAlgError', 'Exception']),
                'call': rng.choice([1, 2, 5, rng.randint(3, 60)])}
        elif r < .24:
            c['bad'] = {'what': rng.choice(['long', 'none', 'nan',
                                            'str']),
                        'call': rng.choice([1, 3, rng.randint(3, 40)])}
        elif r < .34:
            c['nest'] = {'call': rng.randint(1, 30), 'fn': rng.choice(
                ['sim', 'sim', 'ss', 'modes', 'eigen'])}
        elif r < .42:
            c['slow'] = rng.choice([.001, .1, 3.])
    return c


def simcall(rng, kind, p, plots):
    fns = ['sim'] * 5 + ['modes']
    if plots:
        fns += ['plotsim', 'plotmodes']
    c = {'fn': rng.choice(fns), 't': grid(rng)}
    o = {}
    if rng.random() < .7:
        o['v'] = {'s': rng.choice([0., 3., rng.uniform(0, 10)]),
                  'form': rng.choice(['float', 'npfloat', 'int'])}
    for k in rng.sample(sorted(p), rng.choice([0, 0, 1, 2])):
        o.setdefault(k, {'s': p08.one(rng, kind, p, k), 'form': 'float'})
    if rng.random() < .06:
        o[rng.choice(['v', 'g'])] = {'a': [9.5, 9.9], 'form': rng.choice(
            ['list', 'array'])}
    elif rng.random() < .04:
        o['bogus'] = {'s': 1., 'form': 'float'}
    c['o'] = o
    if c['fn'] in ('sim', 'plotsim'):
        r = rng.random()
        n = NX[kind]
        if r < .3:
            x = [0.] * n
        elif r < .45:
            x = [float(rng.choice([0, 0, 1, -1])) for _ in range(n)]
        else:
            x = [rng.choice([0., rng.uniform(-.3, .3)]) for _ in range(n)]
        c['x0'] = x
        c['xform'] = rng.choice(['list', 'tuple', 'array', 'array', 'ro'] + (
            ['int', 'intlist'] if r < .45 else []))
        c['u'] = controller(rng, kind, c['t']['t'])
    return c


def generate(rng, tier, index):
    plan = {'sets': [], 'models': [], 'conc': rng.random() < .3}
    for i in range(rng.choice([1, 1, 2])):
        kind = rng.choice(['whipple', 'whipple', 'feedback', 'lean'])
        plan['sets'].append({'kind': kind, 'par': p08.values(rng, kind)})
    for i in range(rng.choice([1, 2])):
        j = rng.randrange(len(plan['sets']))
        k = plan['sets'][j]['kind']
        if k == 'whipple' and rng.random() < .2:
            k = 'feedback'
        plan['models'].append({'set': j, 'kind': k})

    def target():
        m = rng.randrange(len(plan['models']))
        kind = plan['models'][m]['kind']
        p = dict(plan['sets'][plan['models'][m]['set']]['par'])
        if kind == 'feedback':
            for g in p08.GAINS:
                p.setdefault(g, 0.)
        return m, kind, p
    plan['ops'] = []
    if plan['conc']:
        plan['threads'] = []
        for t in range(rng.choice([2, 2, 3])):
            cs = []
            for _ in range(rng.randint(1, 2)):
                m, kind, p = target()
                cs.append(dict(simcall(rng, kind, p, False), m=m))
            plan['threads'].append(cs)
        top = rng.choice([60, 400, 3000])
        plan['preempt'] = sorted([rng.randint(1, top), rng.randint(0, 2)]
                                 for _ in range(rng.randint(2, 40)))
        return plan
    for i in range(rng.randint(2, 6)):
        if i and rng.random() < .2:
            plan['ops'].append(copy.deepcopy(rng.choice(plan['ops'])))
            plan['ops'][-1].pop('abort', None)
            continue
        m, kind, p = target()
        c = dict(simcall(rng, kind, p, True), m=m)
        if rng.random() < .12:
            c['abort'] = [rng.randint(1, 400), rng.choice(
                ['MemoryError', 'KeyboardInterrupt'])]
        plan['ops'].append(c)
    return plan


# -- execution ---------------------------------------------------------------

class Own(Exception):
    pass


def value(c, t, x):
    """What the input function returns, as an array."""
    k = c['k']
    u = 0.
    if k in ('fb', 'mix', 'sat'):
        u = u - np.array(c['K']) @ x
    if k in ('sine', 'mix'):
        u = u + np.array(c['amp']) * math.sin(c['w'] * t + c['ph'])
    if k in ('pulse', 'mix') and c['pulse'][0] <= t < c['pulse'][1]:
        u = u + np.array(c['pamp'])
    if k == 'sat':
        u = np.clip(u, -c['lim'], c['lim'])
    return u


class Input(object):
    """The input function, with its faults and a record of its calls."""

    def __init__(self, c, kind, mod):
        self.c, self.mod = c, mod
        self.nx, self.nu = NX[kind], NU[kind]
        self.calls = []
        self.raised = None
        self.bad = False
        self.shape = None
        self.nested = None
        self.buffer = np.zeros(self.nu)

    def __call__(self, t, x):
        c = self.c
        self.calls.append(float(t))
        n = len(self.calls)
        if np.shape(x) != (self.nx,):
            self.shape = np.shape(x)
        f = c.get('fail')
        if f and n == f['call']:
            self.raised = {
                'Own': Own, 'LinAlgError': np.linalg.LinAlgError,
            }.get(f['exc']) or getattr(__import__('builtins'), f['exc'])
            self.raised = self.raised('injected')
            raise self.raised
        if c.get('slow') and n % 7 == 3:
            time.sleep(c['slow'])
        f = c.get('nest')
        if f and n == f['call']:
            self.nested = n
            m = self.mod
            with np.errstate(all='ignore'):
                if f['fn'] == 'sim':
                    m.simulate([0., .1, .2], np.array(x), lambda t, x:
                               np.zeros(self.nu), v=2.)
                elif f['fn'] == 'modes':
                    m.simulate_modes([0., .1], v=1.)
                elif f['fn'] == 'ss':
                    m.form_state_space_matrices(v=9., g=1.)
                else:
                    m.calc_eigen(v=[7., 8.])
        f = c.get('bad')
        if f and n >= f['call']:
            self.bad = True
            return {'long': [0.] * (self.nu + 1), 'none': None,
                    'nan': [float('nan')] * self.nu, 'str': 'ab'}[f['what']]
        u = np.zeros(self.nu) + value(c, t, x)
        if c['ret'] == 'list':
            return u.tolist()
        if c['ret'] == 'tuple':
            return tuple(u.tolist())
        if c['ret'] == 'buffer':
            self.buffer[:] = u
            return self.buffer
        return u


def mk(v, form):
    if form == 'list':
        return list(v)
    if form == 'tuple':
        return tuple(v)
    if form == 'intlist':
        return [int(i) for i in v]
    if form == 'int':
        return np.array([int(i) for i in v])
    a = np.array(v)
    if form == 'ro':
        a.flags.writeable = False
    return a


def lines(ax):
    return [(np.array(l.get_xdata(), dtype=float),
             np.array(l.get_ydata(), dtype=float)) for l in ax.lines]


def perform(mod, kind, c):
    """(outcome, record of the input function, arguments changed)."""
    import matplotlib.pyplot as plt
    o = {k: p08.make(v) for k, v in c['o'].items()}
    t = mk(c['t']['t'], c['t']['form'])
    args = [t] + list(o.values())
    inp = None
    if 'x0' in c:
        x0 = mk(c['x0'], c['xform'])
        args.append(x0)
        inp = None if c['u']['k'] == 'none' else Input(c['u'], kind, mod)
    before = [p08.plainval(a) for a in args]
    par = dict(mod.parameter_set.parameters)
    fn = c['fn']

    def go():
        if fn == 'sim':
            return mod.simulate(t, x0, inp, **o) if inp else \
                mod.simulate(t, x0, **o)
        if fn == 'modes':
            return (mod.simulate_modes(t, **o), mod.calc_eigen(**o)[1])
        if fn == 'plotsim':
            axes = mod.plot_simulation(t, x0, input_func=inp, **o)
            fig = axes[0].figure
            return [lines(a) for a in fig.axes]
        axes = mod.plot_mode_simulations(t, **o)
        return ([[lines(a) for a in row] for row in axes],
                mod.calc_eigen(**o)[1])
    ab = None
    own = [None]

    def guarded():
        try:
            return go()
        except BaseException as e:
            own[0] = e
            raise
    with np.errstate(all='ignore'):
        if c.get('abort'):
            ab = sched.Abort(env.PKG, c['abort'][0],
                             {'MemoryError': MemoryError, 'KeyboardInterrupt':
                              KeyboardInterrupt}[c['abort'][1]])
            out = p07.outcome(lambda: ab(guarded))
        else:
            out = p07.outcome(guarded)
    plt.close('all')
    bad = []
    if [p08.plainval(a) for a in args] != before:
        bad.append('its arguments')
    if dict(mod.parameter_set.parameters) != par:
        bad.append('the parameters')
    if inp and not inp.calls and inp.c['k'] != 'none' and out[0] == 'ok':
        bad.append('called no input function')
    rec = None
    if inp:
        rec = {'calls': (len(inp.calls), min(inp.calls, default=None),
                         max(inp.calls, default=None)),
               'shape': inp.shape, 'bad': inp.bad, 'nested': inp.nested,
               'raised': inp.raised is not None,
               'same': inp.raised is not None and own[0] is inp.raised}
    return out, rec, bad, ab is not None and ab.fired


def alone(root, plan, todo):
    """Every simulation on its own, with a fresh model."""
    def body(ctx):
        ctx.s.results = []
        for c in todo:
            dicts, sets, models = p08.world(plan)
            c = dict(c)
            c.pop('abort', None)
            ctx.s.results.append(perform(models[c['m']], plan['models'][
                c['m']]['kind'], c))
    return machine.session(root, body)


def history(root, plan):
    def body(ctx):
        dicts, sets, models = p08.world(plan)
        ctx.s.results = []
        for c in plan['ops']:
            ctx.s.results.append(perform(models[c['m']], plan['models'][
                c['m']]['kind'], c))
    return machine.session(root, body)


def threads(root, plan):
    def body(ctx):
        s = ctx.s
        dicts, sets, models = p08.world(plan)
        s.results = {}
        sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=True)

        def task(i, t):
            def go():
                s.results[i] = []
                for c in t:
                    s.results[i].append(perform(models[c['m']], plan[
                        'models'][c['m']]['kind'], c))
            return go
        for i, t in enumerate(plan['threads']):
            sc.spawn(task(i, t), 'p0')
        with np.errstate(all='ignore'):
            sc.run()
        if sc.failure is not None:
            raise core.Hang(str(sc.failure))
        for t in sc.tasks:
            if t.exc is not None:
                raise t.exc
        s.switches = list(sc.switches)
        s.lines = sc.steps
        s.stalled = sc.clock
    return machine.session(root, body)


# -- oracle ------------------------------------------------------------------

MARGIN = 20.


def excess(x, ref, tol):
    with np.errstate(all='ignore'):
        r = np.abs(x - ref) / tol
    r = np.where(np.isfinite(r), r, np.where(x == ref, 0., np.inf))
    return float(r.max()) if r.size else 0.


def follow(A, B, c, t, X):
    """Largest (error / allowed error) of the trajectory X over the intervals
    between the times, and the interval."""
    n = len(A)
    K = np.array(c['K']) if c['k'] in ('fb', 'mix') else np.zeros(
        (B.shape[1], n))
    Acl = A - B @ K
    worst = (0., None)
    edge = np.zeros(n)
    if 'pulse' in c:
        # the solver may take the edge of a pulse for a little earlier or later
        gap = max(b - a for a, b in zip(t, t[1:]))
        edge = .2 * gap * np.abs(B @ np.array(c['pamp']))
    cache = {}
    for i in range(len(t) - 1):
        dt = t[i + 1] - t[i]
        key = round(dt, 9)
        top = np.maximum(np.abs(X[i]), np.abs(X[i + 1]))
        if c['k'] == 'sat':
            want = rk4(A, B, c, t[i], dt, X[i])
            key2 = (key, None)
            if key2 not in cache:
                cache[key2] = np.abs(model.expm(A * dt)) + np.abs(
                    model.expm((A - B @ np.array(c['K'])) * dt))
            E = cache[key2]
        else:
            cuts = [t[i]] + [s for s in c.get('pulse', ()) if
                             t[i] < s < t[i + 1]] + [t[i + 1]]
            want = X[i]
            for a, b in zip(cuts, cuts[1:]):
                on = 'pulse' in c and c['pulse'][0] <= (a + b) / 2 < \
                    c['pulse'][1]
                for q in range(4):
                    want = exact(Acl, B, c, a + q * (b - a) / 4, (b - a) / 4,
                                 on, want, cache)
                    top = np.maximum(top, np.abs(want))
            if key not in cache:
                cache[key] = np.abs(model.expm(Acl * dt))
            E = cache[key]
        top = np.maximum(top, np.abs(want))
        tol = MARGIN * (np.eye(n) + E) @ (1e-6 + 1e-3 * top + 1e-10 *
                                         top.max())
        if edge.any() and any(t[i] - gap < s < t[i + 1] + gap
                              for s in c['pulse']):
            tol = tol + (np.eye(n) * (1. + gap) + E) @ edge
        r = excess(X[i + 1], want, tol)
        if r > worst[0]:
            worst = (r, i)
    return worst


def exact(A, B, c, t, dt, on, x, cache):
    n = len(A)
    key = ('x', round(dt, 12), on)
    if key not in cache:
        Z = np.zeros((n + 3, n + 3))
        Z[:n, :n] = A
        if on:
            Z[:n, n] = B @ np.array(c['pamp'])
        if 'amp' in c:
            Z[:n, n + 1] = B @ np.array(c['amp'])
            Z[n + 1, n + 2] = c['w']
            Z[n + 2, n + 1] = -c['w']
        cache[key] = model.expm(Z * dt)
    z = np.zeros(n + 3)
    z[:n] = x
    z[n] = 1.
    if 'amp' in c:
        z[n + 1] = math.sin(c['w'] * t + c['ph'])
        z[n + 2] = math.cos(c['w'] * t + c['ph'])
    return (cache[key] @ z)[:n]


def rk4(A, B, c, t, dt, x):
    lam = np.abs(np.linalg.eigvals(A - B @ np.array(c['K']))).max()
    lam = max(lam, np.abs(np.linalg.eigvals(A)).max())
    m = int(min(400, max(12, dt * lam * 12)))
    h = dt / m
    f = (lambda t, x: A @ x + B @ value(c, t, x))
    for i in range(m):
        a = f(t, x)
        b = f(t + h / 2, x + h / 2 * a)
        d = f(t + h / 2, x + h / 2 * b)
        e = f(t + h, x + h * d)
        x = x + h / 6 * (a + 2 * b + 2 * d + e)
        t += h
    return x


def judge(run, what, plan, c, res):
    """True if the simulation was answered."""
    (out, rec, bad, fired) = res
    m = plan['models'][c['m']]
    kind = m['kind']
    par = dict(plan['sets'][m['set']]['par'])
    what = '%s: %s of %s' % (what, c['fn'], kind)
    run.check(not bad, 'argument', '%s changed %s' % (what, ', '.join(bad)))
    u = c.get('u', {'k': 'none'})
    refs, lead = p08.rows(kind, par, c)
    if rec and rec['raised']:
        run.fault('input function raises')
        if not fired or out[0] == 'ok':
            run.check(out[0] == 'exc' and rec['same'], 'swallowed',
                      '%s: %s raised by the input function came out as %r' % (
                          what, u['fail']['exc'], out[:3]))
        return False
    if rec and rec['bad']:
        run.fault('input function returns ' + u['bad']['what'])
    if rec and rec['nested']:
        run.fault('input function simulates')
    if fired and out[0] == 'exc':
        return False
    if refs is None or lead:
        run.check(out[0] == 'exc' and out[1] == 'ValueError', 'accepted',
                  '%s: accepted the overrides %r: %r' % (what, c['o'],
                                                         out[:2]))
        return False
    if rec and rec['calls'][0]:
        lo, hi = rec['calls'][1:]
        t = c['t']['t']
        eps = 1e-9 * max(1., abs(t[0]), abs(t[-1]))
        run.check(t[0] - eps <= lo and hi <= t[-1] + eps, 'outside',
                  '%s: input function called at %r for times in [%r, %r]' % (
                      what, (lo, hi), t[0], t[-1]))
        run.check(rec['shape'] is None, 'state', '%s: input function called '
                  'with states of shape %r' % (what, rec['shape']))
    if rec and rec['bad']:
        if u['bad']['what'] == 'nan' and out[0] == 'ok' and \
                c['fn'] == 'sim' and np.shape(out[1][1]) == (
                    len(c['t']['t']), NU[kind]):
            # it may have happened only after the simulation, while the
            # inputs were collected
            A, B = p08.system(kind, refs[0])
            t = [float(x) for x in c['t']['t']]
            X, U = out[1]
            U = np.array(U)
            for i in range(len(t)):
                if np.isnan(U[i]).all():
                    U[i] = value(u, t[i], X[i])
            trajectory(run, what, kind, refs[0], A, B, c, t, X, U)
            return False
        run.check(out[0] == 'exc' or c['fn'] == 'plotsim' and
                  u['bad']['what'] == 'nan', 'unusable', '%s: returned '
                  'although the input was %s' % (what, u['bad']['what']))
        return False
    A, B = p08.system(kind, refs[0])
    if out[0] == 'exc':
        Acl = A - B @ np.array(u['K']) if 'K' in u else A
        grow = max(np.linalg.eigvals(a).real.max() for a in (A, Acl))
        if grow * (c['t']['t'][-1] - c['t']['t'][0]) < 500:
            run.violate('fails', '%s with %r: %r' % (what, u['k'], out[1:]))
        else:
            run.probe('unrepresentable')
        return False
    t = [float(x) for x in c['t']['t']]
    ans = out[1]
    if c['fn'] == 'sim':
        states, inputs = ans
        trajectory(run, what, kind, refs[0], A, B, c, t, states, inputs)
    elif c['fn'] == 'modes':
        modes(run, what, A, t, ans[0], ans[1])
    elif c['fn'] == 'plotsim':
        drawn(run, what, kind, refs[0], A, B, c, t, ans)
    else:
        res, vec = ans
        units = {'lean': [0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2]}.get(
            kind, [0, 0, 1, 1])
        n = len(units)
        if len(res) != n:
            run.violate('plot', '%s: %d rows' % (what, len(res)))
            return True
        X = np.zeros((n, len(t), n))
        for i, row in enumerate(res):
            for j in range(max(units) + 1):
                idx = [k for k in range(n) if units[k] == j]
                if len(row) <= j or len(row[j]) != len(idx):
                    run.violate('plot', '%s: mode %d, column %d has %d lines '
                                'for %d states' % (what, i, j, len(row[j]),
                                                   len(idx)))
                    return True
                for k, (x, y) in zip(idx, row[j]):
                    if not np.allclose(x, t):
                        run.violate('plot', '%s: drawn over %s' % (what, x))
                        return True
                    X[i, :, k] = y if (kind == 'lean' and j == 0) else \
                        np.radians(y)
        modes(run, what, A, t, X, vec)
    return True


def trajectory(run, what, kind, p, A, B, c, t, X, U):
    n, m = B.shape
    if np.shape(X) != (len(t), n) or np.shape(U) != (len(t), m):
        return run.violate('wrong', '%s: shapes %s, %s for %d times' % (
            what, np.shape(X), np.shape(U), len(t)))
    x0 = np.array(c['x0'], dtype=float)
    if kind == 'lean':
        x0[9] = -p['v'] / p['rr']
    if not np.allclose(X[0], x0, rtol=1e-9, atol=1e-12):
        return run.violate('wrong', '%s: starts at %s instead of %s' % (
            what, X[0].tolist(), x0.tolist()))
    u = c['u']
    want = np.zeros((len(t), m))
    if u['k'] != 'none':
        for i in range(len(t)):
            want[i] = value(u, t[i], X[i])
    if not np.allclose(U, want, rtol=1e-9, atol=1e-12):
        i = int(np.abs(np.asarray(U) - want).max(axis=1).argmax())
        return run.violate('inputs', '%s: reports the input %s for %g, where '
                           'the input function returns %s' % (
                               what, np.asarray(U)[i].tolist(), t[i],
                               want[i].tolist()))
    r, i = follow(A, B, u, t, X)
    run.probe('checked-intervals', len(t) - 1)
    if r > 1.:
        run.violate('wrong', '%s with input %s: from %g to %g the state goes '
                    'from %s to %s, %g times the allowed error' % (
                        what, u['k'], t[i], t[i + 1], X[i].tolist(),
                        X[i + 1].tolist(), r))


def modes(run, what, A, t, X, vec):
    n = len(A)
    if np.shape(X) != (n, len(t), n):
        return run.violate('wrong', '%s: shape %s' % (what, np.shape(X)))
    for k in range(n):
        if not np.allclose(X[k, 0], vec[:, k].real, rtol=1e-9, atol=1e-10):
            return run.violate('wrong', '%s: mode %d starts at %s instead of '
                               '%s' % (what, k, X[k, 0].tolist(),
                                       vec[:, k].real.tolist()))
        r, i = follow(A, np.zeros((n, 1)), {'k': 'none'}, t, X[k])
        if r > 1.:
            return run.violate('wrong', '%s: mode %d: from %g to %g the state '
                               'goes from %s to %s, %g times the allowed '
                               'error' % (what, k, t[i], t[i + 1],
                                          X[k, i].tolist(),
                                          X[k, i + 1].tolist(), r))


def drawn(run, what, kind, p, A, B, c, t, axes):
    n, m = B.shape
    lay = {'lean': [('u', range(3)), ('m', [0, 1]), ('d', [4, 6]),
                    ('d', [3, 5, 7]), ('d', [8, 10, 11]), ('d', [2]),
                    ('d', [9])]}.get(
        kind, [('u', range(2)), ('d', [0, 1]), ('d', [2, 3])])
    X, U = np.zeros((len(t), n)), np.zeros((len(t), m))
    if [len(a) for a in axes] != [len(l[1]) for l in lay]:
        return run.violate('plot', '%s: %s lines' % (what, [len(a) for a in
                                                            axes]))
    for (k, idx), ls in zip(lay, axes):
        for i, (x, y) in zip(idx, ls):
            if not np.allclose(x, t):
                return run.violate('plot', '%s: drawn over %s' % (what, x))
            if k == 'u':
                U[:, i] = y
            else:
                X[:, i] = y if k == 'm' else np.radians(y)
    trajectory(run, what, kind, p, A, B, c, t, X, U)


def sig(c):
    u = c.get('u', {'k': '-'})
    return (c['fn'], c['t']['k'], c['t']['form'], c.get('xform'), u['k'],
            u.get('ret') if u['k'] not in '-none' else None,
            (u.get('fail') or {}).get('exc'), (u.get('bad') or {}).get(
                'what'), (u.get('nest') or {}).get('fn'),
            tuple(sorted(c['o'])))


def same(a, b):
    """Two answers agree to the last bit."""
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and \
            np.array_equal(a, b, equal_nan=True)
    return a == b


def execute(run, plan):
    root = run.root
    if plan['conc']:
        todo = [c for t in plan['threads'] for c in t]
        s0 = run.phase(alone, root, plan, todo)
        s = run.phase(threads, root, plan)
        machine.account(run, s)
        run.steps += s.lines
        run.note('switches', s.switches[:200])
        run.probe('concurrent-runs')
        run.probe('switches', len(s.switches))
        if s.stalled:
            run.fault('stalled input function')
        k = 0
        for i, t in enumerate(plan['threads']):
            for n, c in enumerate(t):
                res, ref = s.results[i][n], s0.results[k]
                k += 1
                what = 'thread %d, call %d' % (i, n)
                if judge(run, what, plan, c, res):
                    run.probe('calls')
                run.check(res[0][0] == ref[0][0] and (
                    res[0][0] == 'exc' or same(res[0][1], ref[0][1])),
                    'interference', '%s differs from the same call on its '
                    'own: %s, %s' % (what, p07._short(res[0]),
                                     p07._short(ref[0])))
                run.state('t', plan['models'][c['m']]['kind'], sig(c))
        run.state('sw', tuple(s.switches)[:6])
        return
    s = run.phase(history, root, plan)
    machine.account(run, s)
    failed = 0
    seen = {}
    for i, c in enumerate(plan['ops']):
        res = s.results[i]
        kind = plan['models'][c['m']]['kind']
        if res[3]:
            run.fault(c['abort'][1])
        ok = judge(run, 'call %d' % i, plan, c, res)
        if ok:
            run.probe('calls')
        if res[0][0] == 'exc':
            failed += 1
        run.note(i, kind, c['fn'], p07._short(res[0]))
        run.state(kind, sig(c), res[0][0], min(failed, 3))
        if not res[3]:
            key = repr({k: v for k, v in c.items() if k != 'abort'})
            if key in seen:
                run.probe('repeated')
                run.check(res[0][0] == seen[key][0] and (
                    res[0][0] == 'exc' or same(res[0][1], seen[key][1])),
                    'repeat', 'call %d gives another result than before' % i)
            seen[key] = res[0]
        if run.violations:
            return
