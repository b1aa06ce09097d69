"""P08: parameter overrides on models never leak between callers."""
import copy

import numpy as np

from .. import core, env, gen, machine, model, rig, sched
from . import p07

ID = 'P08'
RUNS = {'quick': 1800, 'thorough': 30000}
LEVEL = 'seeded search over histories of calls with scalar and array ' \
    'overrides, invalid calls, failing inputs and allocations on models that ' \
    'share parameter sets, and over interleavings of threads'
RULE = 'a run is non-trivial when a call was answered; counted by distinct ' \
    '(model, function, shape of the overrides, earlier failures, threads or ' \
    'not) tuples'
STATE_MEASURE = 'distinct (model, function, overridden names with their ' \
    'forms, outcome, earlier failing calls) tuples and switch prefixes'
REAL = ['models', 'parameter sets and conversions', 'equations of motion',
        'numpy', 'matplotlib (Agg)']
STUB = ['thread scheduler', 'failing allocations and inputs']
ASSUMPTIONS = ['threads switch between lines of the package, not inside '
               'numpy or the generated equations', 'the generated equations '
               'of the leaning rider model were right at the pinned commit',
               'threads do not plot or change parameter sets']
SHRINK = ['ops', 'threads', 'preempt']

NS = None
WHIPPLE = ['IBxx', 'IBxz', 'IByy', 'IBzz', 'IFxx', 'IFyy', 'IHxx', 'IHxz',
           'IHyy', 'IHzz', 'IRxx', 'IRyy', 'c', 'lam', 'mB', 'mF', 'mH', 'mR',
           'rF', 'rR', 'w', 'xB', 'xH', 'zB', 'zH']
GAINS = [k for row in model.GAINS for k in row]


def setup():
    global NS
    NS = env.load()
    bad = model.check()
    if bad:
        raise core.HarnessError(bad)


LEAN0 = {
    'c9': 0.0, 'd1': 0.9631492634872098, 'd2': 0.4338396131640938,
    'd3': 0.0705000000001252, 'd4': -0.6704626684911591, 'g': 9.81,
    'ic11': 2.296859222953584, 'ic22': 2.9922715238,
    'ic31': 0.01594448114273473, 'ic33': 1.5101858377464155,
    'id11': 0.0904106601579, 'id22': 0.152467620286,
    'ie11': 0.2811355367159554, 'ie22': 0.246138810935,
    'ie31': 0.0063377219110826045, 'ie33': 0.06782113764394461,
    'if11': 0.0883819364527, 'if22': 0.149389340425,
    'ig11': 2.038073562525466, 'ig22': 1.692108544034995,
    'ig31': 0.002113501449812, 'ig33': 1.100753962972129, 'k9': 0.0,
    'l1': 0.47759794513190806, 'l2': -0.1680324796714025,
    'l3': -0.07654646159268344, 'l4': -0.47166687226492093,
    'l5': 0.231223496809401, 'l6': -0.271613547251923, 'mc': 33.044,
    'md': 3.11, 'me': 3.22, 'mf': 2.02, 'mg': 48.816, 'rf': 0.34352982332,
    'rr': 0.340958858855, 'v': 1.0}


def values(rng, kind):
    """A complete parameter dictionary."""
    if kind == 'lean':
        p = {k: v * rng.uniform(.85, 1.18) for k, v in LEAN0.items()}
        p['c9'] = rng.choice([0., rng.uniform(0, 50)])
        p['k9'] = rng.choice([0., rng.uniform(0, 500)])
        p['g'] = 9.81
    else:
        p = rig.true_bike(rng)
        p = {k: p[k] for k in WHIPPLE + ['g']}
    p['v'] = rng.choice([0., 1., rng.uniform(0., 10.)])
    if kind == 'feedback':
        for k in GAINS:
            p[k] = rng.choice([0., rng.uniform(-40, 40)])
    return p


def one(rng, kind, p, k):
    """A value for parameter k."""
    if k == 'v':
        return rng.choice([0., rng.uniform(-2, 12), rng.uniform(0, 25)])
    if k in GAINS:
        return rng.choice([0., rng.uniform(-60, 60), rng.uniform(-60, 60)])
    if k in ('c9', 'k9'):
        return rng.choice([0., rng.uniform(0, 600), rng.uniform(0, 600)])
    if kind != 'lean' and k in ('c', 'IBxz', 'IHxz', 'g') and \
            rng.random() < .35:
        # nothing, or the other way round
        return rng.choice([0., 0., -p[k]]) if k != 'g' else 0.
    return p[k] * rng.uniform(.8, 1.25)


FORMS = ['list', 'tuple', 'array', 'array', 'intlist', 'col', 'ro']


def overrides(rng, kind, p, bad=True):
    """{name: {'s': scalar, 'form'} | {'a': values, 'form'}}"""
    out = {}
    n = rng.choice([1, 2, 3, 4])
    mode = rng.choice(['none', 'scalars', 'array', 'array', 'mixed', 'mixed',
                       'arrays'])
    names = sorted(p)
    pool = names + ['v'] * 8 + ['g']
    if kind == 'feedback':
        pool += GAINS * 2
    if mode in ('scalars', 'mixed'):
        for k in rng.sample(pool, rng.randint(1, 3)):
            out[k] = {'s': one(rng, kind, p, k), 'form': rng.choice(
                ['float', 'float', 'npfloat', 'int'])}
    if mode in ('array', 'mixed', 'arrays'):
        m = rng.choice([2, 3]) if mode == 'arrays' else 1
        for k in rng.sample(pool, m):
            a = [one(rng, kind, p, k) for _ in range(n)]
            r = rng.random()
            if r < .2:      # a value again, next to it or further away
                i = rng.randrange(n)
                a[i] = a[rng.choice([i - 1, rng.randrange(n)])]
            elif r < .3:
                a = sorted(a)
            out[k] = {'a': a, 'form': rng.choice(FORMS)}
    if kind == 'feedback' and rng.random() < .08:
        for k in GAINS:
            out[k] = {'a': [float(rng.randint(-3, 3))] + [
                rng.uniform(-9, 9) for _ in range(n - 1)], 'form': 'list0'}
        for k in list(out):
            if 'a' in out[k] and len(out[k]['a']) != n:
                out[k]['a'] = (out[k]['a'] * n)[:n]
    if bad and rng.random() < .08:
        out[rng.choice(['bogus', 'V', 'IFzz', 'mass'])] = {
            's': 3., 'form': 'float'}
    if bad and rng.random() < .06 and out:
        k = rng.choice(sorted(out))
        r = rng.random()
        if r < .4:
            out['w' if kind != 'lean' else 'rr'] = {'a': [1.] * 2,
                                                    'form': 'list'}
            out['v'] = {'a': [2., 3., 4.], 'form': 'array'}
        elif r < .7:
            out[k] = {'a': [one(rng, kind, p, k) if k in p else 1.
                            for _ in range(n)], 'form': 'faulty',
                      'at': rng.randint(0, n - 1)}
        else:
            out[k] = {'s': 0., 'form': 'str'}
    return out


class Faulty(object):
    """A sequence whose storage fails on one access."""

    def __init__(self, v, at):
        self.v, self.at = v, at

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        if isinstance(i, int) and i % len(self.v) == self.at:
            raise OSError('injected: cannot read element')
        return self.v[i]

    def __array__(self, *a, **k):
        raise OSError('injected: cannot read the array')


def make(o):
    if 's' in o:
        return {'float': float, 'npfloat': np.float64, 'int': lambda x: int(x)
                if abs(x) >= 1 else float(x), 'str': lambda x: 'abc'}[
                    o['form']](o['s'])
    a, f = o['a'], o['form']
    if f == 'list':
        return list(a)
    if f == 'list0':
        return [int(a[0])] + list(a[1:])
    if f == 'tuple':
        return tuple(a)
    if f == 'intlist':
        return [int(x) if abs(x) > 2 else x for x in a]
    if f == 'col':
        return np.column_stack([a, a])[:, 1]
    if f == 'faulty':
        return Faulty(a, o['at'])
    x = np.array(a, dtype=float)
    if f == 'ro':
        x.flags.writeable = False
    return x


def plainval(x):
    if isinstance(x, Faulty):
        return 'faulty'
    if isinstance(x, np.ndarray):
        return ('array', x.tolist(), str(x.dtype))
    return (type(x).__name__, list(x) if isinstance(x, (list, tuple)) else x)


def call(rng, kind, p, plots, bad=True):
    fns = ['ss', 'ss', 'ss', 'eigen', 'left']
    if kind != 'lean':
        fns += ['canon', 'canon']
    if plots:
        fns += ['parts', 'vectors']
        if kind == 'feedback':
            fns += ['gains']
    fn = rng.choice(fns)
    c = {'fn': fn, 'o': overrides(rng, kind, p, bad)}
    if fn == 'parts':
        c['sort'] = kind != 'lean' and rng.random() < .6
        c['stable'] = rng.random() < .5
    if fn in ('parts', 'gains'):
        k = rng.choice(['v', 'v', 'g']) if kind != 'lean' else 'v'
        n = rng.choice([3, 5])
        lo = rng.uniform(0, 5)
        c['o'] = {x: v for x, v in c['o'].items() if 's' in v and
                  x not in ('v', 'g')}
        c['o'][k] = {'a': [lo + .8 * i for i in range(n)] if k == 'v' else
                     [9. + .2 * i for i in range(n)], 'form': 'array'}
        if fn == 'gains' and rng.random() < .7:
            g = rng.choice(GAINS)
            c['o'][g] = {'a': [rng.uniform(-9, 9) for _ in range(n)],
                         'form': rng.choice(['array', 'list'])}
    return c


def generate(rng, tier, index):
    conc = rng.random() < .25
    plan = {'sets': [], 'models': [], 'conc': conc}
    kinds = []
    for i in range(rng.choice([1, 1, 2])):
        kind = rng.choice(['whipple', 'whipple', 'feedback', 'lean'])
        plan['sets'].append({'kind': kind, 'par': values(rng, kind)})
        kinds.append(kind)
    for i in range(rng.choice([1, 2, 2, 3])):
        j = rng.randrange(len(kinds))
        k = kinds[j]
        if k == 'whipple' and rng.random() < .3:
            k = 'feedback'
        plan['models'].append({'set': j, 'kind': k})
    ops = []

    def target():
        m = rng.randrange(len(plan['models']))
        kind = plan['models'][m]['kind']
        p = dict(plan['sets'][plan['models'][m]['set']]['par'])
        if kind == 'feedback':
            for g in GAINS:
                p.setdefault(g, 0.)
        return m, kind, p
    if conc:
        plan['threads'] = []
        # callers may share the objects that hold the overridden values
        shared = {}
        for t in range(rng.choice([2, 2, 3])):
            cs = []
            for _ in range(rng.randint(1, 3)):
                m, kind, p = target()
                c = call(rng, kind, p, False, rng.random() < .3)
                c['m'] = m
                key = (kind,)
                if key in shared and rng.random() < .4:
                    c['o'] = copy.deepcopy(shared[key]['o'])
                    c['share'] = 1
                else:
                    shared[key] = c
                cs.append(c)
            plan['threads'].append(cs)
        plan['preempt'] = sorted([rng.randint(1, 400), rng.randint(0, 2)]
                                 for _ in range(rng.randint(2, 14)))
        plan['ops'] = []
        return plan
    for i in range(rng.randint(2, 9)):
        m, kind, p = target()
        if rng.random() < .12:
            k = rng.choice(sorted(plan['sets'][plan['models'][m]['set']]
                                  ['par']))
            ops.append({'op': 'edit', 'set': plan['models'][m]['set'],
                        'key': k, 'val': one(rng, kind, p, k)})
            continue
        c = dict(call(rng, kind, p, True), op='call', m=m)
        if rng.random() < .3:
            c['spoil'] = True
        if rng.random() < .12:
            c['abort'] = [rng.randint(1, 250), rng.choice(
                ['MemoryError', 'MemoryError', 'KeyboardInterrupt'])]
        ops.append(c)
    plan['ops'] = ops
    return plan


def world(plan):
    ps = NS.parameter_sets
    ms = NS.models
    dicts, sets, models = [], [], []
    for s in plan['sets']:
        d = dict(s['par'])
        dicts.append(d)
        if s['kind'] == 'lean':
            sets.append(ps.MooreRiderLean2012ParameterSet(d))
        elif s['kind'] == 'feedback':
            sets.append(ps.Meijaard2007WithFeedbackParameterSet(d, True))
        else:
            sets.append(ps.Meijaard2007ParameterSet(d, True))
    for m in plan['models']:
        cls = {'lean': ms.MooreRiderLean2012Model,
               'feedback': ms.Meijaard2007WithFeedbackModel,
               'whipple': ms.Meijaard2007Model}[m['kind']]
        models.append(cls(sets[m['set']]))
    return dicts, sets, models


def answer(mod, c, o):
    """Calls the model.  Returns (picklable answer, received arrays)."""
    import matplotlib.pyplot as plt
    fn = c['fn']
    if fn == 'canon':
        r = mod.form_reduced_canonical_matrices(**o)
    elif fn == 'ss':
        r = mod.form_state_space_matrices(**o)
    elif fn == 'eigen':
        r = mod.calc_eigen(**o)
    elif fn == 'left':
        r = mod.calc_eigen(left=True, **o)
    elif fn == 'parts':
        ax = mod.plot_eigenvalue_parts(sort_modes=c['sort'],
                                       show_stable_regions=c['stable'], **o)
        shade = []
        for col in ax.collections:
            for path in col.get_paths():
                shade.append([float(path.vertices[:, 0].min()),
                              float(path.vertices[:, 0].max())])
        lines = [(l.get_linestyle(), str(l.get_color()),
                  np.array(l.get_xdata(), dtype=float),
                  np.array(l.get_ydata(), dtype=float)) for l in ax.lines]
        plt.close(ax.figure)
        return ('parts', lines, shade), []
    elif fn == 'gains':
        axes = mod.plot_gains(**o)
        out = [[(np.array(l.get_xdata(), dtype=float),
                 np.array(l.get_ydata(), dtype=float)) for l in ax.lines]
               for ax in axes.flatten()]
        plt.close(axes.flatten()[0].figure)
        return ('gains', out), []
    else:
        axes = np.atleast_2d(mod.plot_eigenvectors(**o))
        out = [[[(float(l.get_xdata()[-1]), float(l.get_ydata()[-1]))
                 for l in ax.lines] for ax in row] for row in axes]
        plt.close(axes[0, 0].figure)
        return ('vectors', out), []
    return ('arrays', [np.array(x) for x in r]), list(r)


def history(root, plan):
    def body(ctx):
        import matplotlib.pyplot as plt
        s = ctx.s
        dicts, sets, models = world(plan)
        s.results, s.snaps, held = [], [], []
        s.stale, s.args = [], []
        s.snaps.append([dict(d) for d in dicts])
        s.modelpar = []
        for i, op in enumerate(plan['ops']):
            if op['op'] == 'edit':
                dicts[op['set']][op['key']] = op['val']
                s.results.append(None)
            else:
                o = {k: make(v) for k, v in op['o'].items()}
                o0 = {k: plainval(v) for k, v in o.items()}
                mod = models[op['m']]
                par0 = dict(mod.parameter_set.parameters)
                s.modelpar.append((i, par0))
                fn = (lambda: answer(mod, op, o))
                fired = False
                if op.get('abort'):
                    ab = sched.Abort(env.PKG, op['abort'][0], {
                        'MemoryError': MemoryError, 'KeyboardInterrupt':
                        KeyboardInterrupt}[op['abort'][1]])
                    out = p07.outcome(lambda: ab(fn))
                    fired = ab.fired
                else:
                    out = p07.outcome(fn)
                plt.close('all')
                if out[0] == 'ok':
                    ans, raw = out[1]
                    if op.get('spoil'):
                        p07.spoil(raw)
                    else:
                        held.append((i, raw, ans))
                    out = ('ok', ans)
                s.results.append((out, fired))
                if {k: plainval(v) for k, v in o.items()} != o0:
                    s.args.append(i)
                if dict(mod.parameter_set.parameters) != par0 or list(
                        mod.parameter_set.parameters) != list(par0):
                    s.stale.append((i, 'parameters of the model'))
            s.snaps.append([dict(d) for d in dicts])
        for i, raw, ans in held:
            for x, y in zip(raw, ans[1]):
                if not np.array_equal(np.array(x), y):
                    s.stale.append((i, 'result'))
    return machine.session(root, body)


def threads(root, plan):
    def body(ctx):
        s = ctx.s
        dicts, sets, models = world(plan)
        s.snaps = [[dict(d) for d in dicts]]
        s.results, s.args = {}, []
        pool = {}
        sc = sched.Scheduler(plan['preempt'], pkg=env.PKG, trace=True,
                             skip=('_mooreriderlean2012.py',))

        def obj(c):
            o = {}
            for k, v in c['o'].items():
                if c.get('share'):
                    key = (k, repr(v))
                    if key not in pool:
                        pool[key] = make(v)
                    o[k] = pool[key]
                else:
                    o[k] = make(v)
                    pool.setdefault((k, repr(v)), o[k])
            return o
        objs = [[obj(c) for c in t] for t in plan['threads']]
        before = [[{k: plainval(v) for k, v in o.items()} for o in t]
                  for t in objs]

        def task(i, t):
            def go():
                s.results[i] = []
                for n, c in enumerate(t):
                    out = p07.outcome(lambda: answer(models[c['m']], c,
                                                     objs[i][n]))
                    s.results[i].append(('ok', out[1][0]) if out[0] == 'ok'
                                        else out)
            return go
        for i, t in enumerate(plan['threads']):
            sc.spawn(task(i, t), 'p0')
        sc.run()
        if sc.failure is not None:
            raise core.Hang(str(sc.failure))
        for t in sc.tasks:
            if t.exc is not None:
                raise t.exc
        after = [[{k: plainval(v) for k, v in o.items()} for o in t]
                 for t in objs]
        if before != after:
            s.args.append('threads')
        s.switches = list(sc.switches)
        s.lines = sc.steps
        s.snaps.append([dict(d) for d in dicts])
    return machine.session(root, body)


# -- oracle ------------------------------------------------------------------

def rows(kind, par, c):
    """The parameter dictionaries the call is about; None where it has to be
    refused; and whether the result has a leading axis."""
    p = dict(par)
    if kind == 'feedback':
        for g in GAINS:
            p.setdefault(g, 0.)
    arrays = {}
    for k, o in c['o'].items():
        if k not in p:
            continue
        if 's' in o:
            if o['form'] == 'str':
                return None, None
            p[k] = float(make(o))
        else:
            arrays[k] = o
    if not arrays:
        return [p], False
    n = {len(o['a']) for o in arrays.values()}
    if len(n) != 1:
        return None, None
    if any(o['form'] == 'faulty' for o in arrays.values()):
        return None, None
    keys = {k: make(o) for k, o in arrays.items()}
    out = []
    for i in range(n.pop()):
        out.append(dict(p, **{k: float(v[i]) for k, v in keys.items()}))
    return out, True


def system(kind, p):
    if kind == 'lean':
        return model.lean(p)
    if kind == 'feedback':
        return model.feedback(p)
    return model.state_space(p, p['v'])


def judge(run, what, kind, par, c, out):
    ref, lead = rows(kind, par, c)
    fn = c['fn']
    what = '%s: %s of %s(%s)' % (what, fn, kind, ', '.join(sorted(c['o'])))
    if ref is None:
        faulty = any(o.get('form') == 'faulty' for o in c['o'].values())
        if faulty and out[0] == 'ok' and fn == 'canon':
            return      # the failing value was not needed
        run.check(out[0] == 'exc', 'accepted', '%s: accepted %r' % (
            what, c['o']))
        return
    if fn in ('vectors',) and len(ref) > 10:
        return
    if out[0] == 'exc':
        return run.violate('fails', '%s: %r' % (what, out[1:]))
    if out[1][0] == 'parts':
        return parts(run, what, kind, ref, c, out[1])
    if out[1][0] == 'gains':
        x = next(k for k in c['o'] if k in ('v', 'g') and 'a' in c['o'][k])
        for ax, k in zip(out[1][1], GAINS):
            want = [p[k] for p in ref]
            if len(ax) != 1 or not np.allclose(ax[0][0], [p[x] for p in ref]) \
                    or not np.allclose(ax[0][1], want):
                return run.violate('wrong', '%s: %s drawn as %r instead of '
                                   '%r' % (what, k, ax, want))
        return
    if out[1][0] == 'vectors':
        return vectors(run, what, kind, ref, out[1][1])
    got = out[1][1]
    if fn == 'canon':
        names = ['M', 'C1', 'K0', 'K2']
        want = [model.canonical(p) for p in ref]
        lead = lead and any(k in WHIPPLE and 'a' in o for k, o in
                            c['o'].items())
        if not lead:
            want = want[:1]
    elif fn == 'ss':
        names = ['A', 'B']
        want = [system(kind, p) for p in ref]
    else:
        return eigen(run, what, kind, ref, lead, fn == 'left', got)
    for n, x in enumerate(names):
        w = np.array([r[n] for r in want])
        if not lead:
            w = w[0]
        d = p07.off(got[n], w, 1e-9)
        if d:
            return run.violate('wrong', '%s: %s is %s' % (what, x, d))


def eigen(run, what, kind, ref, lead, left, got):
    ev, vec = got
    n = 12 if kind == 'lean' else 4
    shape = (len(ref), n) if lead else (n,)
    if ev.shape != shape or vec.shape != shape + (n,):
        return run.violate('wrong', '%s: shapes %s, %s' % (
            what, ev.shape, vec.shape))
    if not lead:
        ev, vec = ev[None], vec[None]
    for i, p in enumerate(ref):
        A = system(kind, p)[0]
        if left:
            A = A.T
        tol = 1e-2 if kind == 'lean' else 1e-4
        if not model.same_set(ev[i], np.linalg.eigvals(A), tol):
            return run.violate('wrong', '%s: row %d: eigenvalues %s instead '
                               'of %s' % (what, i, ev[i].tolist(),
                                          np.linalg.eigvals(A).tolist()))
        R = np.abs(A @ vec[i] - vec[i] * ev[i]).max()
        if R > 1e-7 * max(1., np.abs(A).max()) or np.any(np.abs(
                np.linalg.norm(vec[i], axis=0) - 1) > 1e-6):
            return run.violate('wrong', '%s: row %d: vectors do not belong '
                               'to the values' % (what, i))


def parts(run, what, kind, ref, c, out):
    _, lines, shade = out
    x = next(k for k in c['o'] if 'a' in c['o'][k])
    xs = [p[x] for p in ref]
    ev = [np.linalg.eigvals(system(kind, p)[0]) for p in ref]
    n = len(ev[0])
    for l in lines:
        if len(l[2]) != len(xs) or not np.allclose(l[2], xs):
            return run.violate('wrong', '%s: drawn over %s' % (what, l[2]))
    if c['sort']:
        re = [l for l in lines if l[0] == '-']
        im = [l for l in lines if l[0] != '-']
    else:
        re = [l for l in lines if l[1] == 'black']
        im = [l for l in lines if l[1] != 'black']
    if len(re) != n or len(im) != n:
        return run.violate('wrong', '%s: %d real and %d imaginary lines' % (
            what, len(re), len(im)))
    if kind != 'lean':
        for i in range(len(xs)):
            got = [complex(a[3][i], b[3][i]) for a, b in zip(re, im)]
            want = ev[i].real + 1j * np.abs(ev[i].imag)
            if not model.same_set(got, want, 1e-4):
                return run.violate('wrong', '%s: at %s = %g drawn %s instead '
                                   'of %s' % (what, x, xs[i], got,
                                              want.tolist()))
        top = [e.real.max() for e in ev]
        if c['stable']:
            for i in range(len(xs)):
                inside = any(a < xs[i] < b for a, b in shade)
                if top[i] > 1e-6 and inside:
                    return run.violate('wrong', '%s: unstable at %g but '
                                       'shaded %r' % (what, xs[i], shade))
                if i and top[i] < -1e-6 and top[i - 1] < -1e-6:
                    mid = (xs[i] + xs[i - 1]) / 2
                    if not any(a <= mid <= b for a, b in shade):
                        return run.violate('wrong', '%s: stable at %g but '
                                           'shaded %r' % (what, mid, shade))
        elif shade:
            run.violate('wrong', '%s: shaded though not asked for' % what)


def vectors(run, what, kind, ref, axes):
    if len(axes) != len(ref):
        return run.violate('wrong', '%s: %d rows for %d values' % (
            what, len(axes), len(ref)))
    for i, p in enumerate(ref):
        A = system(kind, p)[0]
        vals = []
        if len(axes[i]) != len(A):
            return run.violate('wrong', '%s: %d columns' % (what,
                                                            len(axes[i])))
        for lines in axes[i]:
            if len(lines) != len(A):
                return run.violate('wrong', '%s: %d components' % (
                    what, len(lines)))
            v = np.array([r * np.exp(1j * t) for t, r in lines])
            lam = np.vdot(v, A @ v) / np.vdot(v, v)
            vals.append(lam)
            if abs(np.abs(v).max() - 1) > 1e-6 or np.abs(
                    A @ v - lam * v).max() > 1e-6 * max(1., np.abs(A).max()):
                return run.violate('wrong', '%s: row %d: %s is not an '
                                   'eigenvector' % (what, i, lines))
        if kind != 'lean' and not model.same_set(vals, np.linalg.eigvals(A),
                                                 1e-4):
            return run.violate('wrong', '%s: row %d: vectors of %s' % (
                what, i, vals))


def sig(c):
    return (c['fn'], tuple(sorted((k, o['form'], 'a' in o) for k, o in
                                  c['o'].items())))


def execute(run, plan):
    root = run.root
    if plan['conc']:
        s = run.phase(threads, root, plan)
        machine.account(run, s)
        run.steps += s.lines
        run.note('switches', s.switches)
        run.probe('concurrent-runs')
        run.probe('switches', len(s.switches))
        run.check(s.snaps[0] == s.snaps[1], 'leak', 'threads changed the '
                  'parameters: %r' % diff(*s.snaps))
        run.check(not s.args, 'argument', 'threads changed the overrides')
        for i, t in enumerate(plan['threads']):
            for n, c in enumerate(t):
                m = plan['models'][c['m']]
                judge(run, 'thread %d, call %d' % (i, n), m['kind'],
                      plan['sets'][m['set']]['par'], c, s.results[i][n])
                run.probe('calls')
                run.state('t', m['kind'], sig(c))
        run.state('sw', tuple(s.switches)[:6])
        return
    s = run.phase(history, root, plan)
    machine.account(run, s)
    failed = 0
    par = [dict(x['par']) for x in plan['sets']]
    # a model of a converted set works on its own copy of the parameters
    own = {}
    for j, m in enumerate(plan['models']):
        if m['kind'] != plan['sets'][m['set']]['kind']:
            own[j] = dict(par[m['set']])
    for i, op in enumerate(plan['ops']):
        before, after = s.snaps[i], s.snaps[i + 1]
        if op['op'] == 'edit':
            par[op['set']][op['key']] = op['val']
            continue
        run.check(before == after, 'leak', 'call %d (%s with %s) changed the '
                  'parameters: %r' % (i, op['fn'], sorted(op['o']),
                                      diff(before, after)))
        run.check(i not in s.args, 'argument', 'call %d (%s with %s) changed '
                  'its arguments' % (i, op['fn'], sorted(op['o'])))
        out, fired = s.results[i]
        m = plan['models'][op['m']]
        p = own.get(op['m'], par[m['set']])
        if fired:
            run.fault(op['abort'][1])
            failed += 1
        if not (fired and out[0] == 'exc'):
            judge(run, 'call %d' % i, m['kind'], p, op, out)
        if out[0] == 'exc' and not fired:
            failed += 1
            run.probe('refused')
            if any(o['form'] == 'faulty' for o in op['o'].values()):
                run.fault('failing-input')
        run.probe('calls')
        run.note(i, m['kind'], op['fn'], p07._short(
            (out[0], out[1][1]) if out[0] == 'ok' else out))
        run.state(m['kind'], sig(op), out[0], min(failed, 3))
        if run.violations:
            return
    run.check(not s.stale, 'aliasing', 'changed after the call: %r' %
              s.stale)


def diff(a, b):
    return [(k, x.get(k), y.get(k)) for x, y in zip(a, b)
            for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)]


_ = gen
