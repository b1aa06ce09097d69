"""P14: plotting draws only on its own figure and leaks nothing."""
import os
import shutil

import numpy as np

from .. import core, env, gen, machine, rig, sched
from . import p02, p08

ID = 'P14'
RUNS = {'quick': 750, 'thorough': 12000}
LEVEL = 'seeded search over histories of plotting calls of all entry ' \
    'points, failing calls, failing allocations and plot files, user ' \
    'drawings and settings in between; every figure is compared with the ' \
    'one its own calls alone produce in a fresh process'
RULE = 'a run is non-trivial when a plotting call ran with another figure ' \
    'open; counted by distinct (call, target, outcome, open figures, ' \
    'settings, fault) tuples'
STATE_MEASURE = 'distinct (entry point, new, own or shared axes, outcome, ' \
    'open figures, user settings, fault, earlier failure) tuples'
REAL = ['all plotting functions', 'models, parameter sets and bicycles',
        'matplotlib (Agg)', 'period fit']
STUB = ['disk under the plot files', 'failing allocations', 'rasterizer of '
        'the fit plots in most runs']
ASSUMPTIONS = ['one thread plots', 'a figure given to a call has the axes '
               'the call needs']
SHRINK = ['ops']

NS = None


def setup():
    global NS
    NS = env.load()
    import matplotlib.pyplot as plt
    plt.close(plt.figure())


# -- plans --------------------------------------------------------------------

PSET = ['plot_geometry', 'plot_mass_centers', 'plot_principal_radii_of_'
        'gyration', 'plot_principal_inertia_ellipsoids', 'plot_all']
PBODY = ['plot_body_mass_center', 'plot_body_principal_radii_of_gyration',
         'plot_body_principal_inertia_ellipsoid']
BODIES = {'whipple': 'BFHR', 'feedback': 'BFHR', 'moore': 'DFHPR'}
RC = [{'font.size': 13.}, {'lines.linewidth': 3.}, {'axes.grid': True},
      {'legend.fontsize': 'large'}, {'xtick.labelsize': 14.},
      {'axes.labelsize': 11.}, {'figure.figsize': [9., 3.]},
      {'figure.facecolor': 'lightgray'}, {'axes.titlesize': 7.},
      {'lines.linestyle': ':'}, {'legend.frameon': False}]


def call(rng, plan):
    r = rng.random()
    c = {}
    n = rng.choice([2, 5, 11])
    if r < .30:
        c['fn'] = rng.choice(['geometry', 'eigplot', 'eigplot', 'bode',
                              'cmpspeeds', 'cmpbikes', 'ploteig', 'ploteig'])
        c['bike'] = rng.randint(0, 1)
        c['flags'] = [rng.random() < .7 for _ in range(4)]
        c['v'] = sorted(rng.uniform(0, 10) for _ in range(n))
        c['mode'] = rng.choice(['modes', 'modes', 'generic', 'largest'])
        c['color'] = rng.choice(['black', 'red'])
        c['uy'] = [rng.randint(0, 1), rng.randint(0, 3)]
        c['label'] = rng.choice([None, 'a'])
    elif r < .62:
        c['fn'] = rng.choice(['parts', 'parts', 'vectors', 'modesim', 'sim',
                              'sim', 'gains', 'ctrb'])
        c['model'] = rng.choice(['whipple', 'whipple', 'feedback', 'feedback',
                                 'lean'])
        if c['fn'] in ('gains', 'ctrb'):
            c['model'] = 'feedback' if c['fn'] == 'gains' else rng.choice(
                ['whipple', 'feedback'])
        c['v'] = sorted(rng.uniform(0.2, 10) for _ in range(n))
        c['hide'] = rng.random() < .25
        c['sort'] = rng.random() < .8
        c['n'] = rng.choice([2, 7, 21])
        c['x0'] = [rng.uniform(-.1, .1) for _ in range(12)]
        c['ctl'] = rng.choice(['none', 'feedback', 'draws', 'draws'])
        c['acute'] = rng.random() < .5
    elif r < .92:
        c['model'] = rng.choice(['whipple', 'feedback', 'moore', 'moore'])
        c['fn'] = 'pset'
        c['how'] = rng.choice(PSET + PBODY)
        if c['model'] == 'moore' and rng.random() < .2:
            c['how'] = 'plot_person_diamond'
        bodies = BODIES[c['model']]
        c['body'] = rng.choice(bodies)
        c['bodies'] = rng.choice([None, rng.sample(bodies, 2)])
        c['steer'] = rng.random() < .6
    else:
        c['fn'] = 'osfit'
        c['T'] = rng.uniform(.5, 2.)
        c['m'] = rng.choice([None, 3.])
    if rng.random() < .1:
        c['bad'] = True
    if rng.random() < .07:
        c['abort'] = rng.choice([rng.randint(1, 40), rng.randint(1, 400)])
    return c


def generate(rng, tier, index):
    plan = {}
    p = rig.true_bike(rng)
    if rng.random() < .3:
        p = rig.split_fork(p, rng)
    plan['alpha'] = gen.enc(rng, p, rng.choice([0., 1.]))
    q = rig.true_bike(rng)
    if rng.random() < .4:
        q = rig.split_fork(q, rng)
    mp, T = rig.measure(q, rng, norient=rng.choice([3, 4]))
    mp.update(T)
    plan['bravo'] = ['%s = %r' % kv for kv in sorted(mp.items())]
    plan['real'] = rng.random() < .06
    plan['par'] = {k: p08.values(rng, k) for k in ('whipple', 'feedback',
                                                   'lean')}
    plan['moore'] = [rng.uniform(.9, 1.1) for _ in range(60)]
    plan['raster'] = rng.random() < .2
    ops = []
    kinds = ['one', 'one', 'two', 'two', 'grid', 'bare']
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        ops.append({'op': 'fig', 'kind': rng.choice(kinds)})
    if rng.random() < .35:
        ops.insert(0, {'op': 'rc', 'd': rng.choice(RC)})
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        past = [o for o in ops if o['op'] == 'call']
        if past and rng.random() < .25:
            # the same function again, mostly on a new figure
            c = dict(rng.choice(past)['c'])
            for k in ('bad', 'abort'):
                c.pop(k, None)
            if 'v' in c:
                c['v'] = sorted(rng.uniform(.2, 10) for _ in c['v'])
            ops.append({'op': 'call', 'c': c, 'to': rng.choice(
                [None, None, None, rng.randint(0, 9)]),
                'ax': rng.randint(0, 9)})
        elif r < .6:
            ops.append({'op': 'call', 'c': call(rng, plan),
                        'to': rng.choice([None, None, rng.randint(0, 9)]),
                        'ax': rng.randint(0, 9)})
        elif r < .74:
            ops.append({'op': 'draw', 'fig': rng.choice(
                [None, None, rng.randint(0, 9)]), 'ax': rng.randint(0, 9),
                'y': [rng.uniform(-1, 3) for _ in range(4)]})
        elif r < .79:
            ops.append({'op': 'fig', 'kind': rng.choice(kinds)})
        elif r < .83:
            ops.append({'op': 'select', 'fig': rng.randint(0, 9),
                        'ax': rng.randint(0, 9)})
        elif r < .87:
            ops.append({'op': 'close', 'fig': rng.randint(0, 9)})
        elif r < .9:
            ops.append({'op': 'rc', 'd': rng.choice(RC)})
        elif r < .93:
            ops.append({'op': 'set', 'k': rng.choice(['mB', 'zB', 'w']),
                        'f': rng.uniform(.9, 1.1)})
        else:
            s = p02.spec(rng, 'TcB1', rng.uniform(.6, 2.))
            s['rate'], s['seconds'] = 100, 8.
            ops.append({'op': 'period', 'spec': s, 'again': rng.random() < .4,
                        'fault': rng.choice([None, None, 'error', 'error',
                                             'dir']), 'k': rng.randint(0, 40),
                        'a': rng.randint(0, 9)})
    plan['ops'] = ops
    return plan


# -- figures --------------------------------------------------------------------


def num(x):
    return np.array(np.ma.filled(np.ma.asarray(x, dtype=float), np.nan),
                    dtype=float)


def col(c):
    return str(c) if isinstance(c, str) else [round(float(x), 6) for x in
                                              np.ravel(c)]


def text(t):
    return [t.get_text(), col(t.get_color()), round(float(t.get_fontsize()),
                                                    4),
            [float(x) for x in t.get_position()]]


def digest_axes(ax):
    d = {'kind': type(ax).__name__}
    d['title'] = text(ax.title)[:3]
    d['labels'] = [text(ax.xaxis.label)[:3], text(ax.yaxis.label)[:3]]
    d['lim'] = [num(ax.get_xlim()), num(ax.get_ylim())]
    d['scale'] = [ax.get_xscale(), ax.get_yscale(), str(ax.get_aspect())]
    d['auto'] = [bool(ax.get_autoscalex_on()), bool(ax.get_autoscaley_on())]
    d['grid'] = [bool(a._major_tick_kw.get('gridOn', False))
                 for a in (ax.xaxis, ax.yaxis)]
    d['ticks'] = [float(a._get_tick_label_size(n)) for n, a in
                  (('x', ax.xaxis), ('y', ax.yaxis))]
    d['face'] = col(ax.get_facecolor())
    d['lines'] = [[num(l.get_xdata()), num(l.get_ydata()), col(l.get_color()),
                   str(l.get_linestyle()), float(l.get_linewidth()),
                   str(l.get_marker()), float(l.get_markersize()),
                   str(l.get_label()), bool(l.get_visible())]
                  for l in ax.lines]
    d['patches'] = [[type(q).__name__, num(q.get_path().vertices),
                     num(q.get_patch_transform().get_matrix()),
                     col(q.get_edgecolor()), col(q.get_facecolor()),
                     str(q.get_linestyle()), float(q.get_linewidth()),
                     str(q.get_label())] for q in ax.patches]
    d['collections'] = [[[num(path.vertices) for path in c.get_paths()],
                         col(c.get_facecolor())] for c in ax.collections]
    d['texts'] = [text(t) for t in ax.texts]
    leg = ax.get_legend()
    d['legend'] = None if leg is None else [text(t)[:3] for t in
                                            leg.get_texts()]
    return d


def digest(fig):
    cur = fig._axstack.current()
    d = {'size': num(fig.get_size_inches()), 'face': col(fig.get_facecolor()),
         'current': fig.axes.index(cur) if cur in fig.axes else None,
         'sup': fig.get_suptitle(), 'texts': [text(t) for t in fig.texts],
         'axes': []}
    for ax in fig.axes:
        d['axes'].append(digest_axes(ax))
    return d


def differ(a, b, tol, path=''):
    """The first difference of two digests, or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return '%s: %s values, not %s' % (path, a.shape, b.shape)
        with np.errstate(all='ignore'):
            ok = (a == b) | (np.isnan(a) & np.isnan(b))
            if tol:
                fin = np.abs(b[np.isfinite(b)])
                sc = 1. + (fin.max() if fin.size else 0.)
                ok |= np.abs(a - b) <= tol * sc
        if not ok.all():
            i = int(np.argmin(ok.ravel()))
            return '%s: %r, not %r' % (path, float(a.ravel()[i]),
                                       float(b.ravel()[i]))
        return None
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and
                                       isinstance(b, (int, float))):
        return '%s: %r, not %r' % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s' % (path, k)
            r = differ(a[k], b[k], tol, '%s.%s' % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d items, not %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, tol, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if isinstance(a, float) or isinstance(b, float):
        if abs(a - b) <= tol * (1. + abs(b)) or a == b or (a != a and b != b):
            return None
        return '%s: %r, not %r' % (path, a, b)
    return None if a == b else '%s: %r, not %r' % (path, a, b)


def settings():
    import matplotlib
    return {k: repr(v) for k, v in dict.items(matplotlib.rcParams)
            if k not in ('backend', 'backend_fallback')}


# -- the world ------------------------------------------------------------------


class World(object):
    def __init__(self, root, plan):
        self.plan = plan
        data = os.path.join(root, 'data')
        bike = NS.bp.Bicycle
        self.bikes = [bike('Alpha', data),
                      bike('Bravo', data, forceRawCalc=True)]
        if plan['real']:
            b = bike('Browser', data, forceRawCalc=True)
            b.add_rider('Jason', reCalc=True)
            self.bikes[0] = b
        ps, ms = NS.parameter_sets, NS.models
        par = {k: dict(v) for k, v in plan['par'].items()}
        w = ps.Meijaard2007ParameterSet(par['whipple'], True)
        f = ps.Meijaard2007WithFeedbackParameterSet(par['feedback'], True)
        l = ps.MooreRiderLean2012ParameterSet(par['lean'])
        from bicycleparameters import parameter_dicts as pd
        base = dict(pd.moore2019_browser_jason)
        m = {k: v * fac for (k, v), fac in zip(sorted(base.items()),
                                              plan['moore'])}
        m['g'] = 9.81
        self.sets = {'whipple': w, 'feedback': f, 'lean': l,
                     'moore': ps.Moore2019ParameterSet(m)}
        self.models = {'whipple': ms.Meijaard2007Model(w),
                       'feedback': ms.Meijaard2007WithFeedbackModel(f),
                       'lean': ms.MooreRiderLean2012Model(l)}


FIGFN = {'eigplot': 1, 'bode': 2, 'cmpspeeds': 2, 'cmpbikes': 2, 'osfit': 1}
AXFN = ('parts', 'pset')


def plot(w, c, fig, ax, axes, draws):
    """One plotting call.  Returns the figure that the caller gets back."""
    fn = c['fn']
    bad = bool(c.get('bad'))
    if fn in ('geometry', 'eigplot', 'bode', 'cmpspeeds', 'cmpbikes',
              'ploteig'):
        b = w.bikes[c['bike']]
        kw = {} if fig is None else {'fig': fig}
        if fn == 'geometry':
            if bad:
                old = b.parameters['Benchmark']
                b.parameters['Benchmark'] = {k: v for k, v in old.items()
                                             if k != 'zH'}
                try:
                    return b.plot_bicycle_geometry(show=False)
                finally:
                    b.parameters['Benchmark'] = old
            return b.plot_bicycle_geometry(show=False, pendulum=c['flags'][0],
                                           centerOfMass=c['flags'][1],
                                           inertiaEllipse=c['flags'][2])
        if fn == 'eigplot':
            if c['mode'] != 'modes':
                kw[c['mode']] = True
            return b.plot_eigenvalues_vs_speed(
                'slow' if bad else c['v'], color=c['color'],
                grid=c['flags'][0], show_legend=c['flags'][1], **kw)
        if fn == 'bode':
            if c['label']:
                kw['label'] = c['label']
            return b.plot_bode(c['v'][0] + .1, 7 if bad else c['uy'][0],
                               c['uy'][1], **kw)[2]
        if fn == 'cmpspeeds':
            return b.compare_bode_speeds([v + .1 for v in c['v'][:2]],
                                         7 if bad else c['uy'][0],
                                         c['uy'][1], **kw)
        if fn == 'cmpbikes':
            return NS.plot.compare_bode_bicycles(
                w.bikes, c['v'][0] + .1, 7 if bad else c['uy'][0],
                c['uy'][1], **kw)
        bikes = [] if bad else w.bikes[::-1 if c['bike'] else 1]
        kw = {}
        if c['flags'][0]:
            kw['colors'] = ['red', 'blue']
        if c['flags'][1]:
            kw['linestyles'] = ['-', ':']
        return NS.plot.plot_eigenvalues(bikes, np.array(c['v']),
                                        largest=c['mode'] == 'largest', **kw)
    if fn == 'osfit':
        t = np.linspace(0., 4., 80)
        y = np.sin(2 * np.pi / c['T'] * t)
        return NS.period.plot_osfit(t, y, y * 1.01, [0., 1., 0., .01],
                                    .99, c['T'], m=c['m'], fig=fig) if bad \
            else NS.period.plot_osfit(t, y, y * 1.01,
                                      [0., 1., 0., .01, 4.], .99, c['T'],
                                      m=c['m'], fig=fig)
    if fn == 'pset':
        s = w.sets[c['model']]
        kw = {} if ax is None else {'ax': ax}
        how = c['how']
        if how.startswith('plot_body'):
            r = getattr(s, how)('Q' if bad else c['body'], **kw)
        elif how == 'plot_geometry':
            r = s.plot_geometry(show_steer_axis=c['steer'], **kw)
        elif how == 'plot_person_diamond':
            r = s.plot_person_diamond(show_cross=c['steer'], **kw)
        elif how == 'plot_all':
            r = s.plot_all(**kw)
        else:
            if bad:
                kw['bodies'] = ['F', 'Q']
            elif c['bodies']:
                kw['bodies'] = c['bodies']
            r = getattr(s, how)(**kw)
        return r.figure
    m = w.models[c['model']]
    v = c['v'][0]
    if fn == 'parts':
        kw = {'nonsense' if bad else 'v': np.array(c['v'])}
        if ax is not None:
            kw['ax'] = ax
        return m.plot_eigenvalue_parts(hide_zeros=c['hide'],
                                       sort_modes=c['sort'], **kw).figure
    if fn == 'vectors':
        vs = [1. * i for i in range(12)] if bad else c['v'][:2]
        r = m.plot_eigenvectors(hide_zeros=c['hide'], v=vs)
        return np.atleast_2d(r)[0, 0].figure
    if fn == 'gains':
        kw = {'kTdel_phid': np.linspace(0., 4., len(c['v']))}
        if not bad:
            kw['v'] = np.array(c['v'])
        if axes is not None:
            kw['axes'] = axes
        return m.plot_gains(**kw)[0, 0].figure
    if fn == 'ctrb':
        return m._plot_modal_controllability(
            acute=c['acute'], v=np.array(c['v']))[0, 0].figure
    t = np.linspace(0., .4, c['n'])
    if fn == 'modesim':
        r = m.plot_mode_simulations(t[::-1] if bad else t, v=v)
        return np.atleast_2d(r)[0, 0].figure
    n = len(m.state_vars)
    nu = len(m.input_vars)
    calls = []

    def ctl(t, x):
        if not calls and draws is not None:
            draws()
        calls.append(t)
        if bad and t > .2:
            raise ValueError('broken controller')
        if c['ctl'] == 'none':
            return np.zeros(nu)
        u = np.zeros(nu)
        u[1] = -2. * x[n // 2]
        return u
    r = m.plot_simulation(t, np.array(c['x0'][:n]), input_func=ctl, v=v)
    return r[0].figure


def user_figure(kind):
    import matplotlib.pyplot as plt
    if kind == 'bare':
        return plt.figure()
    if kind == 'one':
        fig, ax = plt.subplots()
        ax.plot([0., 1., 2.], [1., 0., 2.], label='mine')
        ax.set_title('My figure')
        ax.legend()
    elif kind == 'two':
        fig, ax = plt.subplots(2, 1)
        ax[1].plot([1., 5.], [2., 3.], 'r--')
        ax[0].set_ylim((-3., 8.))
    else:
        fig, ax = plt.subplots(2, 4)
        ax[1, 2].set_xlabel('mine')
    return fig


def pick(figs, i, ok):
    """A live figure that fits."""
    names = [n for n in figs if ok(figs[n])]
    return names[i % len(names)] if names else None


def kept(fig):
    """What was drawn on a figure before, by identity."""
    return [(ax, [(a, None if not hasattr(a, 'get_xydata') else
                   np.array(a.get_xydata(), float)) for a in
                  list(ax.lines) + list(ax.patches) + list(ax.texts) +
                  list(ax.collections) + list(ax.images)])
            for ax in fig.axes]


def lost(fig, old):
    """What of it is gone or altered, or None."""
    for n, (ax, artists) in enumerate(old):
        if not any(x is ax for x in fig.axes):
            return 'axes %d are gone' % n
        now = {id(a) for a in ax.get_children()}
        for a, xy in artists:
            if id(a) not in now:
                return 'a %s on axes %d is gone' % (type(a).__name__, n)
            if xy is not None and not np.array_equal(
                    xy, np.array(a.get_xydata(), float), equal_nan=True):
                return 'a line on axes %d has other data' % n
    return None


def flat(fig):
    return [a for a in fig.axes if type(a).__name__ == 'Axes']


def run_ops(root, plan, ops, only, targets, faults):
    """Executes ops on a fresh world.  In a projection (only is a figure
    name) each op comes with the target it had in the whole history."""
    import matplotlib.pyplot as plt
    out = {'steps': [], 'bad': None, 'final': {}, 'live': []}

    def body(ctx):
        w = World(root, plan)
        figs = {}
        if not plan['raster']:
            p02.stub_savefig()

        def shot():
            return {n: digest(f) for n, f in figs.items()}

        def complain(kind, msg):
            if out['bad'] is None:
                out['bad'] = (kind, msg)
        for i, op in ops:
            k = op['op']
            rec = {'i': i, 'target': None, 'ax': None, 'new': None,
                   'out': None, 'touch': [], 'tainted': False}
            out['steps'].append(rec)
            tgt = targets.get(i) if targets is not None else None
            if k == 'fig':
                name = 'u%d' % i
                figs[name] = user_figure(op['kind'])
                rec['new'] = name
                rec['touch'] = [name]
                digest(figs[name])
                continue
            if k == 'rc':
                plt.rcParams.update(op['d'])
                continue
            if k == 'set':
                b = w.bikes[0].parameters['Benchmark']
                b[op['k']] = b[op['k']] * op['f']
                continue
            if k == 'select':
                n = tgt['target'] if tgt else pick(figs, op['fig'],
                                                   lambda f: f.axes)
                if n in figs:
                    rec['target'] = n
                    rec['touch'] = [n]
                    plt.figure(figs[n].number)
                    plt.sca(figs[n].axes[op['ax'] % len(figs[n].axes)])
                continue
            if k == 'close':
                n = tgt['target'] if tgt else pick(figs, op['fig'],
                                                   lambda f: True)
                if n in figs:
                    rec['target'] = n
                    plt.close(figs.pop(n))
                continue
            if k == 'draw':
                if tgt:
                    n = tgt['target']
                elif op['fig'] is None:
                    # on the current figure, by the book
                    n = None
                    if plt.get_fignums():
                        g = plt.gcf()
                        n = [x for x in figs if figs[x] is g]
                        n = n[0] if n else None
                else:
                    n = pick(figs, op['fig'], flat)
                rec['target'] = n
                if n is None:
                    continue
                rec['touch'] = [n]
                if op['fig'] is None:
                    if tgt:
                        plt.figure(figs[n].number)
                    plt.plot(op['y'], label='user')
                else:
                    ax = flat(figs[n])
                    ax[op['ax'] % len(ax)].plot(op['y'], 'g.-')
                digest(figs[n])
                continue
            # calls of the package
            before = shot()
            rc0 = settings()
            cur0 = plt.gcf().number if plt.get_fignums() else None
            open0 = set(plt.get_fignums())
            if k == 'period':
                path = os.path.join(root, 'data', 'plots',
                                    'fit.png' if op['again'] else
                                    'fit%d.png' % i)
                with ctx.fs.hidden():
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    if op['fault'] == 'dir' and not os.path.exists(path):
                        os.mkdir(path)
                _, d = rig.recording(op['spec'])
                res = ctx.op('s%d' % i, lambda: float(
                    NS.period.get_period(np.ravel(d['data']),
                                         float(op['spec']['rate']),
                                         path).nominal_value))
                rec['out'] = res[:2]
                if set(plt.get_fignums()) != open0:
                    complain('leak', 'get_period (%s) left the open figures '
                             '%s, before: %s' % (
                                 res[:2], sorted(plt.get_fignums()),
                                 sorted(open0)))
                check(before, shot(), (), complain, 'get_period')
            else:
                c = op['c']
                fn = c['fn']
                fig = ax = axes = None
                n = None
                if targets is not None:
                    n = tgt['target']
                elif op['to'] is not None:
                    if fn in FIGFN:
                        need = FIGFN[fn]
                        n = pick(figs, op['to'],
                                 lambda f: len(flat(f)) == need or
                                 need == 1 and len(flat(f)) == 2 and
                                 fn != 'osfit')
                    elif fn in AXFN:
                        n = pick(figs, op['to'], flat)
                    elif fn == 'gains':
                        n = pick(figs, op['to'],
                                 lambda f: len(flat(f)) == 8)
                rec['target'] = n
                others = []
                if n is not None:
                    rec['touch'] = [n]
                    if fn in FIGFN:
                        fig = figs[n]
                    elif fn in AXFN:
                        al = flat(figs[n])
                        ax = al[op['ax'] % len(al)]
                        others = [j for j, a in enumerate(figs[n].axes)
                                  if a is not ax and not any(
                                      g.joined(a, ax) for g in (
                                          ax.get_shared_x_axes(),
                                          ax.get_shared_y_axes()))]
                    else:
                        axes = np.array(flat(figs[n])).reshape(2, 4)
                draws = None
                if c.get('ctl') == 'draws' and only is None and cur0:
                    g = [x for x in figs if figs[x].number == cur0]
                    if g:
                        def draws():
                            plt.plot([0., 1.], [1., 1.], label='live')
                            rec['drawn'] = g[0]
                        # the drawing belongs to the user's figure
                if tgt and tgt.get('drawn') == only and only in figs and \
                        tgt['new'] != only:
                    # in the projection only the drawing matters
                    plt.figure(figs[only].number)
                    plt.plot([0., 1.], [1., 1.], label='live')
                    rec['touch'] = [only]
                    digest(figs[only])
                    continue
                mine = kept(figs[n]) if n is not None else None
                ab = None
                if c.get('abort'):
                    ab = sched.Abort(env.PKG, c['abort'], MemoryError)
                if ab:
                    res = ctx.op('s%d' % i, lambda: ab(plot, w, c, fig, ax,
                                                       axes, draws))
                else:
                    res = ctx.op('s%d' % i, plot, w, c, fig, ax, axes, draws)
                what = describe(op)
                new = None
                if res[0] == 'ok':
                    got = res[1]
                    ctx.s.ops['s%d' % i] = ('ok',)
                    if n is None:
                        if got.number in open0:
                            complain('shared', '%s returned a figure that '
                                     'was open before' % what)
                        new = 'r%d' % i
                        figs[new] = got
                        rec['new'] = new
                        rec['touch'] = [new]
                    elif got is not figs[n]:
                        complain('other', '%s did not return the figure it '
                                 'was given' % what)
                rec['out'] = res[:2] if res[0] == 'exc' else ('ok', None)
                rec['tainted'] = bool(ab and ab.fired)
                opened = set(plt.get_fignums()) - open0
                if res[0] == 'ok':
                    if opened != ({figs[new].number} if new else set()) or \
                            open0 - set(plt.get_fignums()):
                        complain('leak', '%s: open figures %s, before %s' % (
                            what, sorted(plt.get_fignums()), sorted(open0)))
                cur1 = plt.gcf().number if plt.get_fignums() else None
                if cur1 != cur0 and cur1 not in opened:
                    complain('current', '%s made another figure of the '
                             'caller current' % what)
                if res[0] == 'exc':
                    for f in opened:
                        plt.close(f)
                skip = [n] if n else []
                if rec.get('drawn'):
                    skip.append(rec['drawn'])
                after = shot()
                check(before, after, skip, complain, what)
                if mine is not None:
                    r = lost(figs[n], mine)
                    if r:
                        complain('lost', '%s: %s' % (what, r))
                if others:
                    for j in others:
                        r = differ(after[n]['axes'][j], before[n]['axes'][j],
                                   0.)
                        if r:
                            complain('other-axes', '%s changed other axes of '
                                     'the figure: %s' % (what, r))
            if settings() != rc0:
                a, b = settings(), rc0
                complain('settings', '%s changed the plot settings %s' % (
                    k if k == 'period' else describe(op),
                    {q: (b.get(q), a[q]) for q in a if a[q] != b.get(q)}))
            if out['bad']:
                break
        out['final'] = shot()
        out['live'] = sorted(figs)
    s = machine.session(root, body, faults, [])
    return out, s


def check(before, after, skip, complain, what):
    for n, d in before.items():
        if n in skip:
            continue
        if n not in after:
            complain('closed', '%s closed figure %s' % (what, n))
            continue
        r = differ(after[n], d, 0.)
        if r:
            complain('crosstalk', '%s changed figure %s: %s' % (what, n, r))


def describe(op):
    c = op['c']
    return '%s%s%s%s' % (c.get('how', c['fn']),
                         ' of ' + c['model'] if 'model' in c else '',
                         ' on a given figure' if op['to'] is not None else '',
                         ' (failing)' if c.get('bad') or c.get('abort')
                         else '')


def build(root, plan):
    data = os.path.join(root, 'data')
    machine.put(os.path.join(data, 'bicycles', 'Alpha', 'Parameters',
                             'AlphaBenchmark.txt'), gen.text(plan['alpha']))
    machine.put(os.path.join(data, 'bicycles', 'Bravo', 'RawData',
                             'BravoMeasured.txt'),
                '\n'.join(plan['bravo']) + '\n')
    if plan['real']:
        src = os.path.join(env.REPO, 'data')
        for a, b in (('bicycles/Browser/RawData', 'BrowserMeasured.txt'),
                     ('riders/Jason/RawData', 'JasonYeadonMeas.txt'),
                     ('riders/Jason/RawData', 'JasonBrowserYeadonCFG.txt')):
            d = os.path.join(data, a)
            os.makedirs(d, exist_ok=True)
            shutil.copy(os.path.join(src, a, b), d)


def execute(run, plan):
    root = os.path.join(run.root, 'm')
    build(root, plan)
    ops = list(enumerate(plan['ops']))
    faults = [{'op': 's%d' % i, 'proc': 'p0', 'k': o['k'] % 6,
               'mode': 'error', 'a': o['a'], 'b': 0, 'c': 0, 'sticky': False}
              for i, o in ops if o['op'] == 'period' and
              o['fault'] == 'error']
    res, s = run.phase(run_ops, root, plan, ops, None, None, faults)
    machine.account(run, s)
    nfig = 0
    failed = False
    for rec in res['steps']:
        op = plan['ops'][rec['i']]
        if op['op'] in ('call', 'period'):
            c = op.get('c', {})
            run.state(c.get('how', c.get('fn', 'period')), c.get('model'),
                      rec['target'] is not None, rec['out'] and
                      rec['out'][0], min(nfig, 3), failed,
                      op.get('fault'), any(o['op'] == 'rc' for o in
                                           plan['ops']))
            if rec['out'] and rec['out'][0] == 'exc':
                failed = True
            if c.get('abort') and rec['tainted']:
                run.fault('failing-allocation')
            run.probe('calls-beside-other-figures', nfig > 0)
        nfig += rec['new'] is not None
    run.note(repr([(r['i'], r['target'], r['new'], r['out'])
                   for r in res['steps']]))
    if res['bad']:
        run.violate(*res['bad'])
        return
    # valid calls succeed, and a failing plot file is reported
    for rec in res['steps']:
        op = plan['ops'][rec['i']]
        if op['op'] == 'call' and rec['out'] and rec['out'][0] == 'exc' and \
                not op['c'].get('bad') and not rec['tainted']:
            run.violate('refused', '%s failed: %r' % (describe(op),
                                                      rec['out']))
            return
    targets = {r['i']: r for r in res['steps']}
    for name in res['live']:
        keep, taint = [], False
        for i, op in ops:
            r = targets.get(i)
            if r is None:
                continue
            if op['op'] in ('rc', 'set') or name in r['touch'] or \
                    r.get('drawn') == name or r['new'] == name:
                keep.append((i, op))
                taint = taint or r['tainted'] and name in r['touch']
        if taint:
            continue
        alone, _ = run.phase(run_ops, root, plan, keep, name, targets, [])
        if alone['bad']:
            run.violate(*alone['bad'])
            return
        if name not in alone['final']:
            run.violate('alone', 'figure %s appears only after other plots' %
                        name)
            return
        # which axes are current is up to the user's selections
        a, b = dict(res['final'][name]), dict(alone['final'][name])
        d = differ(a, b, 1e-6)
        if d:
            mk = [describe(o) for i, o in keep if o['op'] == 'call']
            run.violate('history', 'figure %s (%s) differs from the one that '
                        'its own calls produce in a fresh process: %s' % (
                            name, ', '.join(mk) or "the user's", d))
            return
        run.probe('figures-compared')
