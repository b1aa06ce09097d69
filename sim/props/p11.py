"""P11: the web app shows the bicycle that its tables describe."""
from .. import core, env, machine, webapp

ID = 'P11'
RUNS = {'quick': 570, 'thorough': 12000}
LEVEL = 'seeded search over histories of user events (load, choose, edit, ' \
    'reset, options, speed range) played by a simulated Dash renderer ' \
    'against the real app, with both orders of trigger reports and separate ' \
    'or chained updates, reading faults in between; after every event the ' \
    'tables and every shape of both plots are compared with an independent ' \
    'reference computed from the tables'
RULE = 'a run is non-trivial when plots were compared after an edit, reset ' \
    'or change of options; counted by distinct (event, event before, ' \
    'bicycle, edited, options, speed range, trigger order) tuples'
STATE_MEASURE = 'distinct (event, previous event, bicycle, edited ' \
    'parameter, options, speed range, trigger order) tuples'
REAL = ['app callbacks and layout', 'Dash and Flask request handling',
        'bicycle loading', 'Plotly figures', 'eigenvalues']
STUB = ['network', 'browser (simulated renderer)', 'clock', 'disk']
ASSUMPTIONS = ['the renderer runs callbacks in dependency order as Dash '
               'specifies', 'edits are physically possible values']
SHRINK = ['ops']

NS = None
OPTS = ['centers', 'ellipse', 'stability']


def setup():
    global NS
    NS = env.load(app=True)
    warm(NS)


def warm(ns):
    c = ns.app.app.server.test_client()
    c.get('/_dash-layout')
    c.get('/_dash-dependencies')
    c.get('/')
    import plotly.graph_objects as go
    go.Figure().to_json()


CELLS = [(t, i, k, p) for t in sorted(webapp.TABLES)
         for i, (_, cols) in enumerate(webapp.TABLES[t])
         for k, p in sorted(cols.items())]


def edit(rng):
    t, i, k, p = rng.choice(CELLS)
    e = {'op': 'edit', 't': t, 'r': i, 'c': k, 'p': p}
    r = rng.random()
    if p == 'lam':
        e['v'] = rng.choice([rng.randint(5, 40), rng.uniform(5., 40.),
                             22.9, 18.5])
    elif p == 'g' and r < .5:
        e['v'] = rng.choice([10, 9.81, 1.62])
    elif p in ('IBxz', 'IHxz', 'c') and r < .2:
        e['v'] = rng.choice([0, 0.])
    elif p in ('mB', 'mR', 'mF', 'mH') and r < .3:
        e['v'] = rng.randint(1, 30)
    elif p[0] == 'm' and r < .4:
        e['f'] = rng.choice([3., 8.])
    elif p in ('xB', 'zB', 'xH', 'zH', 'c', 'IBxz', 'IHxz') and r > .8:
        e['f'] = rng.choice([-1., -.3, -.02])
    else:
        e['f'] = rng.uniform(.8, 1.25)
        e['d'] = rng.choice([3, 4, 9])
    return e


def slider(rng):
    if rng.random() < .2:
        a = 5 * rng.randint(-9, 9)
        return [a, a]
    if rng.random() < .6:
        return sorted(rng.sample([0, 5, 10, 15, 20, -5, -10], 2))
    return sorted(5 * x for x in rng.sample(range(-9, 10), 2))


def generate(rng, tier, index):
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        o = {'order': rng.randint(0, 5)}
        if r < .2:
            o.update({'op': 'choose', 'bike': rng.choice(webapp.BIKES)})
        elif r < .5:
            o.update(edit(rng))
        elif r < .6:
            o.update({'op': 'reset'})
        elif r < .75:
            o.update({'op': 'options', 'v': rng.sample(
                OPTS, rng.randint(0, 3))})
        elif r < .9:
            o.update({'op': 'slide', 'v': slider(rng)})
        elif r < .93:
            o.update({'op': 'clear'})
        else:
            o.update({'op': 'load'})
        if rng.random() < .1:
            o['fault'] = [rng.randint(0, 16), rng.randint(0, 9)]
        ops.append(o)
    return {'bike': rng.choice(webapp.BIKES), 'ops': ops,
            'rchunk': rng.choice([None, None, 40])}


def play(root, plan):
    """The history; records the state of the page after every event."""
    recs = []
    webapp.redirect(NS, root)

    def body(ctx):
        ctx.s.recs = recs
        client = NS.app.app.server.test_client()
        ren = webapp.Renderer(client)

        def key(k):
            return ren.props.get(k)

        def page():
            return {'%s.%s' % k: ren.props.get(k) for k in
                    webapp.FILL + webapp.PLOTS +
                    [('bike-dropdown', 'value'),
                     ('geometry-checklist', 'value'),
                     ('range-slider', 'value')]}
        ops = [{'op': 'load', 'order': 0}, {'op': 'choose', 'order': 0,
                                            'bike': plan['bike']}] + \
            plan['ops']
        for i, op in enumerate(ops):
            k = op['op']
            rec = {'i': i, 'op': op, 'ok': None}
            recs.append(rec)
            changed = None
            if k == 'load':
                ren = webapp.Renderer(client)
            elif k == 'choose':
                if ren.props['bike-dropdown', 'value'] == op['bike']:
                    continue
                ren.props['bike-dropdown', 'value'] = op['bike']
                changed = [('bike-dropdown', 'value')]
            elif k == 'clear':
                if ren.props.get(('bike-dropdown', 'clearable'),
                                 True) is False:
                    continue
                ren.props['bike-dropdown', 'value'] = None
                changed = [('bike-dropdown', 'value')]
            elif k == 'reset':
                b = ('reset-button', 'n_clicks')
                ren.props[b] = (ren.props[b] or 0) + 1
                changed = [b]
            elif k == 'options':
                ren.props['geometry-checklist', 'value'] = list(op['v'])
                changed = [('geometry-checklist', 'value')]
            elif k == 'slide':
                ren.props['range-slider', 'value'] = list(op['v'])
                changed = [('range-slider', 'value')]
            elif k == 'edit':
                data = ren.props.get((op['t'], 'data'))
                if not data:
                    continue
                data = [dict(r) for r in data]
                old = data[op['r']][op['c']]
                new = op['v'] if 'v' in op else round(old * op['f'],
                                                      op.get('d', 6))
                data[op['r']][op['c']] = new
                ren.props[op['t'], 'data'] = data
                changed = [(op['t'], 'data')]
            rec['before'] = page()
            ren.log = []
            lab = 's%d' % i
            ctx.fs.label(lab)
            if op.get('fault'):
                # the disk fails under one request; the user repeats it
                saved = dict(ren.props)
                rec['first'] = ren.event(changed, op['order']) if changed \
                    else ren.load()
                ctx.fs.label('-')
                if not rec['first']:
                    ren.props = saved
                    rec['ok'] = ren.event(changed, op['order']) if changed \
                        else ren.load()
                else:
                    rec['ok'] = True
            else:
                rec['ok'] = ren.event(changed, op['order']) if changed \
                    else ren.load()
            ctx.fs.label('-')
            rec['log'] = ren.log
            rec['page'] = page()
            if not rec['ok']:
                rec['why'] = ren.failed
                break
    faults = [{'op': 's%d' % (i + 2), 'proc': 'p0', 'k': o['fault'][0],
               'mode': 'error', 'a': o['fault'][1], 'b': 0, 'c': 0,
               'sticky': False} for i, o in enumerate(plan['ops'])
              if o.get('fault')]
    return machine.session(root, body, faults, ['n'] * 9,
                           rchunk=plan['rchunk'])


def execute(run, plan):
    import os
    root = os.path.join(run.root, 'm')
    os.makedirs(root)
    s = run.phase(play, root, plan)
    machine.account(run, s)
    run.check(not s.escapes, 'escape', 'wrote outside: %r' % s.escapes)
    prev = None
    edited = set()
    for rec in s.recs:
        op = rec['op']
        k = op['op']
        if rec['ok'] is None:
            continue
        what = '%s %s' % (k, {a: b for a, b in op.items() if a in (
            'bike', 'v', 'p', 'f')})
        pg = rec.get('page')
        run.note(k, rec['ok'], rec['log'])
        if not rec['ok']:
            names, vals, status = rec['why']
            run.violate('no-answer', '%s (with %s) got status %d for the request '
                        'triggered by %s with %s' % (
                            what, {a: pg[a] for a in pg if 'figure' not in a
                                   and 'table' not in a}, status, names,
                            [v for a, b, v in vals if b != 'data']))
            return
        bike = pg['bike-dropdown.value']
        opts = pg['geometry-checklist.value']
        lo, hi = pg['range-slider.value']
        if bike is None:
            continue
        props = {tuple(a.rsplit('.', 1)): b for a, b in pg.items()}
        if k in ('load', 'choose', 'reset'):
            bad = webapp.wrong_tables(props, bike)
            if bad:
                run.violate('tables', 'after %s of %s: %s' % (what, bike, bad))
                return
            edited = set()
        else:
            same = all(props[t] == rec['before']['%s.%s' % t]
                       for t in webapp.FILL)
            if not same:
                run.violate('tables', '%s changed the tables' % what)
                return
            if k == 'edit':
                edited.add(op['p'])
        p = webapp.stored(bike)
        p.update(webapp.described({t: props[t, 'data'] for t, _ in
                                   webapp.FILL}))
        figs = [props[x] for x in webapp.PLOTS]
        for f, name in zip(figs, ('geometry', 'eigenvalue')):
            if not isinstance(f, dict):
                run.violate('no-plot', 'no %s plot after %s' % (name, what))
                return
        if webapp.is_geometry(figs[1]) or not webapp.is_geometry(figs[0]):
            run.violate('place', 'the geometry is shown in the place of the '
                        'eigenvalues after %s' % what)
            return
        bad = webapp.wrong_geometry(figs[0], p, 'centers' in opts,
                                    'ellipse' in opts)
        if bad:
            run.violate('geometry', '%s of %s with %s after %s: %s' % (
                sorted(edited) or 'tables as stored', bike, opts, what, bad))
            return
        bad = webapp.wrong_eigen(figs[1], p, lo, hi, 'stability' in opts)
        if bad:
            run.violate('stability' if 'stable' in bad else 'eigen',
                        '%s of %s with %s after %s: %s' % (
                            sorted(edited) or 'tables as stored', bike, opts,
                            what, bad))
            return
        run.state(k, prev, bike, sorted(edited), sorted(opts), lo, hi,
                  op['order'] % 3)
        prev = k
        run.probe('pages-compared')
        if 'stability' in opts:
            run.probe('stability-compared')
