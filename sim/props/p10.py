"""P10: users of the web app never see or affect each other."""
import hashlib
import json
import os
import re

from .. import core, env, machine, sched, webapp

ID = 'P10'
RUNS = {'quick': 510, 'thorough': 15000}
LEVEL = 'seeded search over sets of concurrent user sessions, their ' \
    'interleavings at every line of the package, duplicated, abandoned, ' \
    'malformed and failing requests, reading faults and failing allocations ' \
    '- against the real app; every response is compared byte by byte with ' \
    'the response of the same request on a fresh idle server'
RULE = 'a run is non-trivial when responses of at least two users who were ' \
    'served at the same time, with a switch in between, were compared; ' \
    'counted by distinct (requests, switching sites, fault) tuples'
STATE_MEASURE = 'distinct (kinds and bicycles of the requests, first ' \
    'switches, fault) tuples'
REAL = ['app callbacks and layout', 'Dash and Flask request handling',
        'bicycle loading', 'Plotly figures', 'eigenvalues']
STUB = ['network', 'browser', 'clock', 'disk', 'thread scheduling']
ASSUMPTIONS = ['the server runs requests in threads of one process; the '
               'first request was served before',
               'threads switch between lines of the package, not inside of '
               'Dash, Flask, NumPy and Plotly calls']
SHRINK = ['preempt', 'users', 'faults', 'aborts', 'after']

NS = None
# typical numbers of yield points of a request
LINES = {1: {'fill': 140, 'plot': 430}, 2: {'fill': 230, 'plot': 600},
         None: {'fill': 1300, 'plot': 17000}}


def setup():
    global NS
    from . import p11
    NS = env.load(app=True)
    p11.NS = NS
    p11.warm(NS)


ODD = ['Nonesuch', '../bicycles/Pista', 'pista', '', None, 7, 'Pista/',
       ['Pista', 'Fisher'], '..', 'x' * 300]
PLOT_IN = [('bike-dropdown', 'value'), ('wheel-table', 'data'),
           ('frame-table', 'data'), ('general-table', 'data'),
           ('geometry-checklist', 'value'), ('range-slider', 'value')]


def request(rng):
    r = rng.random()
    bike = rng.choice(webapp.BIKES)
    if r < .33:
        return {'k': 'fill', 'bike': bike, 'n': rng.randint(0, 3),
                'by': rng.choice(['bike-dropdown.value',
                                  'reset-button.n_clicks'])}
    if r < .7:
        from . import p11
        q = {'k': 'plot', 'bike': bike, 'edits': [
            p11.edit(rng) for _ in range(rng.choice([0, 0, 1, 2]))],
            'opts': rng.sample(p11.OPTS, rng.randint(0, 3)),
            'slide': p11.slider(rng),
            'by': rng.choice(['%s.%s' % x for x in PLOT_IN])}
        a, b = q['slide']
        if b - a > 25:
            q['slide'] = [a, a + 25]
        return q
    if r < .76:
        return {'k': 'spin', 'i': rng.randint(0, 1)}
    if r < .81:
        return {'k': 'get', 'path': rng.choice([
            '/', '/_dash-layout', '/_dash-dependencies',
            '/assets/styles.css', '/none'])}
    if r < .9:
        q = {'k': rng.choice(['fill', 'plot']), 'bike': rng.choice(ODD),
             'n': 0, 'edits': [], 'opts': ['centers'], 'slide': [0, 5]}
        q['by'] = 'bike-dropdown.value' if q['k'] == 'fill' else \
            'wheel-table.data'
        return q
    return {'k': 'bad', 'bike': bike, 'how': rng.randint(0, 9)}


def generate(rng, tier, index):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    pool = [request(rng) for _ in range(rng.randint(2, 4))]
    users = []
    for _ in range(n):
        u = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            q = dict(rng.choice(pool) if rng.random() < .4 else request(rng))
            if rng.random() < .06:
                q['abandon'] = True
            u.append(q)
            if rng.random() < .08:
                u.append(dict(q))
        users.append(u)
    fresh = rng.choice([1, 2, 2, None])
    total = sum(LINES[fresh].get(q['k'], 40) for u in users for q in u)
    pre = set()
    for _ in range(rng.choice([1, 2, 3, 5, 8, 13, 40])):
        a = rng.randint(1, total)
        pre.add(a)
        if rng.random() < .5:
            pre.add(a + int(rng.expovariate(1 / 30.)) + 1)
    faults, aborts = [], []
    r = rng.random()
    if r < .3:
        for _ in range(rng.choice([1, 1, 2])):
            u = rng.randrange(n)
            faults.append({'op': 'q%d' % rng.randrange(len(users[u])),
                           'proc': 'p%d' % u, 'k': rng.randint(0, 16),
                           'mode': 'error', 'a': rng.randint(0, 9), 'b': 0,
                           'c': 0, 'sticky': rng.random() < .2})
    elif r < .5:
        aborts.append([rng.randrange(n), int(rng.choice([60, 400, 1500]) *
                                             rng.random()) + 1])
    return {'users': users, 'preempt': [[s, rng.randrange(4)]
                                        for s in sorted(pre)],
            'first': rng.randrange(n), 'fresh': fresh, 'faults': faults, 'aborts': aborts,
            'rchunk': rng.choice([None, None, 60]),
            'after': [request(rng) for _ in range(rng.choice([0, 1, 1, 2]))]}


def body_of(q):
    """(path, JSON text or None) of a request."""
    k = q['k']
    if k == 'get':
        return q['path'], None
    if k == 'spin':
        name = ('geometry', 'eigen')[q['i']]
        outs = [(name + '-load', 'children')]
        ins = [(name + '-bin', 'children', [{'props': {'children': name},
                                             'type': 'Div',
                                             'namespace':
                                             'dash_html_components'}])]
        by = [name + '-bin.children']
    elif k == 'fill' or (k == 'bad' and q['how'] in (0, 1)):
        outs = webapp.FILL
        ins = [('bike-dropdown', 'value', q['bike']),
               ('reset-button', 'n_clicks', q.get('n', 0))]
        by = [q.get('by', 'bike-dropdown.value')]
        if k == 'bad':
            if q['how'] == 0:
                ins = []
            else:
                outs = outs[:2]
    else:
        from . import p11
        name = q['bike'] if q['bike'] in webapp.BIKES else 'Benchmark'
        par = webapp.stored(name)
        t = webapp.rows(par, None)
        for e in q.get('edits', []):
            row = t[e['t']][e['r']]
            row[e['c']] = e['v'] if 'v' in e else round(
                row[e['c']] * e['f'], e.get('d', 6))
        opts, slide = q.get('opts', ['centers']), q.get('slide', [0, 5])
        by = [q.get('by', 'frame-table.data')]
        how = q.get('how') if k == 'bad' else None
        if how == 2:
            t['frame-table'][3]['rB'] = ''
        elif how == 3:
            t['general-table'][2]['data'] = 'abc'
        elif how == 4:
            t['wheel-table'] = []
        elif how == 5:
            t['general-table'] = None
        elif how == 6:
            slide = [5]
        elif how == 7:
            opts = None
        elif how == 8:
            t['frame-table'][2]['fA'] = None
        outs = webapp.PLOTS
        ins = [('bike-dropdown', 'value', q['bike'])] + [
            (x, 'data', t[x]) for x in
            ('wheel-table', 'frame-table', 'general-table')] + [
            ('geometry-checklist', 'value', opts),
            ('range-slider', 'value', slide)]
    text = json.dumps(webapp.message(outs, ins, by))
    if k == 'bad' and q['how'] == 9:
        text = text[:len(text) // 2]
    return '/_dash-update-component', text


def send(client, q):
    path, text = body_of(q)
    if text is None:
        r = client.get(path)
    else:
        r = client.post(path, data=text, content_type='application/json')
    if q.get('abandon'):
        r.close()
        return None
    # Dash puts a random token into every page
    out = r.status_code, re.sub(rb'"end_id":"[^"]*"', b'', r.get_data())
    r.close()
    return out


def ident(q):
    return json.dumps({k: v for k, v in q.items() if k != 'abandon'},
                      sort_keys=True)


def digest(root):
    out = {}
    for d, sub, files in os.walk(root):
        sub.sort()
        for f in sorted(files) + sub:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = None if os.path.isdir(p) else \
                hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return out


def alone(root, q):
    webapp.redirect(NS, root)

    def body(ctx):
        c = NS.app.app.server.test_client()
        ctx.s.answer = send(c, q)
        ctx.s.layout = c.get('/_dash-layout').get_data()
    return machine.session(root, body)


def together(root, plan):
    copy = webapp.redirect(NS, root)

    def body(ctx):
        s = ctx.s
        server = NS.app.app.server
        with ctx.fs.hidden():
            s.before = digest(copy)
        s.answers = {}
        s.aborted = []
        sc = sched.Scheduler(
            plan['preempt'], pkg=env.PKG, trace=True, first=plan['first'],
            fresh=plan.get('fresh'),
            aborts=[(t, n, MemoryError) for t, n in plan['aborts']])
        now = {}
        sc.on_abort = lambda t: s.aborted.append((t.idx, now[t.idx]))

        def task(i, qs):
            def go():
                c = server.test_client()
                for j, q in enumerate(qs):
                    now[i] = j
                    ctx.fs.label('q%d' % j)
                    s.answers[i, j] = send(c, q)
                    ctx.fs.label('-')
            return go
        for i, qs in enumerate(plan['users']):
            sc.spawn(task(i, qs), 'p%d' % i)
        sc.run()
        if sc.failure is not None:
            raise core.Hang(str(sc.failure))
        for t in sc.tasks:
            if t.exc is not None:
                raise t.exc
        s.switches = list(sc.switches)
        s.lines = sc.steps
        s.clock = sc.clock
        c = server.test_client()
        s.later = [send(c, q) for q in again(plan)]
        s.layout = c.get('/_dash-layout').get_data()
        with ctx.fs.hidden():
            s.after = digest(copy)
    return machine.session(root, body, plan['faults'],
                           rchunk=plan['rchunk'])


def again(plan):
    """The requests sent after everything has calmed down."""
    out = list(plan['after'])
    for u in plan['users']:
        if u:
            q = dict(u[-1])
            q.pop('abandon', None)
            out.append(q)
    return out


def differs(a, b):
    if a[0] != b[0]:
        return 'status %d instead of %d' % (a[0], b[0])
    if a[1] == b[1]:
        return None
    try:
        x, y = json.loads(a[1]), json.loads(b[1])
    except ValueError:
        return 'another body: %r instead of %r' % (a[1][:200], b[1][:200])
    if x == y:
        return None
    path = []
    while type(x) is type(y) and isinstance(x, (dict, list)):
        if isinstance(x, dict):
            if set(x) != set(y):
                break
            k = [k for k in sorted(x) if x[k] != y[k]][0]
        else:
            if len(x) != len(y):
                break
            k = [k for k in range(len(x)) if x[k] != y[k]][0]
        path.append(str(k))
        x, y = x[k], y[k]
    return 'another answer at %s: %s instead of %s' % (
        '/'.join(path), str(x)[:150], str(y)[:150])


def short(q):
    return {k: v for k, v in q.items() if k not in ('n',)}


def execute(run, plan):
    users = [u for u in plan['users'] if u]
    plan = dict(plan, users=users)
    if not users:
        return
    root = os.path.join(run.root, 'm')
    os.makedirs(root)
    s = run.phase(together, root, plan)
    machine.account(run, s)
    run.check(not s.escapes, 'writes', 'a request wrote to %r' % s.escapes)
    run.check(s.before == s.after, 'writes', 'the delivered bicycles changed: '
              '%s' % sorted(k for k in set(s.before) | set(s.after)
                            if s.before.get(k) != s.after.get(k)))
    faulty = {(int(pr[1:]), int(lab[1:])) for pr, lab in s.errors
              if pr[0] == 'p' and lab[0] == 'q'}
    faulty |= set(s.aborted)
    if s.aborted:
        run.fault('failing allocation', len(s.aborted))
    ref = {}
    layout = None
    todo = [((i, j), q, s.answers[i, j]) for i, u in enumerate(users)
            for j, q in enumerate(u)] + [
        (('later', j), q, a) for j, (q, a) in enumerate(zip(again(plan),
                                                            s.later))]
    for who, q, got in todo:
        key = ident(q)
        if key not in ref:
            d = os.path.join(run.root, 'r%d' % len(ref))
            os.makedirs(d)
            r = run.phase(alone, d, dict(json.loads(key)))
            ref[key] = r.answer
            layout = r.layout
            run.check(not r.escapes, 'writes', 'wrote to %r' % r.escapes)
    run.check(s.layout == layout, 'layout', 'the page changed')
    compared = set()
    for who, q, got in todo:
        if got is None:
            run.probe('abandoned')
            continue
        if who in faulty:
            run.probe('failed-request')
            continue
        d = differs(got, ref[ident(q)])
        if d:
            run.violate('later' if who[0] == 'later' else 'response',
                        'request %s of user %s, served with %s%s: %s' % (
                            short(q), who, [
                                [short(x)['k'] for x in u] for u in users],
                            ', failing %s' % sorted(faulty)
                            if faulty else '', d))
            return
        compared.add(who)
        run.note(who, q['k'], got[0], hashlib.sha256(got[1]).hexdigest())
        run.probe('status-%d' % got[0])
    run.note(s.switches)
    run.simtime += s.clock
    run.steps += s.lines
    users_seen = {w[0] for w in compared if w[0] != 'later'}
    sw = [x for x in s.switches if 0 < x[0] < s.lines]
    if len(users_seen) > 1 and sw:
        run.probe('interleaved')
        run.probe('switches', len(sw))
        run.state([[(q['k'], str(q.get('bike')), q.get('by'), q.get('how'))
                    for q in u] for u in users],
                  [x for x in sw[:6]], sorted(faulty))


def simplify(plan):
    """Smaller variants of a plan."""
    for i, u in enumerate(plan['users']):
        for j in range(len(u)):
            if len(u) > 1:
                p = json.loads(json.dumps(plan))
                del p['users'][i][j]
                yield p
