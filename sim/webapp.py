"""The web app on a simulated network: requests go to the real Dash/Flask
application through its WSGI interface, and a client behaves like the Dash
renderer in a browser (state of the components, chained callbacks)."""
import base64
import json
import math
import os
import re

import numpy as np

from . import env

BIKES = ['Benchmark', 'Browser', 'Browserins', 'Crescendo', 'Fisher', 'Pista',
         'Rigid', 'Silver', 'Yellow', 'Yellowrev']
# what the tables show: {table: [(label, {column: parameter})]}
TABLES = {
    'wheel-table': [
        ('Radius', {'fW': 'rF', 'rW': 'rR'}),
        ('Mass', {'fW': 'mF', 'rW': 'mR'}),
        ('Moment Ixx', {'fW': 'IFxx', 'rW': 'IRxx'}),
        ('Moment Iyy', {'fW': 'IFyy', 'rW': 'IRyy'})],
    'frame-table': [
        ('Center of Mass X', {'rB': 'xB', 'fA': 'xH'}),
        ('Center of Mass Z', {'rB': 'zB', 'fA': 'zH'}),
        ('Total Mass', {'rB': 'mB', 'fA': 'mH'}),
        ('Moment Ixx', {'rB': 'IBxx', 'fA': 'IHxx'}),
        ('Moment Iyy', {'rB': 'IByy', 'fA': 'IHyy'}),
        ('Moment Izz', {'rB': 'IBzz', 'fA': 'IHzz'}),
        ('Moment Ixz', {'rB': 'IBxz', 'fA': 'IHxz'})],
    'general-table': [
        ('Wheel Base', {'data': 'w'}), ('Trail', {'data': 'c'}),
        ('Steer Axis Tilt', {'data': 'lam'}), ('Gravity', {'data': 'g'})]}
FILL = [('wheel-table', 'data'), ('frame-table', 'data'),
        ('general-table', 'data')]
PLOTS = [('geometry-plot', 'figure'), ('eigen-plot', 'figure')]
DATA = os.path.join(env.PKG, 'app-data')


def stored(name):
    """The nominal parameters delivered for a bicycle."""
    p = os.path.join(DATA, 'bicycles', name, 'Parameters',
                     name + 'Benchmark.txt')
    out = {}
    with open(p) as f:
        for line in f:
            m = re.match(r'\s*(\w+)\s*=\s*([-+0-9.eE]+)', line)
            if m:
                out[m.group(1)] = float(m.group(2).rstrip('+'))
    return out


def redirect(ns, root):
    """Lets the app of this process read its bicycles from a copy on the
    simulated disk.  Returns the copy's path."""
    import shutil
    copy = os.path.join(root, 'app-data')
    shutil.copytree(DATA, copy)
    for k, v in list(vars(ns.app).items()):
        if isinstance(v, str) and (v == DATA or v.startswith(DATA + os.sep)):
            setattr(ns.app, k, copy + v[len(DATA):])
    return copy


def message(outs, inputs, changed):
    """The request that the Dash renderer sends for a callback."""
    o = [{'id': a, 'property': b} for a, b in outs]
    out = '..' + '...'.join('%s.%s' % x for x in outs) + '..' \
        if len(outs) > 1 else '%s.%s' % outs[0]
    return {'output': out, 'outputs': o if len(outs) > 1 else o[0],
            'inputs': [{'id': a, 'property': b, 'value': v}
                       for a, b, v in inputs],
            'changedPropIds': changed, 'parsedChangedPropsIds': changed}


def post(client, outs, inputs, changed):
    """Sends one callback request.  Returns (status, body)."""
    r = client.post('/_dash-update-component',
                    json=message(outs, inputs, changed))
    return r.status_code, r.get_data()


def rows(par, cols):
    """Table contents as the client holds them."""
    out = {}
    for t, spec in TABLES.items():
        out[t] = []
        for label, c in spec:
            row = {'label': label}
            for k, p in c.items():
                v = par[p]
                row[k] = math.degrees(v) if p == 'lam' else v
            out[t].append(row)
    return out


def described(tables):
    """The parameters that table contents describe."""
    out = {}
    for t, spec in TABLES.items():
        for i, (label, c) in enumerate(spec):
            for k, p in c.items():
                v = float(tables[t][i][k])
                out[p] = math.radians(v) if p == 'lam' else v
    return out


def arr(x):
    """Numbers of a Plotly trace."""
    if isinstance(x, dict):
        a = np.frombuffer(base64.b64decode(x['bdata']),
                          dtype=np.dtype(x['dtype']).newbyteorder('<'))
        return a.astype(float)
    return np.array([float('nan') if v is None else v for v in (x or [])],
                    dtype=float)


class Renderer(object):
    """A browser with the app open."""

    def __init__(self, client):
        self.client = client
        deps = json.loads(client.get('/_dash-dependencies').get_data())
        self.callbacks = []
        for d in deps:
            out = d['output']
            outs = [tuple(x.rsplit('.', 1)) for x in
                    out.strip('.').split('...')] if out.startswith('..') \
                else [tuple(out.rsplit('.', 1))]
            self.callbacks.append((outs, [(i['id'], i['property'])
                                          for i in d['inputs']]))
        self.props = {}
        self.clearable = True
        self._walk(json.loads(client.get('/_dash-layout').get_data()))
        self.log = []

    def _walk(self, node):
        if isinstance(node, list):
            for n in node:
                self._walk(n)
        elif isinstance(node, dict):
            p = node.get('props', {})
            if 'id' in p:
                for k, v in p.items():
                    self.props[p['id'], k] = v
            self._walk(p.get('children'))

    def event(self, changed, order=0, start=None):
        """The user (or the page load) changed properties; run all callbacks
        that follow, those whose inputs are being computed last."""
        pending = {}
        for j, (outs, ins) in enumerate(self.callbacks):
            hit = [i for i in ins if i in changed]
            if start is not None and j in start:
                hit = hit or ['.']
            if hit:
                pending[j] = hit
        while pending:
            coming = set()
            todo = set(pending)
            grew = True
            while grew:
                grew = False
                coming = {o for j in todo for o in self.callbacks[j][0]}
                for j, (outs, ins) in enumerate(self.callbacks):
                    if j not in todo and any(i in coming for i in ins):
                        todo.add(j)
                        grew = True
            ready = [j for j in sorted(pending) if not any(
                i in coming for i in self.callbacks[j][1])]
            j = ready[order % len(ready)]
            outs, ins = self.callbacks[j]
            trig = pending.pop(j)
            names = ['%s.%s' % t if t != '.' else '.' for t in trig]
            if order % 3 == 1:
                names.reverse()
            names = [n for n in names if n != '.'] or []
            vals = [(a, b, self.props.get((a, b))) for a, b in ins]
            status, body = post(self.client, outs, vals, names)
            self.log.append((names, outs, status))
            if status != 200:
                self.failed = (names, vals, status)
                return False
            resp = json.loads(body)['response']
            for a, b in outs:
                if a in resp and b in resp[a]:
                    self.props[a, b] = resp[a][b]
                    for q, (o2, i2) in enumerate(self.callbacks):
                        if (a, b) in i2:
                            pending.setdefault(q, []).append((a, b))
        return True

    def load(self):
        return self.event([], start=range(len(self.callbacks)))


# -- what the plots show ---------------------------------------------------------

def traces(fig):
    out = []
    for t in fig.get('data') or []:
        out.append({'name': t.get('name') or '', 'x': arr(t.get('x')),
                    'y': arr(t.get('y')), 'fill': t.get('fill'),
                    'dash': (t.get('line') or {}).get('dash'),
                    'visible': t.get('visible', True)})
    return [t for t in out if t['visible'] is True]


def labels(fig):
    return [a for a in (fig.get('layout') or {}).get('annotations') or []]


def is_geometry(fig):
    return any(is_circle(t) for t in traces(fig))


def is_circle(t):
    """(x, z, radius) of a full circle, or None."""
    x, y = t['x'], t['y']
    if len(x) < 20 or t['fill'] == 'toself':
        return None
    cx, cy = (x.max() + x.min()) / 2., (y.max() + y.min()) / 2.
    r = np.hypot(x - cx, y - cy)
    if r.min() <= 0 or r.max() - r.min() > 2e-2 * r.max():
        return None
    # the bounding box of a polygon is not exact
    A = np.column_stack([x, y, np.ones_like(x)])
    s = np.linalg.lstsq(A, x * x + y * y, rcond=None)[0]
    cx, cy = s[0] / 2., s[1] / 2.
    R = math.sqrt(max(0., s[2] + cx * cx + cy * cy))
    r = np.hypot(x - cx, y - cy)
    ang = np.sort(np.arctan2(y - cy, x - cx))
    gap = max(np.diff(ang).max(), 2 * math.pi - (ang[-1] - ang[0]))
    if not np.allclose(r, R, rtol=1e-7) or gap > .8:
        return None
    return cx, cy, R


def centres(p, parts):
    out = {}
    for x in parts:
        if x == 'R':
            out[x] = (0., p['rR'])
        elif x == 'F':
            out[x] = (p['w'], p['rF'])
        else:
            out[x] = (p['x' + x], -p['z' + x])
    return out


def wrong_geometry(fig, p, com, ell):
    """What is wrong with a geometry plot of the parameters, or None."""
    tr = traces(fig)
    parts = sorted(k[1] for k in p if k[0] == 'm' and len(k) == 2)
    cent = centres(p, parts)
    circ = [c for c in map(is_circle, tr) if c]
    for c in ((0., p['rR'], p['rR']), (p['w'], p['rF'], p['rF'])):
        if not any(np.allclose(c, d, rtol=1e-6, atol=1e-8) for d in circ):
            return 'no wheel %r among %r' % (c, circ)
    if len(circ) != 2:
        return '%d wheels' % len(circ)

    def through(pt):
        return [t for t in tr if len(t['x']) < 20 and any(
            np.allclose((a, b), pt, atol=1e-7)
            for a, b in zip(t['x'], t['y'])) and
            np.ptp(t['x']) + np.ptp(t['y']) > .05]
    for pt in ((0., p['rR']), (p['w'], p['rF'])):
        if not through(pt):
            return 'the frame does not reach %r' % (pt,)
    if abs(p['lam']) > 1e-3 and not through((p['w'] + p['c'], 0.)):
        return 'no steer axis reaches the ground at %r' % (p['w'] + p['c'])
    for t in through((p['w'] + p['c'], 0.)) if abs(p['lam']) > 1e-3 else ():
        if len(t['x']) == 2 and np.any(t['y']) and not math.isclose(
                np.ptp(t['x']), np.ptp(t['y']) * abs(math.tan(p['lam'])),
                rel_tol=1e-5, abs_tol=1e-7):
            return 'the steer axis from %r to %r is not tilted by %r' % (
                list(t['x']), list(t['y']), p['lam'])
    if not any(len(t['x']) >= 2 and not np.any(t['y']) and
               t['x'].min() <= 0. and t['x'].max() >= p['w'] for t in tr):
        return 'no ground line'
    pts = [(t['x'][0], t['y'][0]) for t in tr if len(t['x']) and
           np.ptp(t['x']) == 0. and np.ptp(t['y']) == 0.]
    lab = [a for a in labels(fig) if (a.get('text') or '').isalpha()]
    if not com:
        if pts or lab:
            return 'mass centres %r shown though not selected' % (
                [a['text'] for a in lab] or pts)
    else:
        if sorted(a['text'] for a in lab) != parts:
            return 'mass centres of %s instead of %s' % (
                sorted(a['text'] for a in lab), parts)
        for x in parts:
            if not any(np.allclose(q, cent[x], atol=1e-8) for q in pts):
                return 'mass centre of %s not at %r: %r' % (x, cent[x], pts)
            a = [a for a in lab if a['text'] == x][0]
            if math.hypot(a['x'] - cent[x][0], a['y'] - cent[x][1]) > .2:
                return 'label %s is away from %r' % (x, cent[x])
        if len(pts) != len(parts):
            return '%d mass centres' % len(pts)
    els = [t for t in tr if t['fill'] == 'toself']
    if not ell:
        if els:
            return 'inertia ellipses shown though not selected'
        return None
    if len(els) != len(parts):
        return '%d inertia ellipses for %s' % (len(els), parts)
    scale = None
    left = list(els)
    for x in parts:
        if x in 'RF':
            a = c = p['I%sxx' % x]
            b = 0.
        else:
            a, b, c = p['I%sxx' % x], p['I%sxz' % x], p['I%szz' % x]
        I = np.array([[a, b], [b, c]])
        w, V = np.linalg.eigh(I)
        if w[0] <= 0:
            return None
        # the long axis lies along the axis of the smallest moment; plot
        # coordinates are (x, -z)
        V = np.diag([1., -1.]) @ V
        la, sa = w[1], w[1] * math.sqrt(w[0] / w[1])
        Q = V @ np.diag([1. / la**2, 1. / sa**2]) @ V.T
        hit = None
        for t in left:
            u = np.array([t['x'] - cent[x][0], t['y'] - cent[x][1]])
            f = np.einsum('in,ij,jn->n', u, Q, u)
            k = math.sqrt(abs(f.mean()))
            if f.min() > 0 and np.ptp(f) < 1e-6 * f.mean() and (
                    scale is None or abs(k - scale) < 1e-5 * scale):
                hit, s = t, k
                break
        if hit is None:
            return 'no inertia ellipse of %s' % x
        scale = s
        left = [t for t in left if t is not hit]
    return None


def wrong_eigen(fig, p, lo, hi, stab):
    """What is wrong with an eigenvalue plot, or None."""
    from . import model
    tr = traces(fig)
    im = [t for t in tr if t['name'].startswith('Im') or t['dash'] == 'dash']
    re = [t for t in tr if t['name'].startswith('Re') and
          not any(t is i for i in im)]
    if len(re) != 4 or len(im) != 4:
        return '%d real and %d imaginary parts' % (len(re), len(im))
    v = re[0]['x']
    for t in re + im:
        if len(t['x']) != len(v) or len(t['y']) != len(v) or \
                not np.array_equal(t['x'], v):
            return 'speeds %r and %r' % (t['x'][:3], v[:3])
    if not len(v) or abs(v[0] - lo) > 1e-9 or abs(v[-1] - hi) > 1e-9 or \
            np.any(np.diff(v) < 0) or (hi > lo and len(v) < 5):
        return 'speeds %r ... %r (%d) instead of %g to %g' % (
            v[:2], v[-2:], len(v), lo, hi)
    ref = np.array([model.eig(p, x) for x in v])
    tol = 2e-4 * np.maximum(1., np.abs(ref).max(axis=1))
    got = np.array([a['y'] + 1j * b['y'] for a, b in zip(
        sorted(re, key=lambda t: t['name'][3:]),
        sorted(im, key=lambda t: t['name'][3:]))]).T
    want = ref.real + 1j * np.abs(ref.imag)
    bad = ~same(got, want, tol)
    if bad.any():
        i = int(np.argmax(bad))
        return 'at %g m/s the eigenvalues are %s instead of %s' % (
            v[i], got[i].tolist(), want[i].tolist())
    rects = [(float(s['x0']), float(s['x1'])) for s in
             (fig.get('layout') or {}).get('shapes') or []
             if s.get('type') == 'rect']
    if not stab:
        if rects:
            return 'stable speeds shown though not selected'
        return None
    top = ref.real.max(axis=1)
    for a, b in rects:
        inside = (v >= a - 1e-9) & (v <= b + 1e-9)
        if b < a or a < lo - 1e-9 or b > hi + 1e-9:
            return 'stable speeds %g to %g' % (a, b)
        if np.any(top[inside] > 1e-6):
            i = int(np.argmax(inside & (top > 1e-6)))
            return '%g to %g m/s is marked stable, at %g m/s an eigenvalue ' \
                'has the real part %g' % (a, b, v[i], top[i])
    ok = top < -1e-6
    for i in range(len(v) - 1):
        if ok[i] and ok[i + 1] and v[i + 1] > v[i] and not any(
                a <= v[i] + 1e-9 and b >= v[i + 1] - 1e-9 for a, b in rects):
            return 'stable at %g and %g m/s, marked is %r' % (
                v[i], v[i + 1], rects)
    return None


def same(a, b, tol):
    """Row by row equality of two arrays of four numbers as sets."""
    import itertools
    ok = np.zeros(len(a), dtype=bool)
    for perm in itertools.permutations(range(4)):
        ok |= np.abs(a[:, perm] - b).max(axis=1) <= tol
    return ok


def wrong_tables(props, name):
    """What is wrong with tables that show a stored bicycle, or None."""
    par = stored(name)
    for t, spec in TABLES.items():
        got = props.get((t, 'data'))
        if not isinstance(got, list) or len(got) != len(spec):
            return '%s holds %r' % (t, got)
        for i, (label, cols) in enumerate(spec):
            if not str(got[i].get('label', '')).startswith(label):
                return 'row %d of %s is %r' % (i, t, got[i].get('label'))
            for k, q in cols.items():
                want = math.degrees(par[q]) if q == 'lam' else par[q]
                v = got[i].get(k)
                if not isinstance(v, (int, float)) or \
                        abs(v - want) > 1e-9 * max(1e-3, abs(want)):
                    return '%s of %s is shown as %r, stored is %r' % (
                        q, name, v, want)
    return None
