"""Random bicycles and the inverse of the measurement procedure.

`true_bike` draws a physically sensible bicycle, `measure` computes the numbers
a perfect measurement campaign on it would write down, `oscillation` what the
rate gyro would record.  Nothing here uses the package.
"""
import math

PI = math.pi

BASE = {
    'rR': 0.3409, 'rF': 0.3435, 'w': 1.121, 'c': 0.0686, 'lam': 0.3997,
    'mB': 9.86, 'mF': 2.02, 'mH': 3.22, 'mR': 3.11,
    'xB': 0.276, 'zB': -0.538, 'xH': 0.867, 'zH': -0.748,
    'IBxx': 0.527, 'IBxz': -0.114, 'IByy': 1.317, 'IBzz': 0.759,
    'IFxx': 0.0884, 'IFyy': 0.149, 'IRxx': 0.0904, 'IRyy': 0.152,
    'IHxx': 0.253, 'IHxz': -0.0720, 'IHyy': 0.2457, 'IHzz': 0.0955,
    'g': 9.81}

CANON_KEYS = ['IBxx', 'IBxz', 'IByy', 'IBzz', 'IFxx', 'IFyy', 'IHxx', 'IHxz',
              'IHyy', 'IHzz', 'IRxx', 'IRyy', 'c', 'g', 'lam', 'mB', 'mF',
              'mH', 'mR', 'rF', 'rR', 'w', 'xB', 'xH', 'zB', 'zH']


def true_bike(rng):
    """A dictionary of floats with the 26 benchmark parameters."""
    p = {}
    for k, v in BASE.items():
        f = rng.uniform(0.8, 1.25)
        p[k] = v * f
    p['lam'] = rng.uniform(0.2, 0.5)
    p['g'] = rng.choice([9.81, 9.81, 9.8, 9.7803])
    # keep the body tensors physical
    for b in 'BH':
        a, c = p['I%sxx' % b], p['I%szz' % b]
        lim = 0.45 * math.sqrt(a * c)
        p['I%sxz' % b] = max(-lim, min(lim, p['I%sxz' % b]))
        lo, hi = abs(a - c) * 1.05, (a + c) * 0.98
        p['I%syy' % b] = max(lo, min(hi, p['I%syy' % b]))
    return p


def rider(rng):
    m = rng.uniform(45., 105.)
    s = m / 80.
    r = {'mB': m, 'xB': rng.uniform(0.25, 0.45), 'zB': -rng.uniform(0.9, 1.2),
         'yB': 0.0,
         'IBxx': 8.0 * s * rng.uniform(0.8, 1.2),
         'IByy': 8.07 * s * rng.uniform(0.9, 1.1),
         'IBzz': 2.2 * s * rng.uniform(0.8, 1.2),
         'IBxz': rng.uniform(-1., 1.) * s}
    return r


def split_fork(p, rng):
    """Adds consistent handlebar G and fork S parts and makes H their sum."""
    p = dict(p)
    mH = p['mH']
    p['mS'] = mH * rng.uniform(0.35, 0.65)
    p['mG'] = mH - p['mS']
    p['xS'] = p['xH'] + rng.uniform(0.02, 0.08)
    p['zS'] = p['zH'] + rng.uniform(0.1, 0.25)
    p['xG'] = (p['xH'] * mH - p['xS'] * p['mS']) / p['mG']
    p['zG'] = (p['zH'] * mH - p['zS'] * p['mS']) / p['mG']
    for b, f in (('S', rng.uniform(0.3, 0.5)), ('G', rng.uniform(0.3, 0.5))):
        for a in ('xx', 'yy', 'zz'):
            p['I' + b + a] = p['IH' + a] * f * rng.uniform(0.9, 1.1)
        p['I%sxz' % b] = p['IHxz'] * f * rng.uniform(0.5, 1.0)
    IH = [0., 0., 0., 0.]
    for b in 'GS':
        dx, dz = p['x' + b] - p['xH'], p['z' + b] - p['zH']
        m = p['m' + b]
        IH[0] += p['I%sxx' % b] + m * dz * dz
        IH[1] += p['I%sxz' % b] - m * dx * dz
        IH[2] += p['I%syy' % b] + m * (dx * dx + dz * dz)
        IH[3] += p['I%szz' % b] + m * dx * dx
    p['IHxx'], p['IHxz'], p['IHyy'], p['IHzz'] = IH
    return p


def handlebar_ref(lam, l1, l2):
    u1 = l2 * math.sin(lam) - l1 * math.cos(lam)
    u2 = u1 / math.tan(lam) + l1 / math.sin(lam)
    return u1, u2


def orientations(rng, n, steep):
    """n angles, well apart modulo pi and, unless steep, away from the
    vertical."""
    gap = PI / n
    while True:
        first = rng.uniform(-PI / 2, PI / 2)
        out = [first + gap * i + rng.uniform(-.12, .12) * gap
               for i in range(n)]
        far = min(abs(math.fmod(b + 10 * PI, PI) - PI / 2) for b in out)
        if far >= (1e-3 if steep else .3 * gap):
            break
    if rng.random() < .3:
        rng.shuffle(out)
    return [b + (rng.choice([0., PI, -PI]) if rng.random() < .2 else 0.)
            for b in out]


def measure(p, rng, norient=3, perp=False, flywheel=None, lateral=False,
            steep=False):
    """The raw measurements of bicycle p (dictionary of floats), including the
    periods.  Returns (measured, periods)."""
    mp, T = {}, {}
    split = 'mS' in p
    mp['g'] = p['g']
    mp['nF'], mp['nR'] = float(rng.randint(6, 14)), float(rng.randint(6, 14))
    mp['dF'] = 2. * PI * p['rF'] * mp['nF']
    mp['dR'] = 2. * PI * p['rR'] * mp['nR']
    lam = p['lam']
    b = p['rF'] * math.sin(lam) - p['c'] * math.cos(lam)     # fork offset
    if perp:
        s = math.sin(lam) * (p['rF'] - p['rR']) + math.cos(lam) * p['w']
        c = -math.cos(lam) * (p['rF'] - p['rR']) + math.sin(lam) * p['w']
        a = s - b
        for i, v in (('1', .02), ('2', .03), ('3', .01), ('4', .0125)):
            mp['d' + i] = v * rng.uniform(0.9, 1.1)
        mp['h2'] = rng.uniform(0.2, 0.3)
        mp['h3'] = rng.uniform(0.2, 0.3)
        mp['h1'] = a - mp['h2'] + mp['h3'] - .5 * mp['d1'] + .5 * mp['d2']
        mp['h5'] = rng.uniform(0.1, 0.2)
        mp['h4'] = b + .5 * mp['d3'] + mp['h5'] - .5 * mp['d4']
        mp['d'] = math.sqrt(c * c + (a - b)**2) - .5 * (mp['d2'] + mp['d3'])
    else:
        mp['w'] = p['w']
        mp['gamma'] = 90. - math.degrees(lam)
        mp['f'] = b
    if lateral:
        mp['xcl'], mp['zcl'] = p['w'] * rng.uniform(.3, .8), -p['rF']
    mp['mB'], mp['mF'], mp['mR'] = p['mB'], p['mF'], p['mR']
    parts = ['B']
    l1 = l2 = 0.
    if split:
        mp['mS'], mp['mG'] = p['mS'], p['mG']
        parts += ['G', 'S']
        mp['d5'], mp['d6'] = 0.0098, 0.0264
        mp['h6'] = rng.uniform(.17, .2)
        mp['h7'] = mp['h6'] + rng.uniform(0.02, 0.06)
        mp['l'] = rng.uniform(0.6, 0.75)
        r5, r6 = mp['d5'] / 2., mp['d6'] / 2.
        l1 = mp['h7'] - mp['h6'] + r5 - r6
        l0 = mp['l'] - r5 - r6
        l2 = l0 * math.cos(math.asin(l1 / l0))
    else:
        mp['mH'] = p['mH']
        parts.append('H')
    # rod used for the calibration
    mp['lP'], mp['mP'], mp['dP'] = (rng.uniform(.9, 1.2), rng.uniform(4., 6.),
                                    rng.uniform(.025, .035))
    IP = mp['mP'] / 12. * (3 * (mp['dP'] / 2.)**2 + mp['lP']**2)
    T['TtP1'] = rng.uniform(1.5, 2.3)
    k = 4. * PI**2 * IP / T['TtP1']**2

    def tor(I):
        return 2. * PI * math.sqrt(I / k)

    def comp(I, m, l):
        return 2. * PI * math.sqrt((I + m * l * l) / (m * p['g'] * l))
    mp['lF'], mp['lR'] = rng.uniform(.25, .31), rng.uniform(.25, .31)
    T['TcF1'] = comp(p['IFyy'], p['mF'], mp['lF'])
    T['TcR1'] = comp(p['IRyy'], p['mR'], mp['lR'])
    T['TtF1'], T['TtR1'] = tor(p['IFxx']), tor(p['IRxx'])
    if 'mD' in p:
        m = p['mF'] + p['mD']
        mp['mD'] = m
        T['TtD1'] = tor(p['IFxx'] + p['IDxx'])
        T['TcD1'] = comp(p['IFyy'] + p['IDyy'], m, mp['lF'])
    for part in parts:
        x, z = p['x' + part], p['z' + part]
        if isinstance(norient, dict):
            betas = orientations(rng, norient[part], steep)
        else:
            first = rng.uniform(-0.5, 0.1)
            betas = [first + PI * i / norient + rng.uniform(-.15, .15)
                     for i in range(norient)]
            for i, beta in enumerate(betas):
                # stay away from vertical lines
                r = math.fmod(beta + 10 * PI, PI)
                if abs(r - PI / 2) < 0.25:
                    betas[i] += 0.4
        for i, beta in enumerate(betas):
            n = str(i + 1)
            alpha = math.degrees(lam - beta)
            mp['alpha' + part + n] = alpha
            beta = lam - alpha * PI / 180
            icpt = z + math.tan(beta) * x
            if part == 'B':
                a = -(icpt + p['rR']) * math.cos(beta)
            elif part in 'HS':
                a = -(icpt + p['rF'] - p['w'] * math.tan(beta)) * \
                    math.cos(beta)
            else:
                u1, u2 = handlebar_ref(lam, l1, l2)
                a = -(icpt + p['rF'] + u2 - (p['w'] - u1) * math.tan(beta)) * \
                    math.cos(beta)
            mp['a' + part + n] = a
            sb, cb = math.sin(beta), math.cos(beta)
            T['Tt' + part + n] = tor(
                p['I%sxx' % part] * cb**2 - 2 * p['I%sxz' % part] * sb * cb +
                p['I%szz' % part] * sb**2)
        if part == 'B':
            l = math.hypot(x, z + p['rR'])
        elif part in 'HS':
            l = math.hypot(x - p['w'], z + p['rF'])
        else:
            u1, u2 = handlebar_ref(lam, l1, l2)
            l = math.hypot(x - p['w'] + u1, z + p['rF'] + u2)
        T['Tc%s1' % part] = comp(p['I%syy' % part], p['m' + part], l)
    # dimensions needed to seat a rider
    mp['hbb'], mp['lcs'], mp['lsp'] = .295, .46, .24
    mp['lst'], mp['lamst'], mp['whb'] = .53, 1.20, .58
    mp['LhbR'], mp['LhbF'] = 1.11, .65
    return mp, T


WORDS = {'B': 'Frame', 'F': 'Fwheel', 'R': 'Rwheel', 'D': 'Flywheel',
         'P': 'Rod', 'S': 'Fork', 'G': 'Handlebar', 'H': 'Fork'}
ORD = ['First', 'Second', 'Third', 'Fourth', 'Fifth', 'Sixth']
PEND = {'c': 'Compound', 't': 'Torsional'}


def oscillation(T, rate, seconds, amp, zeta, phase, offset, noise, rng):
    """Samples of a damped oscillation of (damped) period T."""
    wd = 2. * PI / T
    wo = wd / math.sqrt(1. - zeta * zeta)
    n = int(rate * seconds)
    return [offset + amp * math.exp(-zeta * wo * i / rate) *
            math.sin(wd * i / rate + phase) +
            (rng.gauss(0., noise) if noise else 0.) for i in range(n)]


def record_name(bike, key, trial):
    """File name and the descriptive fields of the recording of period key."""
    pend, part, n = PEND[key[1]], WORDS[key[2]], ORD[int(key[3:]) - 1]
    name = '%s%s%s%s%d.mat' % (bike, part, pend, n, trial)
    return name, {'bicycle': bike, 'part': part, 'pendulum': pend,
                  'trial': str(trial), 'angleOrder': n}


def recording(spec):
    """The contents of the .mat file described by spec: a dictionary with
    bike, key, trial, T, seed and the sensor and rig settings."""
    import numpy as np
    rate = spec.get('rate', 500)
    seconds = spec.get('seconds', 8.)
    T = spec['T']
    zeta = spec.get('zeta', 0.004)
    wd = 2. * PI / T
    wo = wd / math.sqrt(1. - zeta * zeta)
    n = int(rate * seconds)
    r = np.random.RandomState(spec['seed'] % (2**32))
    t = np.arange(n) / float(rate)
    jitter = spec.get('jitter', 0.)
    if jitter:
        t = t + np.sort(r.uniform(0., jitter / rate, n))
        t[0] = 0.
    t0 = spec.get('release', 0.)
    amp, off = spec.get('amp', 1.), spec.get('offset', 0.)
    tt = np.maximum(t - t0, 0.)
    y = amp * np.exp(-zeta * wo * tt) * np.sin(wd * tt + spec.get('phase', 0.))
    if spec.get('gyro') and t0:
        # a rate gyro shows nothing until the part is released
        y[t < t0] = 0.
    y = off + y + spec.get('noise', 1e-3) * r.randn(n)
    name, d = record_name(spec['bike'], spec['key'], spec['trial'])
    if spec.get('bits'):
        q = 10. / 2**spec['bits']
        y = np.round(y / q) * q
    d = dict(d)
    t = t + spec.get('start', 0.)
    shape = spec.get('shape')
    if shape == 'float32':
        y = y.astype('float32')
    elif shape == 'col':
        y, t = y[:, None], t[:, None]
    elif shape == 'row':
        y, t = y[None, :], t[None, :]
    d['data'] = y
    d['notes'] = spec.get('notes', '')
    d['filename'] = name[:-4]
    if spec.get('timebase'):
        d['time'] = t
        if spec.get('both'):
            d['sampleRate'] = rate
            d['duration'] = int(seconds)
    else:
        d[spec.get('ratefield', 'ActualRate')] = rate
        if spec.get('nominal'):
            # the rate that was asked for beside the one that was obtained
            d['sampleRate'] = spec['nominal']
        d['duration'] = int(seconds)
    if spec.get('angle'):
        d['angle'] = d.pop('angleOrder')
    if spec['key'][2] == 'P' and spec.get('rodname'):
        d['rod'] = spec['rodname']
        d['part'] = spec['rodname']
    if spec['key'][2] == 'H' or spec['key'][2] == 'S':
        d['part'] = 'Fork'
    for k in spec.get('drop', ()):
        d.pop(k, None)
    return name, d


def mat_bytes(spec):
    """The bytes of the recording, possibly damaged."""
    import io
    import scipy.io
    name, d = recording(spec)
    buf = io.BytesIO()
    scipy.io.savemat(buf, d)
    b = buf.getvalue()
    dmg = spec.get('damage')
    if dmg == 'empty':
        b = b''
    elif dmg == 'truncated':
        b = b[:len(b) // 2]
    elif dmg == 'garbage':
        b = b'not a recording\n' * 40
    return name, b
