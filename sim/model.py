"""Independent reference for the bicycle dynamics (plain numpy, not the
package): the linearised Whipple equations assembled from rigid bodies, the
state matrices, eigenvalues, the inertia of the steer assembly, composite
bodies and exact solutions of linear systems."""
import math

import numpy as np


def nominal(par):
    """{name: float} of a dictionary with floats, ufloats or
    (value, std) pairs."""
    out = {}
    for k, v in par.items():
        if hasattr(v, 'nominal_value'):
            v = v.nominal_value
        elif isinstance(v, (list, tuple)):
            v = v[0]
        out[k] = float(v)
    return out


def bodies(p, names='RBHF'):
    """[(mass, centre (x, z), 2-D inertia [[xx, xz], [xz, zz]], Iyy)]."""
    out = []
    for b in names:
        if b == 'R':
            c = (0., -p['rR'])
        elif b == 'F':
            c = (p['w'], -p['rF'])
        else:
            c = (p['x' + b], p['z' + b])
        if b in 'RF':
            I = [[p['I%sxx' % b], 0.], [0., p['I%sxx' % b]]]
        else:
            I = [[p['I%sxx' % b], p['I%sxz' % b]],
                 [p['I%sxz' % b], p['I%szz' % b]]]
        out.append((p['m' + b], np.array(c), np.array(I), p.get('I%syy' % b, 0.)
                    if b in 'BH' else p['I%syy' % b]))
    return out


def composite(bs):
    """Mass, centre, 2-D inertia about the centre and Iyy of a group."""
    m = sum(b[0] for b in bs)
    c = sum(b[0] * b[1] for b in bs) / m
    I = np.zeros((2, 2))
    Iyy = 0.
    for mass, ci, Ii, Iy in bs:
        dx, dz = ci - c
        I += Ii + mass * np.array([[dz * dz, -dx * dz], [-dx * dz, dx * dx]])
        Iyy += Iy + mass * (dx * dx + dz * dz)
    return m, c, I, Iyy


def about_origin(comp):
    m, c, I, _ = comp
    x, z = c
    return I + m * np.array([[z * z, -x * z], [-x * z, x * x]])


def canonical(p):
    """M, C1, K0, K2 (Meijaard et al. 2007, appendix A)."""
    T = composite(bodies(p))
    A = composite(bodies(p, 'HF'))
    mT, (xT, zT), _, _ = T
    IT = about_origin(T)
    mA, (xA, zA), IA, _ = A
    s, c = math.sin(p['lam']), math.cos(p['lam'])
    # distance of the front assembly's mass centre ahead of the steer axis
    uA = (xA - p['w'] - p['c']) * c - zA * s
    e = np.array([s, c])                        # steer axis
    Ie = IA @ e
    IAll = mA * uA**2 + e @ Ie
    IAlx = -mA * uA * zA + Ie[0]
    IAlz = mA * uA * xA + Ie[1]
    mu = p['c'] / p['w'] * c
    SR, SF = p['IRyy'] / p['rR'], p['IFyy'] / p['rF']
    ST = SR + SF
    SA = mA * uA + mu * mT * xT
    Mpd = IAlx + mu * IT[0, 1]
    M = np.array([[IT[0, 0], Mpd],
                  [Mpd, IAll + 2 * mu * IAlz + mu**2 * IT[1, 1]]])
    K0 = np.array([[mT * zT, -SA], [-SA, -SA * s]])
    K2 = np.array([[0., (ST - mT * zT) / p['w'] * c],
                   [0., (SA + SF * s) / p['w'] * c]])
    C1 = np.array([[0., mu * ST + SF * c + IT[0, 1] / p['w'] * c -
                    mu * mT * zT],
                   [-(mu * ST + SF * c),
                    IAlz / p['w'] * c + mu * (SA + IT[1, 1] / p['w'] * c)]])
    return M, C1, K0, K2


def state_space(p, v, g=None):
    M, C1, K0, K2 = canonical(p)
    g = p['g'] if g is None else g
    A = np.zeros((4, 4))
    A[:2, 2:] = np.eye(2)
    A[2:, :2] = -np.linalg.solve(M, g * K0 + v * v * K2)
    A[2:, 2:] = -np.linalg.solve(M, v * C1)
    B = np.zeros((4, 2))
    B[2:] = np.linalg.inv(M)
    return A, B


GAINS = [['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld'],
         ['kTdel_phi', 'kTdel_del', 'kTdel_phid', 'kTdel_deld']]


def feedback(p, v=None):
    A, B = state_space(p, p['v'] if v is None else v)
    K = np.array([[p[k] for k in row] for row in GAINS])
    return A - B @ K, B


def eig(p, v):
    return np.linalg.eigvals(state_space(p, v)[0])


def steer_inertia(p, handlebar=True, fork=True, wheel=True, about=False):
    """3x3 inertia of the steer assembly in the steer-axis frame; None where
    the combination needs parts that are not known."""
    bs = []
    if handlebar and fork:
        bs += bodies(p, 'H')
    elif fork or handlebar:
        part = 'S' if fork else 'G'
        if 'm' + part not in p:
            return None
        bs += bodies(p, part)
    if wheel:
        bs += bodies(p, 'F')
    if not bs:
        return np.zeros((3, 3))
    m, (x, z), I2, Iyy = composite(bs)
    s, c = math.sin(p['lam']), math.cos(p['lam'])
    # frame axes 1 (forward) and 3 (down along the steer axis)
    R = np.array([[c, -s], [s, c]])
    J = R @ I2 @ R.T
    d = 0.
    if about:
        # distance of the centre from the steer axis, which meets the ground
        # at (w + c, 0) and has direction (sin lam, cos lam)
        d = (x - p['w'] - p['c']) * c - z * s
    I = np.zeros((3, 3))
    I[0, 0], I[0, 2], I[2, 0], I[2, 2] = J[0, 0], J[0, 1], J[1, 0], J[1, 1]
    I[1, 1] = Iyy
    return I + m * d * d * np.diag([0., 1., 1.])


def same_set(a, b, tol):
    """Two finite sets of complex numbers agree up to tol (absolute, relative
    to the largest magnitude)."""
    a, b = [complex(x) for x in a], [complex(x) for x in b]
    if len(a) != len(b):
        return False
    scale = max([1.] + [abs(x) for x in a + b])
    for x in a:
        j = min(range(len(b)), key=lambda i: abs(b[i] - x))
        if abs(b[j] - x) > tol * scale:
            return False
        del b[j]
    return True


def expm(A):
    import scipy.linalg
    return scipy.linalg.expm(A)


def check():
    """The published benchmark (Meijaard et al. 2007)."""
    p = dict(w=1.02, c=.08, lam=math.pi / 10, g=9.81, rR=.3, mR=2.,
             IRxx=.0603, IRyy=.12, xB=.3, zB=-.9, mB=85., IBxx=9.2, IBxz=2.4,
             IByy=11., IBzz=2.8, xH=.9, zH=-.7, mH=4., IHxx=.05892,
             IHxz=-.00756, IHyy=.06, IHzz=.00708, rF=.35, mF=3., IFxx=.1405,
             IFyy=.28)
    M, C1, K0, K2 = canonical(p)
    ref = ([[80.81722, 2.31941332208709], [2.31941332208709, .29784188199686]],
           [[0, 33.86641391492494], [-.85035641456978, 1.68540397397560]],
           [[-80.95, -2.59951685249872], [-2.59951685249872, -.80329488458618]],
           [[0, 76.59734589573222], [0, 2.65431523794604]])
    for a, b in zip((M, C1, K0, K2), ref):
        if not np.allclose(a, b, rtol=1e-12, atol=1e-12):
            return 'canonical matrices %r differ from %r' % (a, b)
    e = sorted(x.real for x in eig(p, 5.))
    want = [-14.07838969279822, -0.77534188219585, -0.77534188219585,
            -0.32286642900409]
    if not np.allclose(e, want, rtol=1e-9):
        return 'eigenvalues %r' % e
    return None


LEAN = ['c9', 'd1', 'd2', 'd3', 'd4', 'g', 'ic11', 'ic22', 'ic31', 'ic33',
        'id11', 'id22', 'ie11', 'ie22', 'ie31', 'ie33', 'if11', 'if22', 'ig11',
        'ig22', 'ig31', 'ig33', 'k9', 'l1', 'l2', 'l3', 'l4', 'l5', 'l6', 'mc',
        'md', 'me', 'mf', 'mg', 'rf', 'rr']


def lean(p):
    """A (12, 12), B (12, 3) of the model with a leaning rider."""
    from . import ref_lean
    q, u, r = np.zeros(9), np.zeros(4), np.zeros(4)
    # upright: the pitch angle that puts both wheels on the ground
    q[4] = lean_pitch(p)
    u[1] = -p['v'] / p['rr']
    A, B, _, _ = ref_lean.eval_linear(q, u, r, [p[k] for k in LEAN])
    ai = [i for i in range(13) if i != 4]
    return A[np.ix_(ai, ai)], B[np.ix_(ai, [0, 2, 3])]


def lean_pitch(p):
    """Pitch for which both wheels touch the ground in the upright
    configuration: the steer axis is tilted by it."""
    d1, d2, d3 = p['d1'], p['d2'], p['d3']
    rf, rr = p['rf'], p['rr']
    # rr + (d1 + d3) sin t - d2 cos t = rf
    X, Z = d1 + d3, d2
    return math.asin((rf - rr) / math.hypot(X, Z)) + math.atan2(Z, X)
