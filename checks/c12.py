"""C12: propagation solves the initial-value problem it was given, and quadratures are the integrals of their rates."""
import numpy as np
from scipy.linalg import expm

LEVEL = 'exploration'
RULE = ('random linear and nonlinear systems with closed-form solutions x steppers x tolerances x fixed/variable step x forward/'
        'backward spans, with and without quadratures (full and quick reconstruction), and random sub-spans for stand-alone '
        'quadrature integration; states, times and quadratures as floats, whole numbers, lists and tuples; separate tolerances; distinct = (system family, stepper, step mode, direction, tolerance, quadrature mode)')
ASSUMPTIONS = ['closed-form solutions (matrix exponential, rational) are the reference',
               'quadrature accuracy is judged where composite Simpson/trapezoid is exact, plus a loose bound elsewhere']


def cases(tier, seed):
    n = {'quick': 1500, 'thorough': 20000}[tier]
    return [{'group': 'tols', 'mode': 'nojit', 'seed': seed * 100003 + 90000 + i, 'timeout': 40, 'cost': 0.4} for i in range(n // 25)] + [{'group': ['propagate', 'quads', 'integrate', 'nonlinear'][i % 4], 'mode': 'nojit' if i % 50 else 'jit',
             'seed': seed * 100003 + i, 'timeout': 40, 'cost': 0.2 if i % 50 else 1} for i in range(n)]


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def span(rng, forward=None):
    t0 = R(rng, [0.0, 0.0, float(rng.normal() * 3)])
    L = float(rng.uniform(0.05, 3.0))
    if forward is None:
        forward = rng.random() < 0.7
    t = np.array([t0, t0 + (L if forward else -L)])
    if rng.random() < 0.3:
        t = np.linspace(t[0], t[1], int(rng.integers(3, 9)))
    return t


def config(rng):
    kw = {}
    if rng.random() < 0.8:
        kw['stepper'] = R(rng, ['RK45', 'rk45', 'RK23', 'DOP853', 'LSODA', 'Radau', 'BDF'])
    tol = R(rng, [None, 1e-4, 1e-6, 1e-8, 1e-10])
    if tol is not None:
        kw['abstol'] = kw['reltol'] = tol
        if kw.get('stepper') == 'RK23':
            kw['abstol'] = kw['reltol'] = tol = max(tol, 1e-8)
    if rng.random() < 0.5:
        kw['maxstep'] = float(R(rng, [0.01, 0.05, 0.3, 1.0]))
    if rng.random() < 0.35:
        kw['variable_step'] = False
    return kw, (tol or 1e-6)


def grid_checks(mon, g, t, y0, kw, key):
    t0, tf = float(t[0]), float(t[-1])
    ms = kw.get('maxstep', 0.1)
    mon.check(len(g.t) == len(g.y) and len(g.t) >= 2, 'grid', 'time and state lengths differ', key)
    mon.check(g.t[0] == t0 and abs(g.t[-1] - tf) <= 1e-12 * (1 + abs(tf)), 'grid',
              lambda: 'asked for [%r, %r], trajectory spans [%r, %r]' % (t0, tf, g.t[0], g.t[-1]), key)
    d = np.diff(g.t) * np.sign(tf - t0)
    mon.check(np.all(d > 0), 'grid', 'time does not advance monotonically', key)
    mon.check(d.max() <= ms * (1 + 1e-9), 'grid', lambda: 'a step of %g exceeds the requested maximum %g' % (d.max(), ms), key)
    if kw.get('variable_step', True) is False:
        mon.check(np.all(np.abs(d[:-1] - ms) <= 1e-9), 'grid', 'fixed steps are not of the requested size', key)
    mon.check(np.allclose(np.asarray(g.y[0], float), np.asarray(y0, float), rtol=1e-9, atol=1e-12), 'initial',
              lambda: 'starts at %s instead of %s' % (g.y[0], y0), key)


def run(case, mon):
    from beluga.numeric.ivp_solvers import Propagator, reconstruct, integrate_quads
    rng = np.random.default_rng(case['seed'])
    if case['group'] == 'integrate':
        return integrate(mon, rng, integrate_quads, reconstruct)
    if case['group'] == 'tols':
        return tols(mon, rng, Propagator)
    kw, tol = config(rng)
    n = R(rng, [1, 2, 3, 4, 4, 7, 12])
    t = span(rng)
    whole = bool(rng.random() < 0.2)
    if whole:
        t = np.array(R(rng, [[0, 1], [0, 2], [1, 3], [2, 0], [-1, 1]]))
    if kw.get('variable_step', True) is False and not whole and rng.random() < 0.4:
        # spans that fixed steps fit, or nearly fit
        L = round(int(rng.integers(1, 12)) * kw.get('maxstep', 0.1), 9) + R(rng, [0.0, 0.0, 1e-6, -1e-6])
        t0 = R(rng, [0.0, 1.0, 0.5, -2.0, 10.0])
        t = np.array([t0, t0 + L * R(rng, [1, 1, -1])])
    back = bool(t[-1] < t[0])
    key = (case['group'], kw.get('stepper'), kw.get('variable_step', True), back, tol)
    p = rng.normal(size=2)
    k = rng.normal(size=3)
    y0 = rng.integers(-3, 4, n) if whole else rng.normal(size=n)
    t_in, y_in = t.copy(), y0.copy()
    if case['group'] == 'nonlinear':
        # y' = p0 * (1 + y**2) * s with exact tan solution, kept away from the pole; logistic; clock state
        c = float(rng.uniform(0.1, 0.25)) / max(1.0, abs(t[-1] - t[0]))
        y0 = rng.uniform(-0.5, 0.5, n)
        y_in = y0.copy()
        p = np.array([c, 1.0])
        f = lambda y, p_, k_: p_[0] * p_[1] * (1 + y**2)
        exact = lambda s: np.tan(np.arctan(y0) + c * s)
    else:
        A = rng.normal(size=(n, n))
        A *= 0.8 / max(1.0, np.linalg.norm(A, 2))
        b = rng.normal(size=n)
        f = lambda y, p_, k_: p_[0] * (A @ y) + k_[1] * b
        M = np.zeros((n + 1, n + 1))
        M[:n, :n] = p[0] * A
        M[:n, n] = k[1] * b
        exact = lambda s: (expm(M * s) @ np.append(y0, 1.0))[:n]
    prop = mon.under(Propagator, **kw)
    form = R(rng, [lambda a: a, lambda a: a, lambda a: a.tolist(), lambda a: tuple(a.tolist())])
    if case['group'] != 'quads':
        t, y0 = form(t), form(y0)
        g = mon.under(prop, f, None, t, y0, np.array([]), p, k)
        y0, t = np.array(y0), np.array(t)
        grid_checks(mon, g, t, y_in, kw, key)
        ex = np.array([exact(s - t[0]) for s in g.t])
        sc = 1 + np.abs(ex).max()
        err = np.abs(g.y - ex).max()
        mon.check(err <= 2000 * tol * sc, 'accuracy', lambda: '%s: error %g with tolerance %g (%s)' % (case['group'], err, tol, kw), key)
        mon.check(np.array_equal(t, t_in) and np.array_equal(y0, y_in), 'aliasing', 'the propagator changed its inputs', key)
        mon.check(np.size(g.q) == 0, 'quads', 'quadratures appeared without a quadrature function', key)
        mon.sample = {'kw': kw, 'span': list(t), 'error': err}
        return
    # quadratures: linear-in-time state, integrand affine in the state -> every quadrature rule in use is exact
    nq = int(rng.integers(1, 4))
    C = rng.normal(size=(nq, n))
    c0 = rng.normal(size=nq)
    v = rng.normal(size=n)
    fl = lambda y, p_, k_: p_[0] * v + 0.0 * y
    qf = lambda y, p_, k_: C @ y + k_[2] * c0
    q0 = rng.integers(-3, 4, nq) if whole else rng.normal(size=nq)
    quick = not back and rng.random() < 0.4
    if quick:
        prop = mon.under(Propagator, quick_reconstruct=True, **kw)
    g = mon.under(prop, fl, qf, form(t), form(y0), form(q0.copy()), p, k)
    grid_checks(mon, g, t, y_in, kw, key + (quick,))
    q = np.asarray(g.q, float)
    if mon.check(q.shape == (len(g.t), nq), 'quads', lambda: 'quadratures have shape %s for %d points' % (q.shape, len(g.t)), key + (quick,)):
        s = g.t - t[0]
        ex = q0 + s[:, None] * (C @ y0 + k[2] * c0) + 0.5 * s[:, None]**2 * (p[0] * C @ v)
        tolq = 1e-6 * (1 + np.abs(ex).max()) + 100 * tol
        tolq = min(tolq, 1e-5 * (1 + np.abs(ex).max()))
        rows = [0, -1] if quick else list(range(len(s)))
        for i in rows:
            mon.check(np.abs(q[i] - ex[i]).max() <= tolq, 'quads', lambda: 'quadrature at point %d of %d is %s, exact %s (quick=%s)'
                      % (i, len(s), q[i], ex[i], quick), key + (quick,))
    # smooth nonlinear integrand along a dense trajectory: loose bound
    A = np.array([[0.0, 1.0], [-1.0, 0.0]])
    g = mon.under(Propagator(maxstep=0.02), lambda y, *_: A @ y, lambda y, *_: np.array([y[0]**2, y[0] * y[1]]), np.array([0.0, 1.5]),
                  np.array([1.0, 0.0]), np.array([0.5, -0.5]))
    ex = np.column_stack((0.5 + g.t / 2 + np.sin(2 * g.t) / 4, -0.5 - np.sin(g.t)**2 / 2))
    mon.check(np.abs(g.q - ex).max() < 1e-4, 'quads', lambda: 'quadrature error %g' % np.abs(g.q - ex).max(), 'smooth')


def integrate(mon, rng, integrate_quads, reconstruct):
    from beluga.numeric.data_classes import Trajectory
    N = int(rng.integers(2, 30))
    t = np.cumsum(rng.uniform(0.02, 0.5, N)) + rng.normal()
    n, nq = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    a, v = rng.normal(size=n), rng.normal(size=n)
    y = a + np.outer(t, v)
    C, c0, w = rng.normal(size=(nq, n)), rng.normal(size=nq), rng.normal(size=nq)
    par = rng.normal(size=1)
    rate = lambda tt, yy, p: C @ yy + c0 * p[0] + w * tt
    prim = lambda s: s * (C @ a + c0 * par[0]) + 0.5 * s * s * (C @ v + w)
    tr = Trajectory(t, y)
    qoff = rng.normal(size=nq)
    if rng.random() < 0.5:
        tr.q = qoff + np.zeros((N, nq))
    else:
        qoff = np.zeros(nq)

    def pick():
        return float(t[int(rng.integers(N))]) if rng.random() < 0.5 else float(rng.uniform(t[0], t[-1]))

    for _ in range(5):
        lo, hi = sorted((pick(), pick()))
        if rng.random() < 0.2:
            lo = float(t[0])
        if rng.random() < 0.2:
            hi = float(t[-1])
        if hi - lo < 1e-9:
            continue
        r = np.asarray(mon.under(integrate_quads, rate, [lo, hi], tr, par), float).reshape(-1)
        ex = qoff + prim(hi) - prim(lo)
        mon.check(r.shape == ex.shape and np.abs(r - ex).max() <= 1e-8 * (1 + np.abs(ex).max()), 'integrate',
                  lambda: 'integral over [%r, %r] is %s, exact %s (nodes %s)' % (lo, hi, r, ex, list(t)),
                  ('integrate', lo in t, hi in t, nq, bool(np.any(qoff))))
    for sp in ([t[0] - 0.5, t[-1]], [t[0], t[-1] + 0.5]):
        try:
            r = integrate_quads(rate, sp, tr, par)
        except Exception:
            mon.seen(('integrate', 'outside'))
        else:
            mon.fail('outside', 'integrated outside the trajectory without complaint: %s' % r)
    # reconstruct: cumulative integral at every node, the input trajectory is left alone
    tr = Trajectory(t, y)
    q0 = rng.integers(-3, 4, nq) if rng.random() < 0.2 else rng.normal(size=nq)
    g = mon.under(reconstruct, lambda yy, p: C @ yy + c0 * p[0], tr, q0.copy(), par)
    prim2 = lambda s: s * (C @ a + c0 * par[0]) + 0.5 * s * s * (C @ v)
    ex = q0 + np.array([prim2(s) - prim2(t[0]) for s in t])
    mon.check(np.shape(g.q) == ex.shape and np.abs(g.q - ex).max() <= 1e-8 * (1 + np.abs(ex).max()), 'reconstruct',
              lambda: 'reconstructed quadrature differs from the running integral: %s vs %s' % (g.q, ex), ('reconstruct', nq, N))
    mon.check(np.size(tr.q) == 0 and np.array_equal(g.y, y) and np.array_equal(g.t, t), 'reconstruct',
              'reconstruction changed the trajectory it was given', 'reconstruct-pure')


def tols(mon, rng, Propagator):
    """Absolute and relative tolerance are different things for large and for small states, and both are honoured."""
    w, T = float(rng.uniform(3, 6)), float(rng.uniform(6, 12)) * R(rng, [1, 1, -1])
    big = bool(rng.random() < 0.5)
    st = R(rng, ['RK45', 'DOP853', 'LSODA', 'RK23'])
    M = 1e5 if big else 1e-5
    ab, re = (1e-4, 1e-9 if st != 'RK23' else 1e-7) if big else (1e-13 if st != 'RK23' else 1e-11, 1e-3)
    y0 = M * np.array([1.0, 0.3])
    g = mon.under(Propagator(abstol=ab, reltol=re, maxstep=100.0, stepper=st), lambda y, *_: np.array([w * y[1], -w * y[0]]), None,
                  np.array([0.0, T]), y0, np.array([]))
    c, s = np.cos(w * g.t), np.sin(w * g.t)
    ex = np.column_stack((c * y0[0] + s * y0[1], -s * y0[0] + c * y0[1]))
    err, lim = np.abs(g.y - ex).max(), (500 if big else 60) * (ab + re * M)
    mon.check(err <= lim, 'accuracy', lambda: 'error %g for states of size %g with abstol %g and reltol %g (%s)' % (err, M, ab, re, st), ('tols', big, st, T < 0))
    # not far too accurate either: the looser of the two governs
    tight = mon.under(Propagator(abstol=1e-3 * M * 1e-7, reltol=1e-10 if st != 'RK23' else 1e-8, maxstep=100.0, stepper=st),
                      lambda y, *_: np.array([w * y[1], -w * y[0]]), None, np.array([0.0, T]), y0, np.array([]))
    mon.check(len(tight.t) > len(g.t), 'accuracy', lambda: 'tighter tolerances did not refine the steps: %d and %d' % (len(tight.t), len(g.t)), ('tols', 'refine', st))
