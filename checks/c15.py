"""C15: tables are natural cubic splines through their data, everywhere, and never read outside their data."""
import numpy as np
from scipy.interpolate import CubicSpline
from vlib import ocp

LEVEL = 'exploration'
RULE = ('random tables (3-30 uneven nodes, values over several magnitudes) evaluated at nodes, near nodes, between nodes, at the '
        'ends and beyond them, value and derivatives up to order 4, plain, compiled and under the run-time bounds sanitizer; and '
        'tables inside problems (scaled, product and nested arguments), where rates, costate rates and second derivatives are '
        'compared with the spline oracle; distinct = (mode, derivative order, location class, number of nodes)')
ASSUMPTIONS = ['scipy.interpolate.CubicSpline(natural) is the reference', 'the compiler inserts a bounds check at every array access in bounds mode']


def cases(tier, seed):
    n, b, p, pj = {'quick': (300, 24, 80, 4), 'thorough': (10000, 600, 3000, 60)}[tier]
    out = [{'group': 'direct', 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 20, 'cost': 0.2} for i in range(n)]
    out += [{'group': 'bounds', 'mode': 'bounds', 'seed': seed * 100003 + 30000 + i, 'timeout': 60, 'cost': 2} for i in range(b)]
    out += [{'group': 'problem', 'mode': 'nojit', 'seed': seed * 100003 + 60000 + i, 'timeout': 40, 'cost': 1} for i in range(p)]
    out += [{'group': 'problem-compiled', 'mode': 'bounds', 'seed': seed * 100003 + 90000 + i, 'timeout': 200, 'cost': 20} for i in range(pj)]
    return out


def make(rng):
    n = int(rng.integers(3, 31)) if rng.random() < 0.7 else int(rng.integers(3, 6))
    x = np.cumsum(rng.uniform(0.05, 1.0, n)) + float(rng.normal())
    if rng.random() < 0.3:
        x = np.arange(n) * 1.0
    y = rng.normal(size=n) * float(10.0**rng.integers(-1, 3))
    return x, y


def points(rng, x):
    span = x[-1] - x[0]
    out = [('node', float(v)) for v in rng.choice(x, size=min(4, len(x)), replace=False)]
    out += [('first', float(x[0])), ('last', float(x[-1])), ('last-', float(np.nextafter(x[-1], -np.inf))),
            ('last+', float(np.nextafter(x[-1], np.inf))), ('first-', float(np.nextafter(x[0], -np.inf)))]
    out += [('inside', float(v)) for v in rng.uniform(x[0], x[-1], 6)]
    out += [('before', float(x[0] - rng.uniform(0, 0.5) * span)), ('after', float(x[-1] + rng.uniform(0, 0.5) * span))]
    return out


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case['group'].startswith('problem'):
        return problem(case, mon, rng)
    from beluga.symbolic.special_functions.tables import TableSpline1D
    x, y = make(rng)
    ref = CubicSpline(x, y, bc_type='natural', extrapolate=True)
    xi, yi = x.copy(), y.copy()
    tab = mon.under(TableSpline1D, 'tab', y, x)
    h = np.diff(x).min()
    for order in range(0, 5):
        f = tab if order == 0 else mon.under(tab.form_eval_function, order)
        for loc, p in points(rng, x):
            if order == 3 and np.abs(x - p).min() < 1e-9:
                continue            # the third derivative jumps at the nodes
            v = float(mon.under(f, p))
            e = float(ref(p, order)) if order < 4 else 0.0
            s = 1 + abs(e) + np.abs(y).max() / h**order
            mon.check(abs(v - e) <= 1e-7 * s, 'value', lambda: 'derivative %d at %r (%s) is %r, the spline has %r; nodes %s values %s'
                      % (order, p, loc, v, e, list(x), list(y)), (case['mode'], order, loc, len(x)))
    for a, b in zip(x, y):
        v = float(mon.under(tab, float(a)))
        mon.check(abs(v - b) <= 1e-9 * (1 + np.abs(y).max()), 'data', lambda: 'the table gives %r at its own node %r -> %r' % (v, a, b),
                  (case['mode'], 'data', len(x)))
    mon.check(np.array_equal(x, xi) and np.array_equal(y, yi), 'aliasing', 'the table changed its data', 'aliasing')
    mon.sample = {'nodes': len(x), 'points per order': 17}


def problem(case, mon, rng):
    (x1, y1), (x2, y2) = make(rng), make(rng)
    y1 = y1 / (1 + np.abs(y1).max())
    y2 = y2 / (1 + np.abs(y2).max())
    a, b, k1 = [round(float(v), 3) for v in rng.uniform(0.4, 1.6, 3)]
    # arguments: affine in x, a product of states, and a table of a table
    spec = {'ind': 't', 'states': [['x', 'k1*tone(a*x + b) + u', 'm'], ['y', 'ttwo(x*y)', 'm'], ['z', 'tone(ttwo(z)) + x', 'm']],
            'controls': [['u', 'm']], 'constants': [['k1', k1, '1'], ['a', a, '1'], ['b', b, '1']],
            'tables': [['tone', '1d_spline', list(y1), list(x1), '1', ['1']], ['ttwo', '1d_spline', list(y2), list(x2), '1', ['1']]],
            'cost': {'initial': None, 'path': 'u**2/2 + tone(y)', 'terminal': 'ttwo(x)', 'units': '1'},
            'initial': [['x', 'm'], ['y', 'm'], ['z', 'm'], ['t', 's']], 'terminal': [['y - 1', 'm'], ['t - 1', 's']]}
    bvp = mon.under(ocp.to_bvp, mon.under(ocp.build_problem, spec), method=['traditional', 'diffyg'][int(rng.integers(2))],
                    control_method='differential', analytical_jacobian=True)
    fp = bvp.functional_problem
    sn, kn = ocp.names(bvp.states), ocp.names(bvp.constants)
    T1, T2 = CubicSpline(x1, y1, bc_type='natural'), CubicSpline(x2, y2, bc_type='natural')
    kv = np.array([{'k1': k1, 'a': a, 'b': b}[n] for n in kn])
    for _ in range(5):
        v = {n: float(rng.normal()) for n in sn}
        # place the arguments inside or slightly beyond the data
        v['x'] = float((rng.uniform(x1[0] - 0.2, x1[-1] + 0.2) - b) / a)
        v['y'] = float(rng.uniform(-1.5, 1.5))
        v['z'] = float(rng.uniform(x2[0], x2[-1]))
        v['u'] = -v['_lam_x']           # stationary
        yv = np.array([v[n] if not n == '_lam_u' else 0.0 for n in sn])
        d = float(rng.uniform(0.5, 2))
        r = dict(zip(sn, np.asarray(mon.under(fp.deriv_func, yv, np.array([d]), kv), float).ravel()))
        X, Y, Z, u = v['x'], v['y'], v['z'], v['u']
        lx, ly, lz = v['_lam_x'], v['_lam_y'], v['_lam_z']
        A = a * X + b
        e = {'x': k1 * T1(A) + u, 'y': T2(X * Y), 'z': T1(T2(Z)) + X,
             '_lam_x': -(lx * k1 * a * T1(A, 1) + ly * Y * T2(X * Y, 1) + lz),
             '_lam_y': -(T1(Y, 1) + ly * X * T2(X * Y, 1)), '_lam_z': -lz * T1(T2(Z), 1) * T2(Z, 1)}
        e['u'] = -e['_lam_x']
        for n_, ev in e.items():
            mon.check(abs(r[n_] - d * ev) <= 1e-6 * (1 + abs(d * ev)), 'problem-rate',
                      lambda: 'rate of %s in a problem with tables is %r, expected %r' % (n_, r[n_], d * float(ev)), (case['mode'], n_))
        J = np.asarray(mon.under(fp.deriv_func_jac, yv, np.array([d]), kv)[0], float)
        i, j = sn.index('_lam_x'), sn.index('x')
        ev = -d * (lx * k1 * a * a * T1(A, 2) + ly * Y * Y * T2(X * Y, 2))
        mon.check(abs(J[i, j] - ev) <= 1e-6 * (1 + abs(ev)), 'problem-rate',
                  lambda: 'second derivative through a table is %r, expected %r' % (J[i, j], float(ev)), (case['mode'], 'second'))
    mon.sample = {'spec states': spec['states']}
