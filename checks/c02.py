"""C02: solve() returns solutions of the problem the user stated, end to end."""
import copy
import numpy as np
from scipy.integrate import solve_ivp
from scipy.linalg import expm
from vlib import ocp

LEVEL = 'exploration'
RULE = ('linear-quadratic problems (1-3 states, 1-2 controls, fixed and free terminal states, quadratic and linear terminal cost, '
        'time-varying forcing), the same with free parameters, free-final-time problems and brachistochrones with closed-form solutions, and random nonlinear '
        'problems judged by their necessary conditions, solved by solve() over formulations, control methods, solvers, scaling, '
        'Jacobians, guesses and continuations, interpreted and compiled; distinct = (family, method, control, solver, scaling, options)')
ASSUMPTIONS = ['closed-form (matrix exponential, cycloid) solutions are the reference for the benign families, which must be solved',
               'random nonlinear problems may fail to converge; whatever is flagged converged is judged']
MIN_OK = {'nonlinear': 0.5}


def cases(tier, seed):
    n = {'quick': 200, 'thorough': 3000}[tier]
    out = []
    for i in range(n):
        g = ['lq', 'lq', 'lq', 'freetime', 'brach', 'nonlinear', 'nonlinear', 'lq'][i % 8]
        out.append({'group': g, 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 150 if g != 'nonlinear' else 40, 'i': i,
                    'cost': {'brach': 4, 'nonlinear': 6}.get(g, 2)})
    for i in range(max(24, n // 8)):
        out.append({'group': 'param', 'mode': 'nojit', 'seed': seed * 100003 + 500000 + i, 'timeout': 150, 'i': i, 'cost': 2})
    for i in range(max(4, n // 30)):
        out.append({'group': 'compiled', 'mode': 'jit', 'seed': seed * 100003 + 700000 + i, 'timeout': 200, 'i': i, 'cost': 25})
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def config(rng, i, algebraic_ok=True):
    c = {'method': ['traditional', 'diffyg', 'indirect', 'traditional'][i % 4] if rng.random() < 0.8 else R(rng, ['brysonho', 'diffyg']),
         'cm': R(rng, ['differential', 'algebraic']) if algebraic_ok else 'differential',
         'algo': R(rng, ['Shooting', 'spbvp']), 'autoscale': bool(rng.random() < 0.5), 'jac': bool(rng.random() < 0.3)}
    return c


def solver(c, rng):
    import beluga
    if c['algo'] == 'spbvp':
        return beluga.bvp_algorithm('spbvp')
    kw = {}
    if rng.random() < 0.4:
        kw['num_arcs'] = int(rng.integers(2, 4))
    if rng.random() < 0.3:
        kw['algorithm'] = R(rng, ['fsolve', 'SLSQP', 'hybr'])
    if rng.random() < 0.5:
        kw['tolerance'] = 1e-5
    c['shoot'] = dict(kw)
    return beluga.bvp_algorithm(R(rng, ['Shooting', 'shooting']), **kw)


def go(mon, prob, c, rng, guess, steps=None, **kw):
    import beluga
    opts = {'control_method': c['cm'], 'analytical_jacobian': c['jac']}
    return mon.under(beluga.solve, ocp=prob, method=c['method'], optim_options=opts, bvp_algorithm=solver(c, rng), steps=steps,
                     guess_generator=guess, autoscale=c['autoscale'], save_sols=False, **kw)


# ------------------------------------------------------------------------------------------------ linear-quadratic
def lq(rng):
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    A = rng.normal(size=(n, n)) * 0.6 * (rng.random((n, n)) < 0.7)
    B = rng.normal(size=(n, m)) * (rng.random((n, m)) < 0.7)
    for j in range(m):
        B[int(rng.integers(n)), j] = R(rng, [1.0, -1.5, 0.8])
    c, d = rng.normal(size=n) * R(rng, [0, 1]), rng.normal(size=n) * R(rng, [0, 0, 0.5])
    Q, Rm = rng.uniform(0, 1, n) * R(rng, [0, 1, 1]), rng.uniform(0.5, 2, m)
    T = float(rng.uniform(0.5, 1.6))
    x0 = rng.normal(size=n)
    free = rng.random(n) < 0.5
    S, g = rng.uniform(0, 1, n), rng.normal(size=n) * 0.5
    # keep it well conditioned: fixed states must be controllable within T
    big = 2 * n + 2
    G = np.zeros((big, big))
    G[:n, :n] = A
    G[:n, n:2 * n] = -B @ np.diag(1 / Rm) @ B.T
    G[:n, -1] = c
    G[:n, -2] = d
    G[n:2 * n, :n] = -np.diag(Q)
    G[n:2 * n, n:2 * n] = -A.T
    G[-2, -1] = 1.0
    return dict(n=n, m=m, A=A, B=B, c=c, d=d, Q=Q, R=Rm, T=T, x0=x0, free=free, S=S, g=g, G=G)


def lq_solution(p, xf):
    n, E = p['n'], expm(p['G'] * p['T'])
    # unknown lambda0: terminal conditions
    K, r = np.zeros((n, n)), np.zeros(n)
    z0 = np.concatenate([p['x0'], np.zeros(n), [0.0, 1.0]])
    base = E @ z0
    for i in range(n):
        if p['free'][i]:
            K[i] = E[n + i, n:2 * n] - p['S'][i] * E[i, n:2 * n]
            r[i] = p['S'][i] * base[i] + p['g'][i] - base[n + i]
        else:
            K[i] = E[i, n:2 * n]
            r[i] = xf[i] - base[i]
    if np.linalg.cond(K) > 25:
        return None
    lam0 = np.linalg.solve(K, r)
    z0[n:2 * n] = lam0

    def at(t):
        return expm(p['G'] * t) @ z0

    def rate(t, w):
        z = at(t)
        u = -(p['B'].T @ z[n:2 * n]) / p['R']
        return [0.5 * (p['Q'] * z[:n]**2).sum() + 0.5 * (p['R'] * u**2).sum()]
    J = solve_ivp(rate, [0, p['T']], [0.0], rtol=1e-8, atol=1e-10).y[0, -1]
    zf = at(p['T'])
    J += sum(0.5 * p['S'][i] * zf[i]**2 + p['g'][i] * zf[i] for i in range(n) if p['free'][i])
    return at, J, lam0


def lq_spec(p, xf, rng):
    n, m = p['n'], p['m']
    xs = [str(a) for a in rng.permutation(['x', 'y', 'v', 'h'])[:n]]
    us = [str(a) for a in rng.permutation(['u', 'a1', 'th'])[:m]]
    # every coefficient is a constant with its unit, so that automatic scaling is a change of units
    consts = [['%s_0' % x, float(p['x0'][i]), 'm'] for i, x in enumerate(xs)] + [['T_f', p['T'], 's']]
    consts += [['%s_f' % x, float(xf[i]), 'm'] for i, x in enumerate(xs) if not p['free'][i]]

    def k(name, v, unit):
        if float(v) == 0.0:
            return '0'
        consts.append([name, float(v), unit])
        return name
    states = []
    for i, x in enumerate(xs):
        e = ' + '.join(['%s*%s' % (k('A%d%d' % (i, j), p['A'][i, j], '1/s'), xs[j]) for j in range(n)]
                       + ['%s*%s' % (k('B%d%d' % (i, j), p['B'][i, j], '1'), us[j]) for j in range(m)]
                       + [k('c%d' % i, p['c'][i], 'm/s')] + ['%s*t' % k('d%d' % i, p['d'][i], 'm/s**2')])
        states.append([x, e, 'm'])
    path = ' + '.join(['0.5*%s*%s**2' % (k('q%d' % i, p['Q'][i], '1/s'), x) for i, x in enumerate(xs)]
                      + ['0.5*%s*%s**2' % (k('r%d' % j, p['R'][j], 's'), u) for j, u in enumerate(us)])
    term = ' + '.join('0.5*%s*%s**2 + %s*%s' % (k('S%d' % i, p['S'][i], '1'), x, k('g%d' % i, p['g'][i], 'm'), x)
                      for i, x in enumerate(xs) if p['free'][i]) or None
    initial = [['%s - %s_0' % (x, x), 'm'] for x in xs] + [['t', 's']]
    terminal = [['%s - %s_f' % (x, x), 'm'] for i, x in enumerate(xs) if not p['free'][i]] + [['t - T_f', 's']]
    rng.shuffle(initial)
    rng.shuffle(terminal)
    rng.shuffle(consts)
    return {'ind': 't', 'states': states, 'controls': [[u, 'm/s'] for u in us], 'constants': [list(c) for c in consts],
            'cost': {'path': path, 'terminal': term, 'path_units': 'm**2/s', 'units': 'm**2'}, 'initial': [list(a) for a in initial], 'terminal': [list(a) for a in terminal],
            'scale': {'m': R(rng, [1, 2.5] + (['%s_0' % xs[0]] if abs(p['x0'][0]) > 0.4 else [])), 's': R(rng, [1, 0.7, 't'])}}, xs, us


def rnd(p):
    for k in ('A', 'B', 'c', 'd', 'Q', 'R', 'S', 'g'):
        p[k] = np.round(p[k], 10)
    return p


def run_lq(case, mon, rng):
    import beluga
    sol = None
    while sol is None:
        p = rnd(lq(rng))
        xf = rng.normal(size=p['n'])
        sol = lq_solution(p, xf)
    spec, xs, us = lq_spec(p, xf, rng)
    c = config(rng, case['i'])
    steps = None
    if not p['free'].all() and rng.random() < 0.5:
        steps = beluga.init_continuation()
        st = steps.add_step(R(rng, ['manual', 'bisection'])).num_cases(int(rng.integers(2, 4)))
        for i, x in enumerate(xs):
            if not p['free'][i]:
                xf[i] = xf[i] + float(rng.normal()) * 0.5
                st.const('%s_f' % x, float(xf[i]))
        sol = lq_solution(p, xf)
    g = beluga.guess_generator('auto', start=[float(a) for a in p['x0']], direction='forward', time_integrate=float(p['T'] * rng.uniform(0.7, 1.3)),
                               costate_guess=R(rng, [0.1, -0.1, [0.05 * (k + 1) for k in range(p['n'])]]),
                               control_guess=[0.1] * p['m'], use_control_guess=True)
    out = go(mon, ocp.build_problem(spec), c, rng, g, steps)
    s = out[-1][-1]
    key = ('lq', c['method'], c['cm'], c['algo'], c['autoscale'], c['jac'], p['n'], p['m'], str(c.get('shoot')), steps is not None)
    if not mon.check(bool(s.converged), 'not-solved', lambda: 'a linear-quadratic problem is not solved with %s' % c, key):
        return
    n = p['n']
    Z = np.array([sol[0](t) for t in s.t])
    tol = 2e-2
    scale = 1 + np.abs(Z[:, :2 * n]).max()
    cmp(mon, 'time', [s.t[0], s.t[-1]], [0.0, p['T']], 2e-3 * scale)
    cmp(mon, 'state', s.y, Z[:, :n], tol * scale)
    cmp(mon, 'costate', s.dual, Z[:, n:2 * n], tol * scale)
    U = -(Z[:, n:2 * n] @ p['B']) / p['R']
    cmp(mon, 'control', s.u, U, tol * scale * 2)
    cmp(mon, 'cost', s.cost, sol[1], tol * scale**2)
    cmp(mon, 'constants', [s.const[ [k[0] for k in spec['constants']].index('%s_f' % x)] for i, x in enumerate(xs) if not p['free'][i]],
        [xf[i] for i in range(n) if not p['free'][i]], 1e-9 * scale)
    mon.sample = {'config': c, 'cost': float(s.cost), 'reference_cost': float(sol[1])}


def cmp(mon, what, got, want, tol):
    a, b = np.asarray(got, float), np.asarray(want, float)
    ok = a.shape == b.shape and np.all(np.abs(a - b) <= tol)
    mon.check(ok, what, lambda: '%s of the solution is off by %s (tolerance %.2g): got %s, closed form %s' % (
        what, np.abs(a - b).max() if a.shape == b.shape else 'shape', tol, a.ravel()[-4:], b.ravel()[-4:]), what)


# ------------------------------------------------------------------------------------------------ free parameters
def run_param(case, mon, rng):
    """Linear-quadratic problems with free parameters: x' = .. + E p, cost .. + 1/2 rp p^2; the parameter is stationary on the whole."""
    import beluga
    from beluga.numeric.data_classes import Trajectory
    k = int(rng.integers(1, 3))
    while True:
        p = rnd(lq(rng))
        n, T = p['n'], p['T']
        E = np.round(rng.normal(size=(n, k)) * (rng.random((n, k)) < 0.7), 10)
        E[int(rng.integers(n)), :] = R(rng, [1.0, -0.7])
        rp = np.round(rng.uniform(0.5, 2, k), 10)
        xf = rng.normal(size=n)
        big = 2 * n + 2 + 2 * k
        G = np.zeros((big, big))
        G[:2 * n + 2, :2 * n + 2] = p['G']
        ip, iw = slice(2 * n + 2, 2 * n + 2 + k), slice(2 * n + 2 + k, big)
        G[:n, ip] = E
        G[iw, n:2 * n] = E.T
        G[iw, ip] = np.diag(rp)
        X = expm(G * T)
        z0 = np.zeros(big)
        z0[:n] = p['x0']
        z0[2 * n + 1] = 1.0
        free = list(range(n, 2 * n)) + list(range(2 * n + 2, 2 * n + 2 + k))
        base = X @ z0
        K, r = np.zeros((n + k, n + k)), np.zeros(n + k)
        for i in range(n):
            if p['free'][i]:
                K[i] = X[n + i, free] - p['S'][i] * X[i, free]
                r[i] = p['S'][i] * base[i] + p['g'][i] - base[n + i]
            else:
                K[i] = X[i, free]
                r[i] = xf[i] - base[i]
        K[n:] = X[iw][:, free]
        r[n:] = -base[iw]
        if np.linalg.cond(K) < 25:
            break
    z0[free] = np.linalg.solve(K, r)
    pv = z0[ip]
    spec, xs, us = lq_spec(p, xf, rng)
    pn = ['pa', 'pb'][:k]
    spec['params'] = [[a, '1'] for a in pn]
    for i in range(n):
        for j in range(k):
            if E[i, j]:
                spec['constants'].append(['E%d%d' % (i, j), float(E[i, j]), 'm/s'])
                spec['states'][i][1] += ' + E%d%d*%s' % (i, j, pn[j])
    for j in range(k):
        spec['constants'].append(['rp%d' % j, float(rp[j]), 'm**2/s'])
        spec['cost']['path'] += ' + 0.5*rp%d*%s**2' % (j, pn[j])
    c = config(rng, case['i'])
    c['method'] = 'traditional'
    N = int(rng.integers(5, 30))
    t = np.linspace(0, T, N)
    g = Trajectory(t, np.outer(1 - t / T, p['x0']) + np.outer(t / T, xf), np.array([]), 0.1 * np.ones((N, p['m'])))
    g.dual = 0.1 * np.ones((N, n))
    g.const = np.array([a[1] for a in spec['constants']], float)
    g.dynamical_parameters = 0.1 * np.ones(k)
    out = go(mon, ocp.build_problem(spec), c, rng, beluga.guess_generator('static', solinit=g))
    s = out[-1][-1]
    key = ('param', k, c['cm'], c['algo'], c['autoscale'], c['jac'], n, p['m'], str(c.get('shoot')))
    if not mon.check(bool(s.converged), 'not-solved', lambda: 'a linear-quadratic problem with free parameters is not solved with %s' % c, key):
        return
    Z = np.array([expm(G * a) @ z0 for a in s.t])
    scale = 1 + np.abs(Z[:, :2 * n]).max() + np.abs(pv).max()
    cmp(mon, 'time', [s.t[0], s.t[-1]], [0.0, T], 2e-3 * scale)
    cmp(mon, 'parameters', s.dynamical_parameters, pv, 2e-2 * scale)
    cmp(mon, 'state', s.y, Z[:, :n], 2e-2 * scale)
    cmp(mon, 'costate', s.dual, Z[:, n:2 * n], 2e-2 * scale)
    cmp(mon, 'control', s.u, -(Z[:, n:2 * n] @ p['B']) / p['R'], 4e-2 * scale)
    mon.sample = {'config': c, 'parameters': s.dynamical_parameters.tolist(), 'closed form': pv.tolist()}


# ------------------------------------------------------------------------------------------------ free final time
def run_freetime(case, mon, rng):
    """min int (w + |u|^2/2) dt, x' = k*u: straight line, |u| = sqrt(2 w), T = |dx|/(k sqrt(2 w))."""
    import beluga
    n = int(rng.integers(1, 4))
    w, k = float(rng.uniform(0.4, 2)), float(rng.uniform(0.5, 2))
    xs, us = ['x', 'y', 'z'][:n], ['u', 'v1', 'w1'][:n]
    x0 = rng.normal(size=n)
    d0 = rng.normal(size=n)
    d0 = d0 / np.linalg.norm(d0) * rng.uniform(0.7, 2)
    d1 = d0 + rng.normal(size=n) * 0.3
    spec = {'ind': 't', 'states': [[x, 'k*%s' % u, 'm'] for x, u in zip(xs, us)], 'controls': [[u, 'm/s'] for u in us],
            'constants': [['k', k, '1'], ['w', w, 'm**2/s**2']] + [['%s_f' % x, float(a), 'm'] for x, a in zip(xs, x0 + d0)] + [['%s_0' % x, float(a), 'm'] for x, a in zip(xs, x0)],
            'cost': {'path': 'w + (%s)/2' % ' + '.join('%s**2' % u for u in us), 'path_units': 'm**2/s**2', 'units': 'm**2/s'},
            'initial': [['%s - %s_0' % (x, x), 'm'] for x in xs] + [['t', 's']], 'terminal': [['%s - %s_f' % (x, x), 'm'] for x in xs],
            'scale': {'m': R(rng, [1, 3.0]), 's': R(rng, [1, 2.0])}}
    c = config(rng, case['i'])
    v = np.sqrt(2 * w)
    T0 = np.linalg.norm(d0) / (k * v)
    u0 = d0 / np.linalg.norm(d0) * v
    lam = -u0 / k
    steps = beluga.init_continuation()
    st = steps.add_step(R(rng, ['manual', 'bisection'])).num_cases(4)
    for i, x in enumerate(xs):
        st.const('%s_f' % x, float(x0[i] + d1[i]))
    g = beluga.guess_generator('auto', start=[float(a) for a in x0], time_integrate=float(T0 * rng.uniform(0.9, 1.1)),
                               costate_guess=[float(a) * 1.05 for a in lam], control_guess=[float(a) * 0.95 for a in u0], use_control_guess=True)
    out = go(mon, ocp.build_problem(spec), c, rng, g, steps)
    s = out[-1][-1]
    key = ('freetime', c['method'], c['cm'], c['algo'], c['autoscale'], c['jac'], n)
    if not mon.check(bool(s.converged), 'not-solved', lambda: 'a free-final-time problem is not solved with %s' % c, key):
        return
    T = np.linalg.norm(d1) / (k * v)
    u = d1 / np.linalg.norm(d1) * v
    cmp(mon, 'time', [s.t[0], s.t[-1]], [0.0, T], 2e-2 * (1 + T))
    cmp(mon, 'state', s.y, x0 + np.outer(s.t, k * u), 3e-2 * (1 + np.abs(x0).max()))
    cmp(mon, 'control', s.u, np.tile(u, (len(s.t), 1)), 3e-2 * (1 + v))
    cmp(mon, 'costate', s.dual, np.tile(-u / k, (len(s.t), 1)), 3e-2 * (1 + v / k))
    cmp(mon, 'cost', s.cost, 2 * w * T, 3e-2 * (1 + 2 * w * T))


# ------------------------------------------------------------------------------------------------ brachistochrone
def run_brach(case, mon, rng):
    import beluga
    from scipy.optimize import brentq
    g0 = -float(rng.uniform(4, 12))
    X, Y = float(rng.uniform(4, 10)), -float(rng.uniform(4, 10))
    spec = {'ind': 't', 'states': [['x', 'v*cos(th)', 'm'], ['y', 'v*sin(th)', 'm'], ['v', 'g*sin(th)', 'm/s']], 'controls': [['th', 'rad']],
            'constants': [['g', g0, 'm/s**2'], ['x_f', 0, 'm'], ['y_f', 0, 'm']], 'cost': {'path': '1', 'path_units': '1', 'units': 's'},
            'initial': [['x', 'm'], ['y', 'm'], ['v', 'm/s'], ['t', 's']], 'terminal': [['x - x_f', 'm'], ['y - y_f', 'm']],
            'scale': {'m': 'y', 's': 'y/v', 'kg': 1, 'rad': 1}}
    c = config(rng, case['i'])
    c['autoscale'] = True
    prob = ocp.build_problem(spec)
    steps = beluga.init_continuation()
    steps.add_step('bisection').num_cases(8).const('x_f', X).const('y_f', Y)
    gg = beluga.guess_generator('auto', start=[0, 0, 0], costate_guess=-0.1, control_guess=[-np.pi / 2], use_control_guess=True)
    if c['algo'] != 'spbvp':
        rng = np.random.default_rng(12345)      # the plain shooting configuration of the shipped example
        class NoArcs:
            random = staticmethod(lambda: 0.99)
            integers = rng.integers
        out = go(mon, prob, c, NoArcs, gg, steps, initial_helper=True)
    else:
        out = go(mon, prob, c, rng, gg, steps, initial_helper=True)
    s = out[-1][-1]
    key = ('brach', c['method'], c['cm'], c['algo'], c['jac'])
    if not mon.check(bool(s.converged), 'not-solved', lambda: 'the brachistochrone to (%g, %g) is not solved with %s' % (X, Y, c), key):
        return
    # cycloid x = r (a - sin a), -y = r (1 - cos a)
    h = -Y
    a = brentq(lambda a: X * (1 - np.cos(a)) - h * (a - np.sin(a)), 1e-6, 2 * np.pi - 1e-6)
    r = h / (1 - np.cos(a))
    T = a * np.sqrt(r / -g0)
    w = np.sqrt(-g0 / r)
    cmp(mon, 'time', [s.t[0], s.t[-1]], [0, T], 5e-3 * (1 + T))
    ph = w * s.t
    cmp(mon, 'state', s.y[:, :2], np.column_stack([r * (ph - np.sin(ph)), -r * (1 - np.cos(ph))]), 3e-2 * (1 + X + h))
    cmp(mon, 'state', s.y[:, 2], np.sqrt(np.maximum(0, 2 * -g0 * -s.y[:, 1])), 3e-2 * (1 + np.sqrt(2 * -g0 * h)))
    cmp(mon, 'cost', s.cost, T, 5e-3 * (1 + T))
    th = np.arctan2(-np.sin(ph), 1 - np.cos(ph))[2:]
    cmp(mon, 'control', np.column_stack([np.cos(s.u[2:, 0]), np.sin(s.u[2:, 0])]), np.column_stack([np.cos(th), np.sin(th)]), 5e-2)


# ------------------------------------------------------------------------------------------------ nonlinear, by necessary conditions
def run_nonlinear(case, mon, rng):
    import beluga
    alg = rng.random() < 0.3
    spec = ocp.random_spec(rng, n_states=int(rng.integers(1, 3)), n_controls=1, affine=alg, allow_initial_cost=False, max_terms=2)
    t = spec['ind']
    # fixed initial point, named terminal targets: the initial helper can match them to the guess
    x0 = rng.normal(size=len(spec['states'])) * 0.5
    xs = [s[0] for s in spec['states']]
    drop = {x + e for x in xs for e in ('_0', '_f')} | {t + '_f'}
    spec['constants'] = [c for c in spec['constants'] if c[0] not in drop]
    spec['constants'] += [[x + '_0', float(a), 'm'] for x, a in zip(xs, x0)] + [[x + '_f', float(a), 'm'] for x, a in zip(xs, x0)] + [[t + '_f', 1.0, 's']]
    spec['initial'] = [['%s - %s_0' % (x, x), 'm'] for x in xs] + [[t, 's']]
    fixed = [x for x in xs if rng.random() < 0.6]
    spec['terminal'] = [['%s - %s_f' % (x, x), 'm'] for x in fixed] + [['%s - %s_f' % (t, t), 's']]
    c = config(rng, case['i'], alg)
    if not alg:
        c['cm'] = 'differential'
    c['autoscale'] = False
    c['algo'] = R(rng, ['Shooting', 'spbvp', 'spbvp'])
    steps = beluga.init_continuation()
    st = steps.add_step('bisection', max_divisions=2).num_cases(3).const(t + '_f', 0.7)
    for x, a in zip(xs, x0):
        if x in fixed:
            st.const(x + '_f', float(a + 0.2 * rng.normal()))
    g = beluga.guess_generator('auto', start=[float(a) for a in x0], time_integrate=0.5, costate_guess=0.1, control_guess=[0.0], use_control_guess=True)
    from vlib.signals import Undecided
    try:
        out = beluga.solve(ocp=ocp.build_problem(spec), method=c['method'], optim_options={'control_method': c['cm'], 'analytical_jacobian': c['jac']},
                           bvp_algorithm=solver(c, rng), steps=steps, guess_generator=g, autoscale=False, save_sols=False, initial_helper=True)
    except RuntimeError as e:
        if 'converge' in str(e) or 'max_divisions' in str(e) or 'Nan' in str(e) or 'diverged' in str(e):
            mon.seen(('nonlinear', 'not-converged'))
            mon.count('not_converged')
            return
        raise
    except ValueError as e:
        # scipy's own complaint about a diverging guess (nan) is a failure to converge, not a wrong answer
        if 'inf' in str(e) or 'nan' in str(e).lower():
            mon.seen(('nonlinear', 'not-converged'))
            return
        raise
    except OverflowError:
        mon.seen(('nonlinear', 'overflow'))
        return
    M = ocp.PMP(spec)
    kn = [k[0] for k in spec['constants']]
    for s in [a for step in out for a in step]:
        if not s.converged:
            continue
        conditions(mon, M, spec, s, xs, t, kn, ('nonlinear', c['method'], c['cm'], c['algo'], len(fixed)), fixed)
        mon.count('converged')


def conditions(mon, M, spec, s, xs, t, kn, key, fixed):
    kv = dict(zip(kn, [float(a) for a in s.const]))
    us = [u[0] for u in spec['controls']]
    n, m = len(xs), len(us)

    def vals(y, lam, u, tt):
        v = dict(kv)
        v.update(zip(xs, y))
        v.update(zip(us, u))
        v[t] = tt
        v.update({'L__' + x: l for x, l in zip(xs, lam)})
        return v
    big = 1 + max(np.abs(s.y).max(), np.abs(s.dual).max(), np.abs(s.u).max())
    tol = 1e-2 * big
    mon.check(abs(s.t[0]) <= tol * 0.1 and abs(s.t[-1] - kv[t + '_f']) <= tol * 0.1, 'time', lambda: 'the solution covers [%g, %g]' % (s.t[0], s.t[-1]), key)
    for i, x in enumerate(xs):
        mon.check(abs(s.y[0, i] - kv[x + '_0']) <= tol * 0.3, 'state', 'the initial value of %s is not the stated one' % x)
        if x in fixed:
            mon.check(abs(s.y[-1, i] - kv[x + '_f']) <= tol * 0.3, 'state', lambda: 'the terminal value of %s is %g, stated %g' % (x, s.y[-1, i], kv[x + '_f']))
        else:
            want = M.num('Gfx', vals(s.y[-1], s.dual[-1], s.u[-1], s.t[-1]))[i]
            mon.check(abs(s.dual[-1, i] - want) <= tol, 'costate', lambda: 'free terminal state %s: costate %g, transversality says %g' % (x, s.dual[-1, i], want))
    step = max(1, len(s.t) // 25)
    ix = sorted(set(list(range(0, len(s.t), step)) + [len(s.t) - 1]))
    for i in ix:
        g = M.num('Hu', vals(s.y[i], s.dual[i], s.u[i], s.t[i]))
        mon.check(np.abs(g).max() <= 3e-2 * big**2, 'control', lambda: 'dH/du = %s at t = %g' % (g, s.t[i]))

    def rhs(tt, z):
        v = vals(z[:n], z[n:2 * n], z[2 * n:], tt)
        f, hx = M.num('f', v), M.num('Hx', v)
        ld = -hx
        v['L__' + t] = 0.0
        ud = -np.linalg.solve(M.num('Huu', v), M.num('Hux', v) @ f + M.num('Hul', v)[:, :n] @ ld[:n])
        return np.concatenate([f[:n], ld[:n], ud])
    worst = 0.0
    for i, j in zip(ix[:-1], ix[1:]):
        z = np.concatenate([s.y[i], s.dual[i], s.u[i]])
        # project the control onto stationarity first (its small residual would otherwise be transported)
        r = solve_ivp(rhs, [s.t[i], s.t[j]], z, method='RK45', rtol=1e-7, atol=1e-8)
        if r.success and np.all(np.isfinite(r.y)):
            worst = max(worst, np.abs(r.y[:2 * n, -1] - np.concatenate([s.y[j], s.dual[j]])).max())
    mon.check(worst <= tol, 'dynamics', lambda: 'states and costates do not follow the necessary conditions between nodes: %g (tolerance %g)' % (worst, tol))


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case['group'] == 'compiled':
        return [run_lq, run_freetime, run_lq, run_brach][case['i'] % 4](case, mon, rng)
    {'lq': run_lq, 'freetime': run_freetime, 'brach': run_brach, 'nonlinear': run_nonlinear, 'param': run_param}[case['group']](case, mon, rng)
