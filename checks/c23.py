"""C23: the cost of a returned trajectory is the stated cost of that trajectory."""
import copy
import numpy as np
import sympy as sp
from scipy.interpolate import CubicSpline
from vlib import ocp
from vlib.runner import load_check

LEVEL = 'exploration'
RULE = ('random problems (initial, path and terminal costs in any combination, explicit time, free parameters, quantities, functions, any order of '
        'constants, units and scaling, both control methods and formulations) solved with a recording solver that answers with smooth densely '
        'sampled trajectories; the cost attached to every returned trajectory of every continuation case is compared with an independent '
        'evaluation of the stated functional on the returned times, states, controls, parameters and constants; '
        'distinct = (terms of the cost, formulation, control method, scaling, parameters, continuation)')
ASSUMPTIONS = ['trajectories are dense enough (201-401 nodes) for any consistent quadrature to agree to 2e-3 of the integral of |L|',
               'bounds enforced by penalties add their penalty to the reported cost and are outside this claim']


def cases(tier, seed):
    n = {'quick': 400, 'thorough': 8000}[tier]
    out = [{'group': 'static', 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 40, 'cost': 1} for i in range(n)]
    out += [{'group': 'static', 'mode': 'jit', 'seed': seed * 100003 + 50000 + i, 'timeout': 200, 'cost': 12} for i in range(max(3, n // 90))]
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def run(case, mon):
    import beluga
    from beluga.numeric.data_classes import Trajectory
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm, BVPResult
    rng = np.random.default_rng(case['seed'])
    cm = R(rng, ['algebraic', 'differential'])
    method = R(rng, ['traditional', 'traditional', 'diffyg'])
    small = case['mode'] == 'jit'
    spec = ocp.random_spec(rng, affine=cm == 'algebraic', n_controls=1 if cm == 'algebraic' else None, n_states=2 if small else None, max_terms=2)
    xs, us, ind = [s[0] for s in spec['states']], [c[0] for c in spec['controls']], spec['ind']
    names = xs + [ind]
    # more cost terms than the generator writes
    c = spec['cost']
    term = lambda: '%s*%s' % (R(rng, ['0.7', '2', '-1.5']), R(rng, ['{a}', '{a}**2', 'sin({a})', '{a}*{b}', 'exp({a}/4)']).format(a=R(rng, names), b=R(rng, xs)))
    for k in ('initial', 'terminal'):
        if rng.random() < 0.4:
            c[k] = (c[k] + ' + ' if c[k] else '') + term()
        elif rng.random() < 0.3:
            c[k] = None
    if rng.random() < 0.3:
        c['path'] += ' + ' + term()
    if rng.random() < 0.12:
        c['path'] = c['path'] + ' + ' + R(rng, ['1', '3.5'])
    params = []
    if method == 'traditional' and rng.random() < 0.25:
        params = ['pa', 'pb'][:int(rng.integers(1, 3))]
        spec['params'] = [[p, '1'] for p in params]
        spec['states'][0][1] += ' + ' + ' + '.join('%s*%s' % (p, R(rng, xs)) for p in params)
        k = R(rng, ['path', 'terminal', 'initial'])
        c[k] = ' + '.join(([str(c[k])] if c[k] else []) + ['0.3*%s**2*%s' % (p, R(rng, xs)) for p in params])
    quant = rng.random() < 0.3
    subs = {}
    if quant:
        spec['quantities'] = [['qq', '%s + 0.5*%s**2' % (R(rng, xs), R(rng, names))], ['q3', '2*qq*%s' % R(rng, xs)]]
        c['path'] = str(c['path']) + ' + 0.2*qq + 0.1*q3'
        if c['terminal']:
            c['terminal'] += ' - 0.4*q3'
    prob = ocp.build_problem(spec)
    N = int(rng.integers(100, 201)) * 2 + 1 - int(rng.random() < 0.2)
    if rng.random() < 0.08:
        N = N * int(rng.integers(2, 5)) + int(rng.integers(2))
    t0 = 0.0 if rng.random() < 0.6 else round(float(rng.normal()), 2)
    T = float(rng.uniform(0.4, 1.6))

    def smooth(n):
        def f(t, w=rng.normal(size=(3, n)) * 0.6, s=rng.uniform(0.5, 3, size=(2, n))):
            return w[0] + w[1] * np.sin(np.multiply.outer(t, s[0])) + w[2] * np.cos(np.multiply.outer(t, s[1]))
        return f

    def grid():
        g = np.linspace(0, 1, N)
        g = g + 0.12 * np.sin(2 * np.pi * g) / (2 * np.pi) * R(rng, [0, 1, -1])
        return t0 + T * g

    def traj():
        t = grid()
        g = Trajectory(t, smooth(len(xs))(t), np.array([]), smooth(len(us))(t))
        g.dual = smooth(len(xs))(t)
        g.q = np.zeros((N, len(params))) if params and rng.random() < 0.3 else np.array([])
        g.dynamical_parameters = rng.normal(size=len(params))
        g.const = np.array([k[1] for k in spec['constants']], float)
        return g
    answers = [traj() for _ in range(4)]

    maps = {}
    calls = []

    class Rec(BaseAlgorithm):
        def solve(self, solinit, **kw):
            i = len(calls)
            sol = copy.deepcopy(solinit)
            if i and not auto:
                a = maps['f'](copy.deepcopy(answers[min(i, 3)]))
                a.nondynamical_parameters = sol.nondynamical_parameters
                a.const = np.array(sol.const)
                sol = a
            sol.converged = True
            calls.append(1)
            return BVPResult(sol=sol, success=True, message='', niter=1)
    auto = bool(rng.random() < 0.35)
    steps = None
    mov = R(rng, [k[0] for k in spec['constants']])
    if rng.random() < 0.5:
        steps = beluga.init_continuation()
        steps.add_step('bisection').num_cases(3).const(mov, round(float(rng.normal()), 2))
    bvp = mon.under(ocp.to_bvp, prob, method=method, control_method=cm)
    maps['f'] = bvp.map_sol
    out = mon.under(beluga.solve, ocp=prob, bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol, bvp_algorithm=Rec(), steps=steps,
                    guess_generator=beluga.guess_generator('static', solinit=answers[0]), autoscale=auto, save_sols=False)
    loc = {n: sp.Symbol(n) for n in names + us + params + [k[0] for k in spec['constants']]}
    q = {}
    for n, e in spec.get('quantities', []):
        q[n] = sp.sympify(e, locals=dict(loc, **q))
    S = lambda e: sp.sympify(e or 0, locals=dict(loc, **q))
    kn = [k[0] for k in spec['constants']]
    args = [loc[n] for n in names + us + params + kn]
    f0, fp, ff = (sp.lambdify(args, S(c[k]), 'numpy') for k in ('initial', 'path', 'terminal'))
    key = (bool(c['initial']), bool(c['path']), bool(c['terminal']), method, cm, auto, len(params), steps is not None, quant)
    for s in out[-1]:
        rows = [list(y) + [t] + list(u) + list(s.dynamical_parameters) + list(s.const[:len(kn)]) for y, t, u in zip(s.y, s.t, s.u)]
        if not np.all(np.isfinite(rows)) or np.max(np.abs(rows)) > 60:
            mon.count('too wild')
            continue
        L = np.array([float(fp(*r)) for r in rows])
        t = np.asarray(s.t, float)
        want = float(f0(*rows[0])) + float(ff(*rows[-1])) + float(CubicSpline(t, L).integrate(t[0], t[-1]))
        scale = abs(float(f0(*rows[0]))) + abs(float(ff(*rows[-1]))) + float(np.trapz(np.abs(L), t))
        mon.check(abs(s.cost - want) <= 2e-3 * scale + 1e-9, 'cost', lambda: 'reported cost %r, the stated cost of the returned trajectory is %r (initial %r, path %r, terminal %r)' % (
            s.cost, want, c['initial'], c['path'], c['terminal']), key)
    mon.sample = {'cost': c, 'reported': [float(s.cost) for s in out[-1]], 'formulation': [method, cm]}
