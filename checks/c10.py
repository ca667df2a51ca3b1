"""C10: inequality constraints become exactly the stated penalties and substitutions, and are respected."""
import re
import numpy as np
from scipy.optimize import minimize
from vlib import meta, ocp
from vlib.runner import load_check
from vlib.signals import Undecided

LEVEL = 'exploration'
RULE = ('random problems with several inequality constraints (bounded controls by trigonometrisation, secant penalties on initial, path '
        'and terminal expressions, in any order, with constant and varying bounds, also sharing variables) compared with the '
        'problem written out by hand; the control handed back for arbitrary trajectories against its bounds; and solved problems with inequality '
        'constraints against the minimum of the penalised cost; distinct = (kinds of constraints, formulation, shape)')
ASSUMPTIONS = ['constraints with both bounds are regularised; one-sided ones are outside the claim',
               'for an integrator the optimal control of the convex penalised problem is constant, so a two-variable minimisation is the reference']
SEC = '(1/cos(pi/2*(2*(%s) - (%s) - (%s))/((%s) - (%s))) - 1)'


def cases(tier, seed):
    n = {'quick': 240, 'thorough': 4500}[tier]
    out = []
    for i in range(n):
        g = ['written-out', 'written-out', 'bounds', 'solve', 'solve'][i % 5]
        out.append({'group': g, 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 90, 'i': i, 'cost': 3 if g == 'solve' else 1})
    for i in range({'quick': 3, 'thorough': 30}[tier]):
        out.append({'group': 'bryson-denham', 'mode': 'nojit', 'seed': seed * 100003 + 700000 + i, 'timeout': 200, 'i': i, 'cost': 40})
        out.append({'group': 'compiled', 'mode': 'jit', 'seed': seed * 100003 + 800000 + i, 'timeout': 200, 'i': i, 'cost': 25})
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def build(rng, trig_only=False):
    spec = ocp.random_spec(rng, n_states=int(rng.integers(1, 4)), n_controls=int(rng.choice([1, 1, 1, 2, 2, 2, 3])), max_terms=2)
    xs, us = [s[0] for s in spec['states']], [u[0] for u in spec['controls']]
    quants = {}
    cons = []        # (where, expr, lower, upper, activator, method)
    K = spec['constants']

    def const(prefix, v):
        n = '%s%d' % (prefix, len(K))
        K.append([n, v, '1'])
        return n

    def bounds(varying):
        lo, hi = const('lo', -float(rng.uniform(2, 4))), const('hi', float(rng.uniform(2, 4)))
        r = rng.random()
        if r < 0.25:
            return '-%s' % hi, hi
        if r < 0.4:
            return '-3', '2.5'
        if r < 0.55:
            q = 'bq%d' % len(quants)
            quants[q] = '%s + 0.1*%s**2' % (hi, R(rng, xs + [spec['ind']])) if varying else '1.2*%s' % hi
            return R(rng, [lo, '-' + q]), R(rng, [q, '%s + 0.5' % q])
        if varying and r < 0.7:
            return '%s - 0.1*%s**2' % (lo, R(rng, xs + [spec['ind']])), '%s + 0.2*%s**2' % (hi, R(rng, xs + [spec['ind']]))
        return lo, hi
    for u in us:
        if rng.random() < (0.6 if not trig_only else 0.8):
            cons.append(['path', u, *bounds(True), const('eps', float(rng.uniform(0.05, 1))), R(rng, ['epstrig', 'EPSTRIG', 'epsTrig'])])
    if not trig_only or not cons:
        if trig_only:
            cons.append(['path', us[0], *bounds(True), const('eps', 0.3), 'epstrig'])
        for _ in range(int(rng.integers(0 if cons else 1, 4)) if not trig_only else 0):
            where = R(rng, ['path', 'path', 'initial', 'terminal'])
            e = R(rng, ['%s', '0.5*%s', 'sin(%s)', '%s - 0.1*%s' % ('%s', R(rng, xs))]) % R(rng, xs)
            if where == 'path' and rng.random() < 0.4:
                e += ' + 0.3*' + R(rng, us)
            lo_hi = bounds(where == 'path' and rng.random() < 0.5)
            if where == 'path' and rng.random() < 0.25:
                lo_hi = lo_hi[0], '%s + 0.05*%s**2' % (lo_hi[1], R(rng, us))
            cons.append([where, e, *lo_hi, const('eps', float(rng.uniform(0.05, 1))), R(rng, ['utm', 'utm', 'UTM', None])])
    rng.shuffle(cons)
    cons = [[None if a is None else str(a) for a in c] for c in cons]
    spec['_quants'] = quants
    named = dict(spec, quantities=[[a, b] for a, b in quants.items()], path=[], initial=[list(a) for a in spec['initial']], terminal=[list(a) for a in spec['terminal']])
    for w, e, lo, hi, act, meth in cons:
        kw = dict(lower=lo, upper=hi, activator=act)
        if meth:
            kw['method'] = meth
        item = [e, '1', kw]
        if w == 'path':
            named['path'].append(item)
        else:
            named[w].insert(int(rng.integers(len(named[w]) + 1)), item)
    return spec, named, cons


def expand(spec, cons):
    def x(t):
        for q, e in spec['_quants'].items():
            t = re.sub(r'\b%s\b' % q, lambda m: '(' + e + ')', t)
        return t
    return [[w, x(e), x(lo), x(hi), a, m] for w, e, lo, hi, a, m in cons]


def written_out(spec, cons, trig):
    """The same problem without inequality constraints; trig maps each bounded control to its new name."""
    cost = dict(spec['cost'])
    cons = expand(spec, cons)
    for w, e, lo, hi, act, meth in cons:
        if (meth or 'utm').lower() == 'utm':
            cost[w] = (cost[w] or '0') + ' + %s*%s' % (act, SEC % (e, hi, lo, hi, lo))
    sub = {}
    for w, e, lo, hi, act, meth in cons:
        if (meth or 'utm').lower() == 'epstrig':
            cost['path'] += ' - %s*cos(%s)' % (act, trig[e])
            sub[e] = '(((%s) - (%s))/2*sin(%s) + ((%s) + (%s))/2)' % (hi, lo, trig[e], hi, lo)

    def s(text):
        if text is None:
            return None
        for u, x in sub.items():
            text = re.sub(r'\b%s\b' % re.escape(u), lambda m: x, text)
        return text
    return dict(spec, states=[[n, s(e), u] for n, e, u in spec['states']], controls=[[trig.get(n, n), u] for n, u in spec['controls']],
                cost={k: (s(v) if k in ('initial', 'path', 'terminal') else v) for k, v in cost.items()},
                initial=[[s(e), u] for e, u in spec['initial']], terminal=[[s(e), u] for e, u in spec['terminal']])


def new_names(bvp, spec, cons):
    """Which new unknown stands for which bounded control (each carries the name of its control)."""
    known = {s[0] for s in spec['states']} | {u[0] for u in spec['controls']} | {spec['ind']}
    fresh = [n for n in ocp.names(bvp.states) if n not in known and not n.startswith('_lam')]
    out = {}
    for w, e, lo, hi, act, meth in cons:
        if (meth or 'utm').lower() == 'epstrig':
            c = [n for n in fresh if re.search(r'(^|_)%s(_|$)' % re.escape(e), n)]
            out[e] = c[0] if len(c) == 1 else None
    return out, fresh


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    g = case['group']
    if g == 'solve':
        return run_solve(case, mon, rng)
    if g == 'bryson-denham':
        return run_bd(case, mon, rng)
    spec, named, cons = build(rng, trig_only=g == 'bounds')
    if sum(len(e) for _, e, _ in written_out(spec, cons, {c[1]: 'zz' for c in cons})['states']) > 1200:
        raise Undecided('too large')
    method = ['traditional', 'diffyg', 'traditional', 'traditional'][case['i'] % 4]
    A = mon.under(ocp.to_bvp, mon.under(ocp.build_problem, named), method=method)
    kinds = tuple(sorted('%s-%s' % (c[0], (c[5] or 'utm').lower()) for c in cons))
    key = (g, method, kinds, len(spec['states']), len(spec['controls']))
    trig, fresh = new_names(A, spec, cons)
    n_trig = sum((c[5] or 'utm').lower() == 'epstrig' for c in cons)
    if not mon.check(len(fresh) == n_trig and None not in trig.values() and len(set(trig.values())) == n_trig, 'unknowns',
                     lambda: 'unknowns %s for the bounded controls %s' % (fresh, list(trig)), key):
        return
    left = [c for c in A.constraints['path']]
    mon.check(not left, 'lost', lambda: 'path constraints were left unprocessed: %s' % left, key)
    consts = {c[0]: c[1] for c in spec['constants']}
    if g == 'bounds':
        return bounds_monitor(A, spec, cons, trig, consts, rng, mon, key)
    B = ocp.to_bvp(ocp.build_problem(written_out(spec, cons, trig)), method=method)
    if meta.compare(A, B, rng, mon, consts, key, what='the problem written out', scale=0.6) == 0:
        raise Undecided('no finite point')
    mon.sample = {'constraints': cons, 'cost': spec['cost']}


def bounds_monitor(bvp, spec, cons, trig, consts, rng, mon, key):
    from beluga.numeric.data_classes import Trajectory
    sn, kn = ocp.names(bvp.states), ocp.names(bvp.constants)
    t = spec['ind']
    for _ in range(3):
        n = int(rng.integers(2, 9))
        tau = np.linspace(0, 1, n)
        y = rng.normal(size=(n, len(sn))) * R(rng, [0.5, 2, 5])
        y[:, sn.index(t)] = R(rng, [0.0, -1.2, 2.5]) + tau * 1.7
        k = np.array([consts[a] for a in kn])
        s = Trajectory(tau, y, np.zeros((n, 0)), np.zeros((n, 0)))
        s.dynamical_parameters = np.ones(len(bvp.parameters)) * 1.7
        s.nondynamical_parameters = rng.normal(size=len(bvp.constraint_parameters))
        s.const = k
        out = mon.under(bvp.inv_map_sol, s)
        us = [u[0] for u in spec['controls']]
        mon.check(out.u.shape == (n, len(us)), 'shape', lambda: 'controls of shape %s' % (out.u.shape,), key)
        for c in expand(spec, cons):
            e, lo, hi = c[1], c[2], c[3]
            for i in range(n):
                env = dict(consts, **{a: y[i, sn.index(a)] for a in [s_[0] for s_ in spec['states']] + [t]})
                L, H = (eval(b, {'sin': np.sin, 'cos': np.cos}, env) for b in (lo, hi))
                u = out.u[i, us.index(e)]
                z = y[i, sn.index(trig[e])]
                want = (H - L) / 2 * np.sin(z) + (H + L) / 2
                mon.check(min(L, H) - 1e-9 * (1 + abs(L)) <= u <= max(L, H) + 1e-9 * (1 + abs(H)), 'bounds', lambda: 'control %s = %g returned outside [%g, %g]' % (e, u, L, H), key)
                mon.check(abs(u - want) <= 1e-9 * (1 + abs(want)), 'value', lambda: 'control %s = %g returned where the bounded control is %g' % (e, u, want), key)


# ------------------------------------------------------------------------------------------------ solved problems
def run_solve(case, mon, rng):
    """x' = k u, min int u^2/2 + S/2 (x(T) - c)^2 with bounds on u, x(T): the penalised problem is convex with constant control."""
    import beluga
    kind = R(rng, ['epstrig', 'utm', 'none'])
    term = bool(rng.random() < 0.5) or kind == 'none'
    T, S, c = float(rng.uniform(0.5, 2)), float(rng.uniform(0.5, 2)), float(R(rng, [1, -1]) * rng.uniform(0.8, 2))
    lo, hi = -float(rng.uniform(0.4, 1.5)), float(rng.uniform(0.4, 1.5))
    xl, xh = -float(rng.uniform(0.4, 1.2)), float(rng.uniform(0.4, 1.2))
    e1, e2, k = float(10**rng.uniform(-2, 0)), float(10**rng.uniform(-1, 0)), float(rng.uniform(0.7, 1.4))
    spec = {'ind': 't', 'states': [['x', 'k*u', 'm']], 'controls': [['u', 'm']],
            'constants': [['k', k, '1'], ['T_f', T, 's'], ['S', S, '1'], ['c', 0.1, 'm'], ['e1', 1.0, '1'], ['e2', 1.0, '1'],
                          ['lo', lo, 'm'], ['hi', hi, 'm'], ['xl', xl, 'm'], ['xh', xh, 'm']],
            'cost': {'path': 'u**2/2', 'terminal': 'S*(x - c)**2/2', 'units': '1'},
            'initial': [['x', 'm'], ['t', 's']], 'terminal': [['t - T_f', 's']], 'path': []}
    if kind != 'none':
        spec['path'].append(['u', 'm', dict(lower='lo', upper='hi', activator='e1', method=kind)])
    if term:
        spec['terminal'].insert(int(rng.integers(2)), ['x', 'm', dict(lower='xl', upper='xh', activator='e2')])
    steps = beluga.init_continuation()
    # the target moves out of the bounds in small steps: a penalty method started from far away may jump over its barrier
    steps.add_step('bisection').num_cases(9).const('c', c)
    steps.add_step('bisection').num_cases(6, 'log').const('e1', e1).const('e2', e2)
    algo = R(rng, ['Shooting', 'spbvp'])
    method = R(rng, ['indirect', 'diffyg'])
    g = beluga.guess_generator('auto', start=[0.0], time_integrate=T, costate_guess=[-0.05], control_guess=[0.05], use_control_guess=True)
    out = mon.under(beluga.solve, ocp=ocp.build_problem(spec), method=method, optim_options={'control_method': 'differential', 'analytical_jacobian': bool(rng.random() < 0.4)},
                    bvp_algorithm=beluga.bvp_algorithm(algo), steps=steps, guess_generator=g, autoscale=False, save_sols=False)
    s = out[-1][-1]
    key = ('solve', kind, term, algo, method)
    if not mon.check(bool(s.converged), 'not-solved', lambda: 'a convex bounded problem is not solved (%s, terminal %s, %s, %s)' % (kind, term, algo, method), key):
        return

    def sec(v, a, b):
        z = (2 * v - a - b) / (b - a)
        return np.inf if abs(z) >= 1 else 1 / np.cos(np.pi / 2 * z) - 1

    def J(u):
        u = float(np.ravel(u)[0])
        x = k * u * T
        j = T * u * u / 2 + S * (x - c)**2 / 2
        if kind == 'epstrig':
            z = (2 * u - lo - hi) / (hi - lo)
            j += np.inf if abs(z) > 1 else -T * e1 * np.sqrt(1 - z * z)
        elif kind == 'utm':
            j += T * e1 * sec(u, lo, hi)
        if term:
            j += e2 * sec(x, xl, xh)
        return j
    from scipy.optimize import minimize_scalar
    a, b = (lo, hi) if kind != 'none' else (-5, 5)
    if term:
        a, b = max(a, xl / (k * T)), min(b, xh / (k * T))
    r = minimize_scalar(J, bounds=(a, b), method='bounded', options={'xatol': 1e-9})
    u = r.x
    mon.check(np.abs(s.u[:, 0] - u).max() <= 2e-2 * (1 + abs(u)), 'control', lambda: 'control %s, minimiser of the penalised cost %g (%s)' % (s.u[[0, -1], 0], u, key), key)
    mon.check(abs(s.y[-1, 0] - k * u * T) <= 2e-2 * (1 + abs(k * u * T)), 'state', lambda: 'terminal state %g, minimiser %g' % (s.y[-1, 0], k * u * T), key)
    mon.check(abs(s.cost - r.fun) <= 2e-2 * (1 + abs(r.fun)), 'cost', lambda: 'cost %g, minimum %g' % (s.cost, r.fun), key)
    if kind != 'none':
        mon.check(np.all(s.u[:, 0] >= lo - 1e-6) and np.all(s.u[:, 0] <= hi + 1e-6), 'bounds', lambda: 'control leaves [%g, %g]' % (lo, hi), key)
    if term:
        mon.check(xl - 1e-6 <= s.y[-1, 0] <= xh + 1e-6, 'bounds', lambda: 'terminal state leaves its bounds', key)


def run_bd(case, mon, rng):
    import beluga
    l = float(rng.uniform(0.09, 0.15))
    spec = {'ind': 't', 'states': [['x', 'v', 'm'], ['v', 'u', 'm/s']], 'controls': [['u', 'rad']],
            'constants': [['x_0', 0, 'm'], ['x_f', 0, 'm'], ['v_0', 1, 'm'], ['v_f', -1, 'm'], ['eps', 10, 'rad**2'], ['x_max', 0.3, 'm']],
            'cost': {'path': 'u**2', 'units': '1'}, 'initial': [['x - x_0', 'm'], ['v - v_0', 'm/s'], ['t', 's']],
            'terminal': [['x - x_f', 'm'], ['v - v_f', 'm'], ['t - 1', 's']],
            'path': [['x', 'm', dict(lower='-x_max', upper='x_max', activator='eps', method='utm')]]}
    steps = beluga.init_continuation()
    steps.add_step('bisection').num_cases(3).const('x_0', 0).const('v_0', 1).const('x_f', 0).const('v_f', -1)
    steps.add_step('bisection').num_cases(10, 'log').const('x_max', l)
    steps.add_step('bisection').num_cases(8, 'log').const('eps', 1e-3)
    g = beluga.guess_generator('auto', start=[0, 1], costate_guess=-0.1, control_guess=[-2], use_control_guess=True, time_integrate=0.1)
    out = mon.under(beluga.solve, ocp=ocp.build_problem(spec), method='indirect', optim_options={'control_method': 'differential'},
                    bvp_algorithm=beluga.bvp_algorithm('spbvp'), steps=steps, guess_generator=g, autoscale=False, save_sols=False)
    s = out[-1][-1]
    key = ('bryson-denham',)
    if not mon.check(bool(s.converged), 'not-solved', 'the Bryson-Denham problem is not solved', key):
        return
    for step in out[1:]:
        for q in step:
            if q.converged:
                m = q.const[[c[0] for c in spec['constants']].index('x_max')]
                mon.check(np.abs(q.y[:, 0]).max() <= m * (1 + 1e-6), 'bounds', lambda: 'the state reaches %g, bound %g' % (np.abs(q.y[:, 0]).max(), m), key)
    want = 8 / (9 * l)
    mon.check(abs(s.cost - want) <= 0.04 * want, 'cost', lambda: 'cost %g, the constrained optimum is %g' % (s.cost, want), key)
