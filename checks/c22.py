"""C22: the guess handed to the solver is the guess the user asked for."""
import copy
import numpy as np
from scipy.integrate import solve_ivp
from vlib import ocp

LEVEL = 'exploration'
RULE = ('random problems (1-4 states, 1-2 controls, time-dependent or not, any order and naming of constants, both control methods, both '
        'formulations, with and without autoscale and continuation) solved with a recording solver that returns the guess it is handed; '
        'what comes back is compared with the request: end times and direction, starting states, costates (number, list), controls, and '
        'the whole propagated trajectory against an independent integration of the necessary conditions; the boundary constants after '
        'the initial helper, every other constant; static guesses of any number of nodes; refused settings; '
        'distinct = (group, mode, direction, helper, formulation, control method, autoscale, steps, whole numbers)')
ASSUMPTIONS = ['costates of time start at zero', 'propagation is judged to 2e-4 relative of the largest magnitude reached (the propagator asks for 1e-6 per step)']


def cases(tier, seed):
    n = {'quick': 70, 'thorough': 2500}[tier]
    out = []
    for i in range(n):
        for k, g in enumerate(['auto', 'auto', 'ones', 'static']):
            out.append({'group': g, 'mode': 'nojit', 'seed': seed * 100003 + i * 10 + k, 'timeout': 25, 'cost': 1})
    out += [{'group': 'refused', 'mode': 'nojit', 'seed': seed * 100003 + 70000 + i, 'timeout': 20, 'cost': 0.1} for i in range(n // 3)]
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def recorder(log):
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm, BVPResult

    class Rec(BaseAlgorithm):
        def solve(self, solinit, **kw):
            sol = copy.deepcopy(solinit)
            sol.converged = True
            log.append(copy.deepcopy(sol))
            return BVPResult(sol=sol, success=True, message='', niter=1)
    return Rec()


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def run(case, mon):
    import beluga
    rng = np.random.default_rng(case['seed'])
    if case['group'] == 'refused':
        return refused(rng, mon)
    cm = R(rng, ['algebraic', 'differential'])
    method = 'diffyg' if cm == 'algebraic' and rng.random() < 0.3 else R(rng, ['traditional', 'indirect'])
    spec = ocp.random_spec(rng, affine=cm == 'algebraic', n_controls=1 if cm == 'algebraic' else None, max_terms=2)
    xs, us, ind = [s[0] for s in spec['states']], [c[0] for c in spec['controls']], spec['ind']
    have = [c[0] for c in spec['constants']]
    for nm in [a + e for a in xs + [ind] for e in ('_0', '_f')]:
        if nm not in have and rng.random() < 0.3:
            spec['constants'].insert(int(rng.integers(len(spec['constants']) + 1)), [nm, round(float(rng.normal()), 3), 'm'])
    n, m = len(xs), len(us)
    mode = case['group']
    # names that only begin or end like those of boundary constants
    for nm in [a + e for a in xs for e in ('_00', '_0b', '_f2', '_fin')] + ['z' + xs[0] + '_0', 'z' + xs[0] + '_f']:
        if rng.random() < 0.08:
            spec['constants'].insert(int(rng.integers(len(spec['constants']) + 1)), [nm, round(float(rng.normal()), 3), 'm'])
    # whole numbers, given as such
    whole = bool(rng.random() < 0.35)
    if whole:
        for c in spec['constants']:
            c[1] = int(round(c[1])) or 1
    helper, auto, steps_on = (bool(rng.random() < 0.5), bool(rng.random() < 0.3), bool(rng.random() < 0.4))
    direction = R(rng, ['forward', 'forward', 'reverse'])
    T = R(rng, [0.1, 0.5, 1, 0.01, round(float(rng.uniform(0.05, 0.6)), 4)]) * R(rng, [1, 1, -1])
    start = [round(float(v), 4) for v in rng.normal(size=n)]
    cog = R(rng, [0.1, -0.25, 1, [round(float(v), 3) for v in rng.normal(size=n)], 'default'])
    u0 = [round(float(v), 3) for v in rng.normal(size=m)]
    if whole:
        start = [int(v) for v in rng.integers(-3, 4, n)]
        u0 = [int(v) for v in rng.integers(-2, 3, m)]
        cog = R(rng, [1, -1, [int(v) for v in rng.integers(-2, 3, n)]])
        T = R(rng, [1, 1, -1, 2, 0.1])
    prob = ocp.build_problem(spec)
    log = []
    steps = None
    if steps_on:
        steps = beluga.init_continuation()
        steps.add_step('bisection').num_cases(3).const(R(rng, [c[0] for c in spec['constants']]), round(float(rng.normal()), 2) + 5)
    given = None
    if mode == 'static':
        from beluga.numeric.data_classes import Trajectory
        N = int(rng.integers(2, 9))
        given = Trajectory(np.cumsum(rng.uniform(0.1, 1, N)) + (0 if rng.random() < 0.5 else 1.5), rng.normal(size=(N, n)), np.array([]), rng.normal(size=(N, m)))
        given.dual = rng.normal(size=(N, n))
        given.const = np.array([c[1] for c in spec['constants']], float) * rng.uniform(0.5, 1.5, len(spec['constants']))
        if whole:
            given.y, given.dual, given.u = [np.array(np.round(3 * a), dtype=int) for a in (given.y, given.dual, given.u)]
            given.const = np.array(np.round(given.const), dtype=float)
            if rng.random() < 0.3:
                given.t = np.arange(N)
        g = beluga.guess_generator('static', solinit=copy.deepcopy(given))
    else:
        kw = {'start': list(start) if rng.random() < 0.5 else np.array(start), 'direction': direction, 'time_integrate': T}
        if cog != 'default':
            kw['costate_guess'] = cog
        if cm == 'differential':
            kw['control_guess'] = list(u0)
            kw['use_control_guess'] = True
        g = beluga.guess_generator(mode, **kw)
    key = (mode, direction if given is None else '', helper, method, cm, auto, steps_on, whole)
    out = mon.under(beluga.solve, ocp=prob, method=method, optim_options={'control_method': cm}, bvp_algorithm=recorder(log), steps=steps,
                    guess_generator=g, autoscale=auto, initial_helper=helper, save_sols=False)
    s = out[0][0]
    mon.check(len(log) == (3 if steps_on else 1), 'solver-calls', lambda: '%d problems were handed to the solver' % len(log), ('calls',))
    cval = {c[0]: c[1] for c in spec['constants']}
    if given is not None:
        cval = dict(zip(cval, given.const))
        for nm, a, b in (('t', s.t, given.t), ('states', s.y, given.y), ('costates', s.dual, given.dual)):
            mon.check(near(a, b, 1e-8), 'static', lambda: 'the %s of the static guess came back as %s, were %s' % (nm, a, b), key + (nm,))
        if cm == 'differential':
            mon.check(near(s.u, given.u, 1e-8), 'static', lambda: 'the controls of the static guess came back as %s' % s.u, key + ('u',))
        y0, yf, t0, tf = given.y[0], given.y[-1], given.t[0], given.t[-1]
    else:
        t1 = abs(T) * (1 if direction == 'forward' else -1)
        ref = None
        lam0 = np.array(cog, float) if isinstance(cog, list) else np.full(n, 0.1 if cog == 'default' else float(cog))
        if mode == 'auto':
            ref = reference(spec, cm, start, lam0, u0, t1, cval)
            if ref is None:
                mon.count('propagation-too-wild')
        if mode == 'ones' or ref is not None:
            mon.check(near([s.t[0], s.t[-1]], [0, t1]), 'time', lambda: 'the guess runs from %r to %r, asked for 0 to %r' % (s.t[0], s.t[-1], t1), key + ('t',))
        mon.check(bool(np.all(np.diff(s.t) * np.sign(t1) > 0)), 'time-order', lambda: 'times of the guess are %s' % s.t, key + ('order',))
        mon.check(near(s.y[0], start), 'start', lambda: 'the guess starts at %s, asked for %s' % (s.y[0], start), key + ('x',))
        mon.check(s.dual.shape == (len(s.t), n) and near(s.dual[0], lam0), 'costates',
                  lambda: 'costates of the guess start at %s, asked for %s' % (s.dual[:1], lam0), key + ('lam',))
        if cm == 'differential':
            mon.check(near(s.u[0], u0), 'controls', lambda: 'controls of the guess start at %s, asked for %s' % (s.u[0], u0), key + ('u',))
        if mode == 'ones':
            mon.check(near(s.y, [start] * len(s.t)) and near(s.dual, [list(lam0)] * len(s.t)), 'constant', lambda: 'the guess is not constant: %s' % s.y, key + ('all',))
            if cm == 'differential':
                mon.check(near(s.u, [u0] * len(s.t)), 'constant', lambda: 'controls of the guess are not constant: %s' % s.u, key + ('allu',))
            mon.check(len(s.t) >= 4 and near(s.t, np.linspace(0, t1, len(s.t))), 'grid', lambda: 'times of the guess are %s' % s.t, key + ('grid',))
        y0, yf, t0, tf = s.y[0], s.y[-1], s.t[0], s.t[-1]
    # constants
    want = dict(cval)
    if helper:
        for i, x in enumerate(xs + [ind]):
            if x + '_0' in want:
                want[x + '_0'] = float(np.r_[y0, t0][i])
            if x + '_f' in want:
                want[x + '_f'] = float(np.r_[yf, tf][i])
    got = dict(zip(want, np.asarray(s.const, float)))
    mon.check(len(s.const) >= len(want), 'constants', lambda: 'constants of the guess: %s' % s.const, key + ('k',))
    for nm in want:
        kind = 'helper' if helper and want[nm] != cval[nm] else 'constant'
        mon.check(near(got[nm], want[nm], 1e-8), kind, lambda: 'constant %s of the guess is %r, expected %r (helper %s)' % (nm, got[nm], want[nm], helper),
                  key + (kind,))
    if mode == 'auto':
        if ref is not None and not mon.viol:
            propagated(cm, s, n, ref, mon, key)
        if cm == 'algebraic':
            P = ocp.PMP(spec)
            v = point(P, s.t[0], start, lam0, 0.0, [0.0], want)
            u = -np.linalg.solve(P.num('Huu', v), P.num('Hu', v))
            if abs(np.linalg.det(P.num('Huu', v))) > 1e-6:
                mon.check(near(s.u[0], u, 1e-6), 'control-law', lambda: 'control of the guess starts at %s, minimising control is %s' % (s.u[0], u), key + ('u*',))


def point(P, t, x, lam, lt, u, consts):
    v = dict(consts)
    v.update({str(a): float(b) for a, b in zip(P.x, list(x) + [t])})
    v.update({str(a): float(b) for a, b in zip(P.lam, list(lam) + [lt])})
    v.update({str(a): float(b) for a, b in zip(P.u, u)})
    return v


def reference(spec, cm, start, lam0, u0, t1, consts):
    """Independent integration of state, costate and control rates over the requested span; None where it is too wild to judge."""
    P = ocp.PMP(spec)
    n, m = len(start), len(u0)
    calls = [0]

    def rhs(t, z):
        calls[0] += 1
        if calls[0] > 6000 or not np.all(np.abs(z) < 50):
            raise ValueError('wild')
        x, lam, lt = z[:n], z[n:2 * n], z[2 * n]
        if cm == 'algebraic':
            v = point(P, t, x, lam, lt, [0.0] * m, consts)
            u = -np.linalg.solve(P.num('Huu', v), P.num('Hu', v))
        else:
            u = z[2 * n + 1:]
        v = point(P, t, x, lam, lt, u, consts)
        f, l = P.num('f', v), -P.num('Hx', v)
        r = [f[:n], l]
        if cm == 'differential':
            huu = P.num('Huu', v)
            if np.linalg.cond(huu) > 1e4:
                raise ValueError('wild')
            r.append(-np.linalg.solve(huu, P.num('Hux', v) @ f + P.num('Hul', v) @ l))
        r = np.concatenate(r)
        if not np.all(np.abs(r) < 1e3):
            raise ValueError('wild')
        return r
    z0 = np.r_[start, lam0, 0.0, u0 if cm == 'differential' else []]
    try:
        r = solve_ivp(rhs, (0, t1), z0, rtol=1e-9, atol=1e-10, max_step=0.1 * abs(t1), method='RK45', dense_output=True)
    except (np.linalg.LinAlgError, ocp.OracleError, ValueError):
        return None
    return r if r.success and abs(r.t[-1] - t1) < 1e-9 else None


def propagated(cm, s, n, r, mon, key):
    z = r.sol(np.asarray(s.t, float))
    big = 1 + np.max(np.abs(z))
    for nm, a, b in (('states', s.y, z[:n].T), ('costates', s.dual, z[n:2 * n].T)) + ((('controls', s.u, z[2 * n + 1:].T),) if cm == 'differential' else ()):
        e = float(np.max(np.abs(a - b)))
        mon.check(e <= 2e-4 * big, 'propagation', lambda: '%s of the guess leave the propagated ones by %g (largest %g)' % (nm, e, big), key + ('prop', nm))


def refused(rng, mon):
    import beluga
    mode = R(rng, ['auto', 'ones'])
    bad = [(lambda: beluga.guess_generator(mode, start=[0.0], direction=R(rng, ['backward', 'Forward', '', None])), 'direction'),
           (lambda: beluga.guess_generator(mode, start=[0.0], time_integrate=R(rng, [0, 0.0, -0.0])), 'time'),
           (lambda: beluga.guess_generator(R(rng, ['automatic', 'Auto', '', 'zeros']), start=[0.0]), 'mode')]
    for f, what in bad:
        try:
            f()
            mon.fail('accepted', 'a guess generator with a wrong %s was accepted' % what)
        except ValueError:
            mon.seen(('refused', mode, what))
