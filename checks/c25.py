"""C25: a boundary-value problem stated directly (method='direct') is compiled, solved and returned as stated."""
import copy
import numpy as np
import sympy as sp
from scipy.integrate import solve_ivp
from vlib import ocp
from vlib.signals import Undecided

LEVEL = 'exploration'
RULE = ('random two-point boundary-value problems without controls, stated directly: states, quadratures, free parameters, constants, quantities, '
        'time as a state, fixed or free duration, nonlinear conditions in any order at either end; the compiled rates, quadrature rates, boundary '
        'residuals and analytical Jacobians are compared with the text of the problem, and solves from perturbed guesses (collocation and '
        'shooting) are judged by independent integration of the stated equations and by the stated conditions; '
        'distinct = (group, states, quadratures, parameters, time state, normalised, Jacobians, solver)')
ASSUMPTIONS = ['solves that do not converge decide nothing (C04 judges the flag itself)',
               'units are not exercised here (C07)', 'a problem without any condition at one of the two ends is outside the claim']


def cases(tier, seed):
    n = {'quick': 400, 'thorough': 8000}[tier]
    out = [{'group': 'compiled', 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 40, 'cost': 1} for i in range(n)]
    out += [{'group': 'solve', 'mode': 'nojit', 'seed': seed * 100003 + 100000 + i, 'timeout': 60, 'cost': 3} for i in range(n // 2)]
    out += [{'group': 'compiled', 'mode': 'jit', 'seed': seed * 100003 + 50000 + i, 'timeout': 150, 'cost': 10} for i in range(max(3, n // 50))]
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def make(rng, ms, nt):
    """States, quadratures and parameters with their rates; conditions come later."""
    n, m, k = int(rng.integers(1, 4)), int(rng.choice([0, 0, 1, 1, 2, 2, 3])), int(rng.choice([0, 0, 1, 1, 2, 2, 3]))
    xs = [str(a) for a in rng.permutation(['x', 'a1', 'zz', 'b'])[:n]]
    qs = [str(a) for a in rng.permutation(['q', 'area', 'c7'])[:m]]
    ps = [str(a) for a in rng.permutation(['w', 'p2', 'aa'])[:k]]
    ks = [['k%d' % i, round(float(rng.uniform(0.4, 1.6)), 3)] for i in range(2)]
    quants = [['h1', '%s + 0.5*sin(%s)' % (R(rng, xs), R(rng, xs))], ['h2', 'k0*h1*%s' % R(rng, xs)]] if rng.random() < 0.4 else []
    pool = ['-{a}', 'sin({b})', 'k0*{a}', '{a}*{b}/(1 + {a}**2)', 'cos({a})', 'k1', '-0.3*{b}'] + ['h1', '0.5*sin(h2)'] * bool(quants)
    pool += ['sin({t})', '{t}*cos({a})'] * ms

    def term():
        return R(rng, ['0.7*', '', '-', '1.3*']) + '(' + R(rng, pool).format(a=R(rng, xs), b=R(rng, xs), t='t') + ')'
    states = [[x, ' + '.join(term() for _ in range(int(rng.integers(1, 4))))] for x in xs]
    quads = [[q, ' + '.join(term() for _ in range(int(rng.integers(1, 3))))] for q in qs]
    for p in ps:
        row = R(rng, states + quads)
        row[1] += ' + ' + R(rng, ['{p}', '{p}*{a}', 'sin({p})*{a}', '{p}**2']).format(p=p, a=R(rng, xs))
    return {'xs': xs, 'qs': qs, 'ps': ps, 'ks': ks, 'states': states, 'quads': quads, 'quantities': quants, 'ms': ms, 'nt': nt}


def conditions(rng, M, z0, zf, t0, tf):
    """Conditions that the truth satisfies: z0, zf dicts of values at the ends (parameters included)."""
    xs, qs, ps = M['xs'], M['qs'], M['ps']
    need = len(xs) + len(qs) + len(ps) + (1 if M['nt'] and not M['ms'] else 0)
    cand = [('%s' % x, e) for x in xs for e in (0, 1)]
    qc = [(q, e) for q in qs for e in (0, 1)]
    mix = [('%s*%s' % (R(rng, xs), R(rng, xs + ps)), R(rng, [0, 1])), ('%s + 0.5*%s**2' % (R(rng, xs), R(rng, xs + ps)), R(rng, [0, 1]))]
    chosen = []
    for q in qs:                                    # the level of a quadrature has to be fixed somewhere
        chosen.append(R(rng, [(q, 0), (q, 0), (q, 1)]))
    rest = [c for c in cand + qc + mix if c not in chosen]
    rng.shuffle(rest)
    for c in rest:
        if len(chosen) == need:
            break
        chosen.append((str(c[0]), int(c[1])))
    if len(chosen) < need:
        return None
    chosen = [(str(c[0]), int(c[1])) for c in chosen]
    if M['ms']:
        chosen.append(('t', 0))
        if M['nt']:
            chosen.append(('t', 1))
    order = rng.permutation(len(chosen))
    out, consts = [], []
    vals = [dict(z0, t=t0), dict(zf, t=tf)]
    for i in order:
        e, end = chosen[i]
        n = 'c_%s%d' % ('xyzuvwabcde'[i], i)
        v = float(sp.sympify(e).subs(vals[end]))
        consts.append([n, v])
        out.append((R(rng, ['%s - %s', '%s - %s', '-(%s) + %s']) % (e, n) if R(rng, [1, 1, 0]) else '%s - (%s)' % (n, e), end))
    return out, consts


def build(M, conds, consts, rng, cost=True):
    import beluga
    p = beluga.Problem('direct')
    p.independent('t', 's')
    decl = [lambda a=a: p.state(a[0], a[1], 'm') for a in M['states']]
    decl += [lambda a=a: p.quad(a[0], a[1], 'm*s') for a in M['quads']]
    decl += [lambda a=a: p.parameter(a, '1') for a in M['ps']]
    allk = M['ks'] + consts
    decl += [lambda a=a: p.constant(a[0], a[1], 'm') for a in allk]
    decl += [lambda a=a: p.quantity(a[0], a[1]) for a in M['quantities']]
    for d in decl:
        d()
    for e, end in conds:
        (p.terminal_constraint if end else p.initial_constraint)(e, 'm')
    if cost:
        p.path_cost(M['cost'], '1/s')
    p.scale(m=1, s=1)
    return p


def funcs(M, consts):
    """Independent rates: f(t, x, p, k) -> (x', q')."""
    kn = [k[0] for k in M['ks'] + consts]
    loc = {n: sp.Symbol(n) for n in M['xs'] + M['qs'] + M['ps'] + kn + ['t']}
    q = {}
    for n, e in M['quantities']:
        q[n] = sp.sympify(e, locals=dict(loc, **q))
    S = lambda e: sp.sympify(e, locals=dict(loc, **q))
    args = [loc['t'], [loc[n] for n in M['xs']], [loc[n] for n in M['ps']], [loc[n] for n in kn]]
    fx = sp.lambdify(args, [S(e) for _, e in M['states']], 'numpy')
    fq = sp.lambdify(args, [S(e) for _, e in M['quads']], 'numpy')
    cargs = [loc['t'], [loc[n] for n in M['xs']], [loc[n] for n in M['qs']], [loc[n] for n in M['ps']], [loc[n] for n in kn]]
    return fx, fq, (lambda e: sp.lambdify(cargs, S(e), 'numpy')), kn, S, loc


def to_direct(p, **opts):
    from beluga.symbolic.data_classes import make_preprocessor, make_postprocessor
    from beluga.symbolic.data_classes.mapping_functions import make_direct_method
    q = make_preprocessor()(copy.deepcopy(p))
    return make_postprocessor()(make_direct_method(copy.deepcopy(q), **opts)(copy.deepcopy(q)))


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case['group'] == 'solve':
        return solve(case, rng, mon)
    compiled(case, rng, mon)


def compiled(case, rng, mon):
    ms, nt, aj = (bool(rng.integers(2)) for _ in range(3))
    vals = lambda: {n: float(rng.normal()) for n in M['xs'] + M['qs'] + M['ps']}
    c = None
    while c is None or not all(any(e[1] == end for e in c[0]) for end in (0, 1)):
        M = make(rng, ms, nt)
        M['cost'] = '0.3*%s**2 + 1' % R(rng, M['xs'])
        c = conditions(rng, M, vals(), vals(), 0.3, 1.4)
    conds, consts = c
    p = build(M, conds, consts, rng)
    b = mon.under(to_direct, p, analytical_jacobian=aj, do_momentum_shift=ms, do_normalize_time=nt)
    fx, fq, fc, kn, S, loc = funcs(M, consts)
    key0 = (len(M['xs']), len(M['qs']), len(M['ps']), ms, nt, aj)
    sn, qn, pn, cn = (ocp.names(a) for a in (b.states, b.quads, b.parameters, b.constants))
    mon.check(set(sn) == set(M['xs'] + ['t'] * ms) and set(qn) == set(M['qs']) and set(cn) == set(kn), 'unknowns', lambda: 'states %s, quadratures %s, constants %s' % (sn, qn, cn))
    extra = [a for a in pn if a not in M['ps']]
    if not mon.check(set(M['ps']) <= set(pn) and len(extra) == int(nt), 'unknowns', lambda: 'parameters %s, stated %s' % (pn, M['ps'])):
        return
    fp = b.functional_problem
    A = lambda a: np.array(a, dtype=float)
    flat = lambda a: np.asarray(a, dtype=float).ravel()

    def point(common=None):
        v = {n: float(rng.normal()) * 0.8 for n in M['xs'] + M['qs'] + ['t']}
        v.update(common or dict({n: float(rng.normal()) for n in M['ps']}, **{n: float(rng.uniform(0.3, 2)) for n in extra},
                                **{n: v0 * float(rng.uniform(0.8, 1.2)) for n, v0 in M['ks'] + consts}))
        return v
    res_got, res_want = [], []
    for _ in range(4):
        v = point()
        y, pp, kk = A([v[n] for n in sn]), A([v[n] for n in pn]), A([v[n] for n in cn])
        d = v[extra[0]] if extra else 1.0
        a4 = (v['t'], [v[n] for n in M['xs']], [v[n] for n in M['ps']], [v[n] for n in kn])
        want = dict(zip(M['xs'], fx(*a4)), t=1.0)
        got = dict(zip(sn, flat(mon.under(fp.deriv_func, y, pp, kk))))
        for n in sn:
            mon.check(abs(got[n] - d * want[n]) <= 1e-9 * (1 + abs(d * want[n])), 'rates', lambda: 'rate of %s is %r, stated %r' % (n, got[n], d * want[n]), ('rate',) + key0)
        if qn:
            want = dict(zip(M['qs'], fq(*a4)))
            got = dict(zip(qn, flat(mon.under(fp.quad_func, y, pp, kk))))
            for n in qn:
                mon.check(abs(got[n] - d * want[n]) <= 1e-9 * (1 + abs(d * want[n])), 'rates',
                          lambda: 'rate of the quadrature %s is %r, stated %r (duration %r)' % (n, got[n], d * want[n], d), ('quad',) + key0)
        com = {n: v[n] for n in M['ps'] + extra + kn}
        w = point(com)
        qa = lambda u: ([A([u[n] for n in qn])] if qn else [])

        def bc(v, w, pp=pp):
            return flat(mon.under(fp.bc_func, A([v[n] for n in sn]), *qa(v), A([w[n] for n in sn]), *qa(w), pp, A([]), kk))
        r = bc(v, w)
        res_got.append(r)
        res_want.append([float(fc(e)(u['t'], [u[n] for n in M['xs']], [u[n] for n in M['qs']], [u[n] for n in M['ps']], [u[n] for n in kn]))
                         for e, end in conds for u in [(v, w)[end]]])
        if aj:
            jac(mon, fp, v, w, sn, qn, pn, A, qa, kk, pp, bc, y, key0)
    g, e = np.array(res_got), np.array(res_want)
    if mon.check(g.shape == e.shape, 'conditions', lambda: '%d conditions stated, %d compiled' % (e.shape[1], g.shape[1])):
        miss, more = ocp.match_up_to_sign(list(e.T), list(g.T), 1e-9)
        mon.check(not miss and not more, 'conditions', lambda: 'stated conditions %s have no counterpart' % [conds[i] for i in miss], ('conditions',) + key0)
    mon.sample = {'states': M['states'], 'quads': M['quads'], 'conditions': conds, 'options': [ms, nt, aj]}


def jac(mon, fp, v, w, sn, qn, pn, A, qa, kk, pp, bc, y, key0):
    h = 1e-5

    def num(f, names, base):
        cols = []
        for n in names:
            a, b2 = dict(base), dict(base)
            a[n] += h
            b2[n] -= h
            cols.append((f(a) - f(b2)) / (2 * h))
        return np.array(cols).T if cols else None
    dy, dp = mon.under(fp.deriv_func_jac, y, pp, kk)
    rate = lambda u: np.asarray(fp.deriv_func(A([u[n] for n in sn]), A([u[n] for n in pn]), kk), float).ravel()

    def cmp(got, want, what):
        if want is None:
            mon.check(np.asarray(got).size == 0, 'jacobian', lambda: '%s is %r, there is nothing to differentiate by' % (what, got), ('jac', what) + key0)
            return
        got = np.asarray(got, float)
        got = got.reshape(want.shape) if got.size == want.size else got
        mon.check(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-6 * (1 + np.abs(want))), 'jacobian',
                  lambda: '%s is %r, differences give %r' % (what, got.tolist(), want.tolist()), ('jac', what) + key0)
    cmp(dy, num(rate, sn, v), 'df/dy')
    cmp(dp, num(rate, pn, v), 'df/dp')
    args = [A([v[n] for n in sn])] + qa(v) + [A([w[n] for n in sn])] + qa(w) + [pp, A([]), kk]
    J = mon.under(fp.bc_func_jac, *args)
    cmp(J[0], num(lambda u: bc(u, w), sn, v), 'dbc/dy0')
    cmp(J[1], num(lambda u: bc(v, u), sn, w), 'dbc/dyf')
    cmp(J[2], num(lambda u: bc(dict(v, **{n: u[n] for n in pn}), dict(w, **{n: u[n] for n in pn}), A([u[n] for n in pn])), pn, v), 'dbc/dp')
    if qn:
        cmp(J[3], num(lambda u: bc(u, w), qn, v), 'dbc/dq0')
        cmp(J[4], num(lambda u: bc(v, u), qn, w), 'dbc/dqf')


def solve(case, rng, mon):
    import beluga
    from beluga.numeric.data_classes import Trajectory
    for attempt in range(30):
        ms, nt, aj = bool(rng.random() < 0.3), bool(rng.integers(2)), bool(rng.integers(2))
        M = make(rng, ms, nt)
        M['cost'] = '0.3*%s**2 + 1' % R(rng, M['xs'])
        t0 = round(float(rng.normal()), 2) if ms else 0.0
        T = float(rng.uniform(0.5, 1.5))
        x0, q0, pv = rng.normal(size=len(M['xs'])) * 0.7, rng.normal(size=len(M['qs'])) * 0.5, rng.uniform(0.3, 1.2, size=len(M['ps']))
        fx, fq, fc, kn, S, loc = funcs(M, [])
        kv = [k[1] for k in M['ks']]
        n, m = len(M['xs']), len(M['qs'])

        def flow(z, t0=t0, kv=kv, fx=fx, fq=fq, n=n, dense=None):
            x, q, p, d = z[:n], z[n:n + m], z[n + m:-1], z[-1]
            r = solve_ivp(lambda t, s: np.r_[fx(t, s[:n], p, kv), fq(t, s[:n], p, kv)], (t0, t0 + d), np.r_[x, q], rtol=1e-9, atol=1e-10,
                          method='DOP853', t_eval=dense)
            return r.y.T
        z = np.r_[x0, q0, pv, T]
        N = int(rng.integers(12, 40))
        tg = t0 + T * np.linspace(0, 1, N)
        Y = flow(z, dense=tg)
        if len(Y) != N or not np.all(np.isfinite(Y)) or np.abs(Y).max() > 4:
            continue
        vals = lambda row, p=pv: dict(zip(M['xs'] + M['qs'] + M['ps'], list(row) + list(p)))
        c = conditions(rng, M, vals(Y[0]), vals(Y[-1]), t0, t0 + T)
        if c is None or not all(any(e[1] == end for e in c[0]) for end in (0, 1)):
            continue
        conds, consts = c
        fx2, fq2, fc2, kn2, S2, loc2 = funcs(M, consts)
        kv2 = [k[1] for k in M['ks'] + consts]
        E = [(fc2(e), end) for e, end in conds]

        def resid(z, pts=None):
            y = flow(z) if pts is None else pts
            d = z[-1]
            return np.array([float(f(t0 + (d if end else 0), y[-1 if end else 0][:n], y[-1 if end else 0][n:], z[n + m:-1], kv2)) for f, end in E
                             if True])
        # is the stated problem well posed at the truth? (unknowns: initial values, parameters, the duration when it is free)
        idx = list(range(len(z) - 1)) + ([len(z) - 1] if nt else [])
        J = np.array([(resid(z + 1e-6 * np.eye(len(z))[i]) - resid(z)) / 1e-6 for i in idx]).T
        J = J[[i for i, (e, end) in enumerate(conds) if np.abs(J[i]).max() > 1e-4]]
        if J.shape[0] != J.shape[1] or np.linalg.cond(J) > 60:
            continue
        break
    else:
        raise Undecided('no well-posed problem found')
    p = build(M, conds, consts, rng)
    g = Trajectory(tg, Y[:, :n] * (1 + 0.05 * rng.normal(size=n)) + 0.03 * rng.normal(size=n), Y[:, n:] + 0.03 * rng.normal(), np.zeros((N, 0)))
    if nt and rng.random() < 0.7:
        g.t = t0 + (tg - t0) * float(rng.uniform(0.93, 1.07))
    if ms:
        g.dual = np.zeros((N, n))
    g.dynamical_parameters = pv * (1 + 0.05 * rng.normal(size=len(pv)))
    g.const = np.array(kv2)
    algo = R(rng, ['spbvp', 'spbvp', 'Shooting', 'Shooting2', 'Shooting3'])
    alg = beluga.bvp_algorithm('spbvp') if algo == 'spbvp' else beluga.bvp_algorithm('Shooting', num_arcs=int(algo[8:] or 1))
    steps = None
    if rng.random() < 0.3:
        steps = beluga.init_continuation()
        steps.add_step('bisection').num_cases(3).const('k0', M['ks'][0][1] * 1.03)
        kv2[kn2.index('k0')] *= 1.03
    try:
        out = beluga.solve(ocp=p, method='direct', optim_options=dict(analytical_jacobian=aj, do_momentum_shift=ms, do_normalize_time=nt),
                           bvp_algorithm=alg, steps=steps, guess_generator=beluga.guess_generator('static', solinit=g), save_sols=False)
    except (np.linalg.LinAlgError, FloatingPointError) as e:
        raise Undecided(str(e))
    except RuntimeError as e:
        if 'Nan' in str(e) or 'converge' in str(e).lower():
            raise Undecided(str(e))
        raise
    s = out[-1][-1] if out and len(out[-1]) else None
    if s is None or not s.converged:
        mon.count('not converged')
        raise Undecided('no convergence')
    key = (n, m, len(pv), ms, nt, aj, algo, steps is not None)
    t = np.asarray(s.t, float)
    mon.check(s.y.shape == (len(t), n), 'shape', lambda: 'states of shape %s for %d nodes and %d states' % (s.y.shape, len(t), n))
    pr = np.asarray(s.dynamical_parameters, float)
    if not mon.check(len(pr) == len(pv), 'shape', lambda: 'returned parameters %s, stated %s' % (pr, M['ps'])):
        return
    mon.check(abs(t[0] - t0) < 1e-5, 'start', lambda: 'starts at %r, stated %r' % (t[0], t0))
    if not nt or ms:
        mon.check(abs(t[-1] - t[0] - T) < 1e-4, 'duration', lambda: 'lasts %r, stated %r' % (t[-1] - t[0], T))
    q = np.asarray(s.q, float)
    if m:
        if not mon.check(q.shape == (len(t), m), 'shape', lambda: 'quadratures of shape %s' % (q.shape,)):
            return
    else:
        q = np.zeros((len(t), 0))
    if np.abs(s.y).max() > 8:
        raise Undecided('another branch of solutions')
    r = solve_ivp(lambda tt, st: np.r_[fx2(tt, st[:n], pr, kv2), fq2(tt, st[:n], pr, kv2)], (t[0], t[-1]), np.r_[s.y[0], q[0]], rtol=1e-10, atol=1e-11,
                  method='DOP853', t_eval=np.clip(t, t[0], t[-1]))
    W = r.y.T
    if W.shape[0] != len(t):
        raise Undecided('reference integration failed')
    ey = np.abs(W[:, :n] - s.y).max()
    mon.check(ey < 6e-3, 'equations', lambda: 'the returned states are %.3g off the stated equations' % ey, ('y',) + key)
    if m:
        eq = np.abs(W[:, n:] - q).max()
        rate = np.array([fq2(a, y, pr, kv2) for a, y in zip(t, s.y)], float)
        coarse = q[0] + np.vstack((np.zeros(m), np.cumsum((rate[1:] + rate[:-1]) / 2 * np.diff(t)[:, None], axis=0)))
        allow = 6e-3 + 1.5 * np.abs(coarse - W[:, n:]).max()        # what the returned grid can resolve
        mon.check(eq < allow, 'quadratures', lambda: 'the returned quadratures are %.3g off the integrals of their rates' % eq, ('q',) + key)
    for (f, end), (e, _) in zip(E, conds):
        i = -1 if end else 0
        v = float(f(t[i], s.y[i], q[i], pr, kv2))
        mon.check(abs(v) < 2e-3, 'conditions', lambda: 'the %s condition %s is violated by %.3g' % (('initial', 'terminal')[end], e, v), ('bc',) + key)
    mon.count('solved')
    mon.sample = {'states': M['states'], 'quads': M['quads'], 'conditions': conds, 'solver': algo, 'options': [ms, nt, aj]}
