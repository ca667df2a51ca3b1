"""C03: the maps between the user's problem and the boundary-value problem lose and invent nothing."""
import copy
import numpy as np
from vlib import ocp

LEVEL = 'exploration'
RULE = ('random problems x formulation (traditional/diffyg, differential/algebraic control, with/without time state, normalised or '
        'not, free parameters, epsilon-trig controls, several stationary controls) x random trajectories, mapped to the boundary-value problem and back and the '
        'other way round; every component looked up by its name; distinct = (formulation, states, controls, parameters, direction)')
ASSUMPTIONS = ['names of the boundary-value problem components identify them; their order is free',
               'without a time state the initial time of a normalised problem is zero',
               'the boundary multipliers are not part of the user-level solution (they are dropped on the way back)']


def cases(tier, seed):
    n = {'quick': 320, 'thorough': 8000}[tier]
    out = []
    for i in range(n):
        method, cm = [('traditional', 'differential'), ('diffyg', 'differential'), ('traditional', 'algebraic'),
                      ('diffyg', 'algebraic')][i % 4]
        out.append({'group': method + '-' + cm, 'mode': 'nojit', 'seed': seed * 100003 + i, 'method': method, 'cm': cm,
                    'ms': i % 7 != 3 or (method, cm) == ('diffyg', 'differential'), 'nt': i % 11 != 5, 'timeout': 40,
                    'params': (i // 4) % 3 if method == 'traditional' else 0})
    for i in range(n // 8):
        out.append({'group': 'epstrig-back', 'mode': 'nojit', 'seed': seed * 100003 + 400000 + i, 'method': ['traditional', 'diffyg'][i % 2],
                    'cm': 'differential', 'ms': True, 'nt': i % 5 != 4, 'timeout': 40, 'params': 0})
    for i in range(4):
        out.append({'group': 'epstrig-guess', 'mode': 'nojit', 'seed': seed * 100003 + 500000 + i, 'method': 'traditional',
                    'cm': 'differential', 'ms': True, 'nt': True, 'timeout': 40, 'params': 0})
    for i in range(n // 16):
        out.append({'group': 'candidates', 'mode': 'nojit', 'seed': seed * 100003 + 700000 + i, 'method': ['traditional', 'diffyg'][i % 2],
                    'cm': 'algebraic', 'ms': i % 3 != 2, 'nt': i % 5 != 4, 'timeout': 40, 'params': 0})
    for i in range(max(4, n // 60)):
        out.append({'group': 'compiled', 'mode': 'jit', 'seed': seed * 100003 + 600000 + i, 'method': ['traditional', 'diffyg'][i % 2],
                    'cm': ['differential', 'algebraic'][(i // 2) % 2], 'ms': True, 'nt': True, 'timeout': 120, 'params': 0, 'cost': 12})
    return out


def spec_for(case, rng):
    affine = case['cm'] == 'algebraic'
    if case['group'] == 'candidates':
        # several controls are stationary, one of them is the least
        from vlib.runner import load_check
        C1 = load_check('C01')
        spec = C1.two_headings(rng) if rng.random() < 0.5 else C1.brachistochrone_like(rng)
        spec['circle'] = True
        if not case['ms']:
            for w in ('initial', 'terminal'):
                spec[w] = [c for c in spec[w] if spec['ind'] not in ocp.free_names(c[0])]
        return spec
    if rng.random() < 0.12:
        small = case['method'] == 'diffyg'
        spec = ocp.wide_spec(rng, affine=affine, timed=None if case['ms'] else False, states=(3, 6) if small else (5, 9), controls=(3, 4) if small else (3, 5))
    else:
        spec = ocp.random_spec(rng, affine=affine, n_states=int(rng.integers(1, 4)), n_controls=int(rng.integers(1, 3)),
                               timed=None if case['ms'] else False)
    if case['params']:
        spec['params'] = [[p, 'm'] for p in ['pa', 'qb'][:case['params']]]
        for p in spec['params']:
            spec['states'][int(rng.integers(len(spec['states'])))][1] += ' + ' + p[0]
    if not case['ms']:
        for w in ('initial', 'terminal'):
            spec[w] = [c for c in spec[w] if spec['ind'] not in ocp.free_names(c[0])]
    if case['group'].startswith('epstrig'):
        spec['path'] = []
        for c in spec['controls'][:int(rng.integers(1, len(spec['controls']) + 1))]:
            lo, hi = [('lo0', 'hi0'), ('-hi0', 'hi0'), ('lo0', '2*hi0')][int(rng.integers(3))]
            spec['path'].append([c[0], c[1], dict(lower=lo, upper=hi, activator='eps0', method='epstrig')])
        spec['constants'] += [['lo0', -1.3, 'm'], ['hi0', 0.9, 'm'], ['eps0', 0.1, 'm']]
    return spec


def bounds(spec, kv):
    out = {}
    for e, _, kw in spec.get('path', []):
        out[e] = tuple(float(ocp.sp.sympify(kw[b]).subs(kv)) for b in ('lower', 'upper'))
    return out


def col(a, n):
    a = np.asarray(a, float)
    return a.reshape(n, -1) if a.size else np.zeros((n, 0))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def run(case, mon):
    from beluga.numeric.data_classes import Trajectory
    rng = np.random.default_rng(case['seed'])
    spec = spec_for(case, rng)
    bvp = mon.under(ocp.to_bvp, ocp.build_problem(spec), method=case['method'], control_method=case['cm'],
                    do_momentum_shift=case['ms'], do_normalize_time=case['nt'])
    key0 = (case['method'], case['cm'], case['ms'], case['nt'], len(spec['states']), len(spec['controls']), case['params'])
    sn, pn, nn, kn = (ocp.names(a) for a in (bvp.states, bvp.parameters, bvp.constraint_parameters, bvp.constants))
    k = ocp.const_values(bvp) * rng.uniform(0.9, 1.1, len(kn))
    kv = dict(zip(kn, k))
    xs, us = [s[0] for s in spec['states']], [c[0] for c in spec['controls']]
    ps = [p[0] for p in spec.get('params', [])]
    N = int(rng.integers(2, 30))
    t0 = float(rng.normal()) if case['ms'] else 0.0
    t = t0 + np.concatenate([[0.0], np.cumsum(rng.uniform(0.05, 1.0, N - 1))]) * (-1 if rng.random() < 0.15 else 1)
    B = bounds(spec, kv)

    # ---- user -> boundary-value problem -> user
    u = rng.normal(size=(N, len(us)))
    for j, c in enumerate(us):
        if c in B:
            lo, hi = B[c]
            u[:, j] = lo + (hi - lo) * rng.uniform(0.02, 0.98, N)
    S = Trajectory(t.copy(), rng.normal(size=(N, len(xs))), np.array([]), u.copy())
    S.dual = rng.normal(size=(N, len(xs)))
    S.dual_t = rng.normal(size=N)
    S.const = k.copy()
    S.dynamical_parameters = rng.normal(size=len(ps)) + 2
    nu = np.round(rng.normal(size=len(nn))) if rng.random() < 0.3 else None
    if nu is not None:
        S.nondynamical_parameters = nu.copy()
    ref = copy.deepcopy(S)
    G = mon.under(bvp.map_sol, S)
    lay = {'shape': True}
    mon.check(col(G.y, N).shape == (N, len(sn)), 'shape', lambda: 'the mapped guess has %s columns for the states %s' % (np.shape(G.y), sn),
              ('fwd',) + key0)
    if col(G.y, N).shape != (N, len(sn)):
        return
    mon.check(len(G.dynamical_parameters) == len(pn) and len(G.nondynamical_parameters) == len(nn), 'shape',
              lambda: 'parameters %s multipliers %s for %s %s' % (G.dynamical_parameters, G.nondynamical_parameters, pn, nn))
    if nu is not None:
        mon.check(close(G.nondynamical_parameters, nu), 'multiplier', lambda: 'the multipliers %s of the guess arrive as %s' % (nu, G.nondynamical_parameters))
    mon.check(close(G.const, k), 'const', 'the constants changed')
    Gy = {n: G.y[:, i] for i, n in enumerate(sn)}
    for i, x in enumerate(xs):
        mon.check(close(Gy[x], ref.y[:, i]), 'state', lambda: 'guess of state %s arrives as something else' % x)
        mon.check(close(Gy['_lam_' + x], ref.dual[:, i]), 'costate', lambda: 'guess of costate of %s arrives as something else' % x)
    if case['ms']:
        mon.check(close(Gy[spec['ind']], t), 'time', 'the time state does not carry the time')
        mon.check(close(Gy['_lam_' + spec['ind']], ref.dual_t), 'time', 'the costate of time does not carry the dual of time')
    for i, p in enumerate(ps):
        if p in pn:
            mon.check(close(G.dynamical_parameters[pn.index(p)], ref.dynamical_parameters[i]), 'parameter', 'parameter %s changed' % p)
    if case['nt']:
        d = [i for i, n in enumerate(pn) if n not in ps]
        mon.check(len(d) == 1 and close(G.dynamical_parameters[d[0]], t[-1] - t[0]), 'duration',
                  'the duration parameter is not the duration of the guess')
        mon.check(close(G.t, (t - t[0]) / (t[-1] - t[0])), 'duration', 'the independent variable is not normalised to [0, 1]')
    else:
        mon.check(close(G.t, t), 'time', 'the time grid of the guess changed')
    if case['cm'] == 'differential':
        for i, c in enumerate(us):
            if c in B:
                continue
            mon.check(close(Gy[c], ref.u[:, i]), 'control', 'the guess of control %s arrives as something else' % c)
    back = mon.under(bvp.inv_map_sol, copy.deepcopy(G))
    known = case['group'] == 'epstrig-guess'
    same(mon, spec, case, back, ref, N, us, B, ('there-and-back',) + key0, skip_u=not known and bool(B))
    if case['cm'] == 'algebraic':
        stationary(mon, spec, back, xs, us, ps, kv)

    # ---- boundary-value problem -> user -> boundary-value problem
    if case['group'] == 'epstrig-guess':
        return
    H = Trajectory(np.linspace(0, 1, N) if case['nt'] else t.copy(), rng.normal(size=(N, len(sn))), np.array([]),
                   np.zeros((N, 0)))
    H.const = k.copy()
    H.dynamical_parameters = np.array([float(rng.uniform(0.5, 3)) for _ in pn])
    H.nondynamical_parameters = rng.normal(size=len(nn))
    if case['ms']:
        tt = t if not case['nt'] else t0 + H.t * H.dynamical_parameters[[i for i, n in enumerate(pn) if n not in ps][0]]
        H.y[:, sn.index(spec['ind'])] = tt
    href = copy.deepcopy(H)
    U = mon.under(bvp.inv_map_sol, H)
    mon.check(np.shape(U.y) == (N, len(xs)) and np.shape(U.u) == (N, len(us)) and np.shape(U.dual) == (N, len(xs)), 'shape',
              lambda: 'solution arrays have shapes y %s u %s dual %s' % (np.shape(U.y), np.shape(U.u), np.shape(U.dual)), ('back',) + key0)
    if mon.viol:
        return
    Hy = {n: href.y[:, i] for i, n in enumerate(sn)}
    for i, x in enumerate(xs):
        mon.check(close(U.y[:, i], Hy[x]), 'state', 'solution of state %s is something else' % x)
        mon.check(close(U.dual[:, i], Hy['_lam_' + x]), 'costate', 'solution of the costate of %s is something else' % x)
    if case['ms']:
        mon.check(close(U.t, Hy[spec['ind']]), 'time', 'the time of the solution is not its time state')
        mon.check(close(U.dual_t, Hy['_lam_' + spec['ind']]), 'time', 'the dual of time is not its costate')
    elif case['nt']:
        d = href.dynamical_parameters[[i for i, n in enumerate(pn) if n not in ps][0]]
        mon.check(close(U.t, href.t * d), 'time', 'the time of the solution is not the normalised time times the duration')
    else:
        mon.check(close(U.t, href.t), 'time', 'the time of the solution changed')
    mon.check(len(U.dynamical_parameters) == len(ps), 'parameter', lambda: 'parameters of the solution: %s' % U.dynamical_parameters)
    for i, p in enumerate(ps):
        mon.check(close(U.dynamical_parameters[i], href.dynamical_parameters[pn.index(p)]), 'parameter', 'parameter %s changed' % p)
    mon.check(close(U.const, k), 'const', 'the constants changed')
    if case['cm'] == 'differential':
        for i, c in enumerate(us):
            if c in B:
                lo, hi = B[c]
                ok = close(U.u[:, i], (lo + hi) / 2 + (hi - lo) / 2 * np.sin(href.y[:, sn.index(trig_name(sn, xs, us, spec, i, B))]))
                mon.check(ok, 'control', 'bounded control %s is not the mid-range plus half the range times the sine' % c)
                mon.check(np.all(U.u[:, i] >= lo - 1e-12) and np.all(U.u[:, i] <= hi + 1e-12), 'control', 'control %s leaves its bounds' % c)
            else:
                mon.check(close(U.u[:, i], Hy[c]), 'control', 'solution of control %s is something else' % c)
    else:
        stationary(mon, spec, U, xs, us, ps, kv)
    if B:
        return
    again = mon.under(bvp.map_sol, copy.deepcopy(U))
    keep = [i for i, n in enumerate(sn) if not (n.startswith('_lam_') and (n[5:] in us or n[5:] in ps or n[5:] not in xs + [spec['ind']]))]
    mon.check(close(np.asarray(again.y)[:, keep], href.y[:, keep]), 'round-trip', 'solution -> user -> guess does not return the same states')
    mon.check(close(again.dynamical_parameters, href.dynamical_parameters), 'round-trip', 'parameters do not survive the round trip')
    mon.check(close(again.t, href.t), 'round-trip', 'the grid does not survive the round trip')
    mon.sample = {'states': sn, 'parameters': pn, 'nodes': N}


def trig_name(sn, xs, us, spec, i, B):
    """The unbounded variable that stands for a bounded control (its name mentions the control)."""
    c = us[i]
    cand = [n for n in sn if c in n and not n.startswith('_lam_') and n not in xs and n != spec['ind'] and n not in [u for u in us if u != c]
            and not any(o in n for o in us if o != c and len(o) > len(c))]
    if len(cand) != 1:
        from vlib.signals import Undecided
        raise Undecided('cannot identify the trigonometric variable of %s among %s' % (c, sn))
    return cand[0]


def same(mon, spec, case, back, ref, N, us, B, key, skip_u=False):
    mon.check(close(col(back.y, N), ref.y), 'round-trip', 'the states do not survive user -> guess -> user', key)
    mon.check(close(col(back.dual, N), ref.dual), 'round-trip', 'the costates do not survive user -> guess -> user')
    mon.check(close(back.t, ref.t), 'round-trip', 'the time does not survive user -> guess -> user')
    mon.check(close(back.const, ref.const), 'round-trip', 'the constants do not survive user -> guess -> user')
    mon.check(close(back.dynamical_parameters, ref.dynamical_parameters), 'round-trip', 'the parameters do not survive user -> guess -> user')
    if case['ms']:
        mon.check(close(back.dual_t, ref.dual_t), 'round-trip', 'the dual of time does not survive user -> guess -> user')
    if case['cm'] == 'differential':
        for i, c in enumerate(us):
            b, r = col(back.u, N)[:, i], ref.u[:, i]
            if c in B and not close(b, r, 1e-6):
                # the recorded finding: the deviation from mid-range comes back halved (reported in its own group only)
                mid = sum(B[c]) / 2
                halved = close(b - mid, (r - mid) / 2, 1e-6)
                if halved and skip_u:
                    mon.seen()
                    continue
                mon.check(False, 'bounded-control-guess-halved' if halved else 'round-trip',
                          'bounded control %s of the guess becomes %s instead of %s' % (c, b[:3], r[:3]))
                continue
            mon.check(close(b, r, 1e-6), 'round-trip',
                      lambda: 'control %s of the guess becomes %s instead of %s' % (c, b[:3], r[:3]))


def stationary(mon, spec, sol, xs, us, ps, kv):
    M = ocp.PMP(spec)
    for r in range(min(len(sol.t), 5)):
        v = dict(kv)
        v[spec['ind']] = float(sol.t[r])
        v.update(zip(xs, sol.y[r]))
        v.update(zip(us, sol.u[r]))
        v.update(zip(ps, sol.dynamical_parameters))
        v.update({'L__' + x: sol.dual[r][i] for i, x in enumerate(xs)})
        g = M.num('Hu', v)
        mon.check(np.abs(g).max() <= 1e-6 * (1 + np.abs(list(v.values())).max()**3), 'control',
                  lambda: 'the control of the solution does not make the Hamiltonian stationary: %s' % g)
        if spec.get('circle'):
            # directions: every other direction on a fine circle (one control at a time) has a larger Hamiltonian
            h = float(M.num('H', v))
            for c in us:
                for s in np.linspace(0, 2 * np.pi, 24, endpoint=False):
                    d = float(M.num('H', dict(v, **{c: v[c] + s})))
                    mon.check(d >= h - 1e-7 * (1 + abs(h) + abs(d)), 'control', lambda: 'the control of the solution has the Hamiltonian %g, another direction of %s has %g' % (h, c, d), 'least')
