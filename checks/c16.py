"""C16: listed constants of motion are conserved, and the symmetry-reduced problem is the same problem."""
import copy
import numpy as np
import sympy as sp
from vlib import ocp
from vlib.signals import Undecided

LEVEL = 'exploration'
RULE = ('random problems with translation and rotation symmetries (any number, any position among the states, with constants in the '
        'field) in the differential-geometric formulation; every listed constant of motion is evaluated together with its derivative '
        'along the compiled vector field at random points of the stationary manifold; the reduced problem (differential and algebraic '
        'control) is compared with the unreduced one node by node through the solution maps: maps inverse to each other, rates, '
        'quadrature rates, boundary conditions; solves with and without reduction compared; distinct = (group, control method, '
        'symmetries, states, controls, quantity)')
ASSUMPTIONS = ['the stated field is a symmetry of the stated problem (the user vouches for it)',
               'reduction is offered for translation symmetries; rotations are only judged for conservation',
               'a switch or a path constraint that depends on time explicitly is outside the claim about time as a symmetry']


def cases(tier, seed):
    n = {'quick': 96, 'thorough': 3000}[tier]
    out = []
    for i in range(n):
        out.append({'group': 'conserved', 'mode': 'nojit', 'seed': seed * 100003 + i, 'cm': ['differential', 'algebraic'][i % 3 == 2],
                    'timeout': 40, 'rot': i % 4 == 3})
        out.append({'group': 'reduced', 'mode': 'nojit', 'seed': seed * 100003 + 100000 + i, 'timeout': 60, 'nt': i % 5 != 4,
                    'cm': ['differential', 'algebraic'][i % 3 == 2], 'cost': 1.5})
    for i in range(max(8, n // 10)):
        out.append({'group': 'solve', 'mode': 'nojit', 'seed': seed * 100003 + 200000 + i, 'timeout': 100, 'cost': 8,
                    'cm': ['differential', 'algebraic'][i % 2]})
    for i in range(max(3, n // 40)):
        out.append({'group': 'compiled', 'mode': 'jit', 'seed': seed * 100003 + 300000 + i, 'timeout': 150, 'nt': True,
                    'cm': ['differential', 'algebraic'][i % 2], 'cost': 15})
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def make(rng, cm, rot=False, ncyc=None):
    """A problem some of whose states are cyclic (nothing depends on them)."""
    affine = cm == 'algebraic'
    if affine and not rot and ncyc is None and rng.random() < 0.35:
        return steering(rng)
    spec = ocp.random_spec(rng, affine=affine, n_states=int(rng.integers(1, 3)), n_controls=1 if affine else int(rng.integers(1, 3)),
                           max_terms=2)
    base, us = [s[0] for s in spec['states']], [c[0] for c in spec['controls']]
    ncyc = int(rng.choice([1, 1, 1, 2, 2, 2, 3])) if ncyc is None else ncyc
    cyc = ['c1', 'b2', 'd3'][:ncyc]
    for c in cyc:
        a = R(rng, base)
        f = R(rng, ['{a}', 'sin({a})', '{a}*{u}', '2*{u}', 'kk9*{a} + {u}', '{a}**2' + (' + {t}' if rng.random() < 0.3 else '')])
        spec['states'].append([c, f.format(a=a, u=R(rng, us), t=spec['ind']), R(rng, ['m', 'm/s', '1'])])
        if rng.random() < 0.8:
            spec['initial'].append([c + ' - ' + c + '_0', 'm'])
            spec['constants'].append([c + '_0', round(float(rng.normal()), 3), 'm'])
        if rng.random() < 0.6:
            spec['terminal'].append([c + ' - ' + c + '_f', 'm'])
            spec['constants'].append([c + '_f', round(float(rng.normal()), 3), 'm'])
        elif rng.random() < 0.5:
            spec['cost']['terminal'] = (spec['cost']['terminal'] + ' + ' if spec['cost']['terminal'] else '') + '0.7*' + c
    spec['constants'].append(['kk9', 0.8, '1'])
    spec['quantities'] = [['qq9', '2 + kk9']]
    pair = []
    if rot:
        w = R(rng, ['kk9', 'sin(%s)' % base[0], us[0], '1'])
        g = R(rng, ['0', base[0], '-0.3', us[0]])
        spec['states'] += [['px', '-(%s)*py + (%s)*px' % (w, g), 'm'], ['py', '(%s)*px + (%s)*py' % (w, g), 'm']]
        spec['initial'] += [['px - 1', 'm'], ['py', 'm']]
        spec['cost']['path'] += ' + 0.1*(px**2 + py**2)'
        pair = ['px', 'py']
    order = list(rng.permutation(len(spec['states'])))
    spec['states'] = [spec['states'][i] for i in order]
    sn = [s[0] for s in spec['states']]
    fields = []
    if rot:
        f = {n: '0' for n in sn}
        f['px'], f['py'] = '-py', 'px'
        fields.append(f)
    for c in cyc:
        f = {n: '0' for n in sn}
        f[c] = R(rng, ['1', '1', '2', '-1', 'kk9', 'qq9'])
        fields.append(f)
    if rng.random() < 0.4 and len(cyc) >= 2 and not rot:
        # combinations of translations instead of the later ones
        for j in range(1, len(cyc)):
            fields[j] = {n: '0' for n in sn}
            fields[j][cyc[j]] = R(rng, ['1', '3', '-2'])
            for i in range(j):
                fields[j][cyc[i]] = R(rng, ['0', '1', '2', '-1']) if j > 1 else '1'
        combo = True
    else:
        combo = False
    rng.shuffle(fields)
    spec['symmetries'] = [[[f[n] for n in sn], 'm'] for f in fields]
    return spec, cyc, combo, sn


def steering(rng):
    """An algebraic control law with several candidates: the direction of the motion is the control."""
    th = R(rng, ['th', 'a1'])
    d = R(rng, ['x', 'z'])
    states = [[d, 'v*cos(%s) + c_w' % th, 'm'], ['y', 'v*sin(%s)' % th, 'm'], ['v', '-c_g*sin(%s)' % th, 'm/s']]
    if rng.random() < 0.5:
        states.append(['e', 'v**2/c_r', 'm'])
    states = [states[i] for i in rng.permutation(len(states))]
    sn = [s[0] for s in states]
    spec = {'ind': 't', 'states': states, 'controls': [[th, 'rad']], 'constants': [
        ['c_g', round(float(rng.uniform(2, 10)), 3), 'm/s**2'], ['c_w', round(float(rng.uniform(-1, 1)), 3), 'm/s'], ['c_r', 3.7, 'm/s'],
        ['%s_f' % d, 1.5, 'm'], ['y_f', -1.2, 'm']],
        'cost': {'initial': None, 'path': '1', 'terminal': None},
        'initial': [[n, 'm'] for n in sn] + [['t', 's']], 'terminal': [['%s - %s_f' % (d, d), 'm'], ['y - y_f', 'm']]}
    cyc = [d] + (['e'] if 'e' in sn and rng.random() < 0.6 else []) + (['y'] if rng.random() < 0.4 else [])
    spec['symmetries'] = [[['1' if n == c else '0' for n in sn], 'm'] for c in rng.permutation(cyc)]
    return spec, cyc, False, sn


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case['group'] == 'conserved':
        return conserved(case, rng, mon)
    if case['group'] == 'solve':
        return solve(case, rng, mon)
    return reduced(case, rng, mon)


def conserved(case, rng, mon):
    spec, cyc, combo, sn = make(rng, case['cm'], case['rot'])
    M = ocp.PMP(spec)
    bvp = mon.under(ocp.to_bvp, ocp.build_problem(spec), method='diffyg', control_method=case['cm'])
    names, pn, kn = ocp.names(bvp.states), ocp.names(bvp.parameters), ocp.names(bvp.constants)
    un = [c[0] for c in spec['controls']]
    coms = {c.name: c.expr for c in bvp.constants_of_motion}
    key0 = (case['cm'], len(spec['symmetries']), len(sn), len(un), case['rot'])
    want = len(spec['symmetries'])
    got = [n for n in coms if n != 'hamiltonian']
    mon.check('hamiltonian' in coms, 'listed', 'the Hamiltonian is not among the constants of motion')
    mon.check(len(got) >= want, 'listed', lambda: '%d symmetries stated, constants of motion %s' % (want, list(coms)))
    todo = dict(coms)
    values = {n: [] for n in coms}
    momenta = []
    for _ in range(5):
        v = ocp.random_point(M, rng)
        v, res = ocp.project_stationary(M, v)
        if not np.isfinite(res) or res > 1e-8:
            continue
        full = {('_lam_' + str(a)): v['L__' + str(a)] for a in M.x}
        full.update({a: v[a] for a in v if not a.startswith('L__')})
        y = np.array([full.get(n, 0.0) for n in names])
        p = np.array([float(rng.uniform(0.5, 2)) for _ in pn])
        k = np.array([full[n] for n in kn])
        if case['cm'] == 'algebraic':
            u = np.atleast_1d(mon.under(bvp.functional_problem.compute_u, y, p, k))
            if np.abs(u - [v[c] for c in un]).max() > 1e-6 * (1 + np.abs(u).max()):
                continue        # another stationary control is the least one here
        r = np.asarray(mon.under(bvp.functional_problem.deriv_func, y, p, k), float)
        if not np.all(np.isfinite(r)) or np.abs(r).max() > 1e6:
            continue
        rate = dict(zip(names, r))
        base = dict(zip(kn, k))
        base.update(zip(pn, p))
        base.update(zip(names, y))
        for c in un:
            base.setdefault(c, v[c])
        for n, e in coms.items():
            syms = [s for s in e.free_symbols]
            extra = [str(s) for s in syms if str(s) not in base]
            if not mon.check(not extra, 'listed', lambda: 'constant of motion %s uses unknown names %s' % (n, extra)):
                return
            grad = {s: float(sp.diff(e, s).subs(base)) for s in syms}
            d = sum(grad[s] * rate.get(str(s), 0.0) for s in syms)
            scale = sum(abs(grad[s] * rate.get(str(s), 0.0)) for s in syms)
            if case['cm'] == 'algebraic' and n == 'hamiltonian':
                pass            # dH/du = 0 here, so the unknown rate of the control does not matter
            mon.check(abs(d) <= 1e-6 * (1 + scale) + 1e-8 * np.abs(r).max(), 'conserved',
                      lambda: 'constant of motion %s = %s changes at the rate %g along the flow' % (n, str(e)[:200], d),
                      key0 + ('hamiltonian' if n == 'hamiltonian' else 'momentum',))
            values[n].append(float(e.subs(base)))
        if 'kk9' in base:
            base['qq9'] = 2 + base['kk9']
        momenta.append([sum(full['_lam_' + x] * float(sp.sympify(f, locals={a: sp.Symbol(a) for a in base}).subs(base))
                            for x, f in zip(sn, fld)) for fld, _ in spec['symmetries']] + [full['_lam_' + spec['ind']]])
    if not momenta:
        raise Undecided('no usable point')
    momenta = np.array(momenta)
    cand = [values[n] for n in got]
    miss, _ = ocp.match_up_to_sign(list(momenta[:, :want].T), [np.array(c) for c in cand], 1e-6)
    mon.check(not miss, 'momentum', lambda: 'the momenta of symmetries %s are not among the constants of motion' % miss, key0 + ('noether',))
    timed = sp.Symbol(spec['ind']) in set().union(*[e.free_symbols for e in M.f + [M.L]])
    m2, _ = ocp.match_up_to_sign([momenta[:, -1]], [np.array(c) for c in cand], 1e-6)
    if not timed:
        mon.check(not m2, 'momentum', 'the adjoint of time is not among the constants of motion of an autonomous problem', key0 + ('time',))
    mon.sample = {'constants of motion': {n: str(e)[:120] for n, e in coms.items()}, 'points': len(momenta)}


def user_traj(rng, spec, M, bvp, sn, cyc, N, cm):
    """A user-level trajectory with constant costates of the cyclic states and arbitrary everything else."""
    from beluga.numeric.data_classes import Trajectory
    t = float(rng.normal()) + np.concatenate([[0.], np.cumsum(rng.uniform(0.1, 0.6, N - 1))])
    S = Trajectory(t, rng.normal(size=(N, len(sn))), np.array([]), rng.normal(size=(N, len(spec['controls']))))
    S.dual = rng.normal(size=(N, len(sn)))
    for i, n in enumerate(sn):
        if n in cyc:
            S.dual[:, i] = float(rng.normal())
    S.dual_t = rng.normal(size=N)
    S.q = np.zeros((N, 0))
    S.const = ocp.const_values(bvp) * rng.uniform(0.9, 1.1, len(bvp.constants))
    return S


def reduced(case, rng, mon):
    spec, cyc, combo, sn = make(rng, case['cm'])
    nsym = len(spec['symmetries'])
    M = ocp.PMP(spec)
    kw = dict(method='diffyg', control_method=case['cm'], do_normalize_time=case['nt'])
    full = mon.under(ocp.to_bvp, ocp.build_problem(spec), **kw)
    red = mon.under(ocp.to_bvp, ocp.build_problem(spec), reduction=True, **kw)
    key0 = (case['group'], case['cm'], nsym, len(sn), len(spec['controls']), combo, case['nt'])
    fn, rn = ocp.names(full.states), ocp.names(red.states)
    mon.check(len(rn) == len(fn) - 2 * nsym and len(red.quads) == nsym and len(red.parameters) == len(full.parameters) + nsym, 'size',
              lambda: 'the reduced problem has states %s quadratures %s parameters %s' % (rn, red.quads, red.parameters), key0)
    mon.check(set(rn) <= set(fn), 'size', lambda: 'the reduced problem has states %s' % rn)
    if mon.viol:
        return
    N = int(rng.integers(2, 8))
    S = user_traj(rng, spec, M, full, sn, cyc, N, case['cm'])
    ref = copy.deepcopy(S)
    F = mon.under(full.map_sol, copy.deepcopy(S))
    G = mon.under(red.map_sol, copy.deepcopy(S))
    back = mon.under(red.inv_map_sol, copy.deepcopy(G))
    for what, a, b in (('time', back.t, ref.t), ('states', back.y, ref.y), ('costates', back.dual, ref.dual), ('dual of time', back.dual_t, ref.dual_t),
                       ('constants', back.const, ref.const)) + ((('controls', back.u, ref.u),) if case['cm'] == 'differential' else ()):
        mon.check(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-9), 'round-trip',
                  lambda: '%s do not survive user -> reduced guess -> user: %s instead of %s' % (what, a, b), key0 + ('map',))
    mon.check(len(back.dynamical_parameters) == 0 and np.size(back.q) == 0, 'round-trip', 'reduction leaves parameters or quadratures behind')
    if mon.viol:
        return
    # rates at the same nodes
    eps = 1e-6
    P = copy.deepcopy(ref)
    dF = np.array([np.asarray(mon.under(full.functional_problem.deriv_func, y, F.dynamical_parameters, F.const), float) for y in F.y])
    if not np.all(np.isfinite(dF)) or np.abs(dF).max() > 1e5:
        raise Undecided('singular control rate')
    for r in range(N):
        a = dict(zip(fn, dF[r]))
        b = np.asarray(mon.under(red.functional_problem.deriv_func, G.y[r], G.dynamical_parameters, G.const), float)
        for n, val in zip(rn, b):
            mon.check(abs(val - a[n]) <= 1e-7 * (1 + abs(a[n])), 'rates', lambda: 'rate of %s is %r in the reduced problem, %r in the full one' % (n, val, a[n]),
                      key0 + ('rate',))
    if mon.viol:
        return
    # quadratures: move the cyclic states of the user trajectory along their rates and see how the mapped quadratures move
    d = {n: dF[:, fn.index(n)] for n in cyc}
    plus, minus = copy.deepcopy(ref), copy.deepcopy(ref)
    for i, n in enumerate(sn):
        if n in cyc:
            plus.y[:, i] += eps * d[n]
            minus.y[:, i] -= eps * d[n]
    qp, qm = mon.under(red.map_sol, plus).q, mon.under(red.map_sol, minus).q
    dq = (qp - qm) / (2 * eps)
    for r in range(N):
        b = np.asarray(mon.under(red.functional_problem.quad_func, G.y[r], G.dynamical_parameters, G.const), float).ravel()
        mon.check(b.shape == dq[r].shape and np.allclose(b, dq[r], rtol=1e-5, atol=1e-6 * (1 + np.abs(dq[r]).max())), 'rates',
                  lambda: 'quadrature rates are %s, the removed states move at %s' % (b, dq[r]), key0 + ('quad',))
    # boundary conditions
    fb = np.asarray(mon.under(full.functional_problem.bc_func, F.y[0], F.y[-1], F.dynamical_parameters, F.nondynamical_parameters, F.const), float).ravel()
    rb = np.asarray(mon.under(red.functional_problem.bc_func, G.y[0], G.q[0], G.y[-1], G.q[-1], G.dynamical_parameters,
                              G.nondynamical_parameters, G.const), float).ravel()
    if np.all(np.isfinite(fb)):
        miss, ex = ocp.match_up_to_sign([[x] for x in fb], [[x] for x in rb], 1e-7)
        mon.check(not miss and not ex, 'boundary', lambda: 'boundary residuals of the full problem %s, of the reduced one %s' % (fb, rb), key0 + ('bc',))
    mon.sample = {'reduced states': rn, 'quadratures': ocp.names(red.quads), 'parameters': ocp.names(red.parameters), 'nodes': N}


def solve(case, rng, mon):
    """Planar motion with drag and a cyclic position, minimum effort plus time: with and without reduction the same optimum."""
    import beluga
    k, xf, tf = float(rng.uniform(0.2, 1.0)), float(rng.uniform(0.5, 2)), float(rng.uniform(0.8, 2))
    two = bool(rng.integers(2))

    def prob():
        p = beluga.Problem('r')
        p.independent('t', 's')
        p.state('x', 'v', 'm')
        p.state('v', 'a - k*v', 'm/s')
        if two:
            p.state('z', 'v - w', 'm')
        p.control('a', 'm/s**2')
        p.constant('k', k, '1/s'); p.constant('w', 0.3, 'm/s'); p.constant('x_f', 0.1, 'm'); p.constant('t_f', tf, 's'); p.constant('one', 1, '1')
        sn = ['x', 'v'] + (['z'] if two else [])
        p.symmetry(['1' if n == 'x' else '0' for n in sn], 'm')
        if two:
            p.symmetry(['1' if n == 'z' else '0' for n in sn], 'm')
        p.path_cost('a**2', 'm**2/s**4')
        for n, u in (('x', 'm'), ('v', 'm/s'), ('t', 's')) + ((('z', 'm'),) if two else ()):
            p.initial_constraint(n, u)
        p.terminal_constraint('x - x_f', 'm'); p.terminal_constraint('v', 'm/s'); p.terminal_constraint('t - t_f', 's')
        p.scale(m='x + x_f', s='t_f')
        return p
    outs = []
    algo = R(rng, ['spbvp', 'Shooting'])
    auto = bool(rng.integers(2))
    for red in (False, True):
        steps = beluga.init_continuation()
        steps.add_step('bisection', 3).const('x_f', xf)
        g = beluga.guess_generator('auto', start=[0., 0.] + ([0.] if two else []), costate_guess=0.1, control_guess=[0.1], time_integrate=tf)
        out = mon.under(beluga.solve, ocp=prob(), method='diffyg', optim_options={'control_method': case['cm'], 'reduction': red},
                        bvp_algorithm=beluga.bvp_algorithm(algo), steps=steps, guess_generator=g, autoscale=auto, save_sols=False)
        outs.append(out[-1][-1])
    a, b = outs
    key = ('solve', case['cm'], algo, auto, two)
    mon.check(bool(a.converged) and bool(b.converged), 'solved', lambda: 'converged: full %s, reduced %s' % (a.converged, b.converged), key)
    mon.check(abs(a.cost - b.cost) <= 2e-2 * (1 + abs(a.cost)) * 0.1 and abs(b.t[-1] - tf) < 1e-3, 'optimum', lambda: 'cost %r with, %r without reduction' % (b.cost, a.cost), key)
    i = 0
    mon.check(np.shape(b.y)[1] == 2 + two and abs(b.y[-1, 0] - xf) < 1e-3 and abs(b.y[-1, 1]) < 1e-3 and abs(b.y[0, 0]) < 1e-3, 'optimum',
              lambda: 'reduced solution goes from %s to %s' % (b.y[0], b.y[-1]), key)
    tt = np.linspace(a.t[0] + 1e-3, min(a.t[-1], b.t[-1]) - 1e-3, 9)
    ya, yb = a(tt)[0], b(tt)[0]
    mon.check(np.allclose(ya, yb, atol=2e-2 * (1 + np.abs(ya).max())), 'optimum', lambda: 'states differ: %s' % np.abs(ya - yb).max(), key)
    mon.check(np.shape(b.dual) == np.shape(b.y) and np.ptp(b.dual[:, 0]) < 1e-6 * (1 + np.abs(b.dual).max()), 'optimum', 'the momentum is not constant', key)
    mon.sample = {'cost': [float(a.cost), float(b.cost)], 'algorithm': algo, 'two': two}
