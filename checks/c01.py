"""C01: the boundary-value problem handed to the solvers is exactly the first-order necessary conditions of the
user's problem. Oracle: vlib.ocp.PMP, derived from the specification text, evaluated at random points."""
import numpy as np
from vlib import ocp

LEVEL = 'exploration'
RULE = ('random smooth optimal control problems (1-8 states, 1-4 controls, explicit time, initial/path/terminal cost, '
        'linear and nonlinear boundary constraints) x formulation (traditional/diffyg, differential/algebraic control, '
        'with/without explicit-time state, normalised or not) ; each compared with an independent derivation at random '
        'points; distinct = (formulation, structural shape of the problem) pairs whose rates and conditions were compared')
ASSUMPTIONS = ['sympy differentiation is trusted', 'names of states, costates (_lam_x), multipliers (_nu_0_i, _nu_f_i) '
               'and the duration parameter identify components; their order is free']


def cases(tier, seed):
    n = {'quick': 300, 'thorough': 6000}[tier]
    out = []
    combos = [('traditional', 'differential'), ('diffyg', 'differential'), ('traditional', 'algebraic'),
              ('diffyg', 'algebraic')]
    for i in range(n):
        method, cm = combos[i % 4] if i % 8 < 6 else combos[0]
        out.append({'group': method + '-' + cm, 'mode': 'nojit', 'seed': seed * 100003 + i, 'method': method, 'cm': cm,
                    'ms': i % 7 != 3 or (method, cm) == combos[1], 'nt': i % 11 != 5, 'timeout': 40, 'pts': 4})
    # many states, controls and constraints
    for i in range(n // 10):
        method, cm = combos[i % 4]
        out.append({'group': 'wide', 'mode': 'nojit', 'seed': seed * 100003 + 300000 + i, 'method': method, 'cm': cm, 'wide': True,
                    'ms': True, 'nt': i % 5 != 4, 'timeout': 90, 'pts': 3, 'cost': 4})
    # free static parameters: their adjoints carry the parameter part of the conditions (traditional formulation)
    for i in range(n // 8):
        out.append({'group': 'parameters', 'mode': 'nojit', 'seed': seed * 100003 + 500000 + i, 'method': 'traditional',
                    'cm': ['differential', 'algebraic'][i % 2], 'ms': True, 'nt': i % 5 != 4, 'timeout': 40, 'pts': 4,
                    'params': 1 + i % 2})
    # a formulation on the record as broken: see known_findings.json
    for i in range(6):
        out.append({'group': 'diffyg-differential-no-time-state', 'mode': 'nojit', 'seed': seed * 100003 + 700000 + i,
                    'method': 'diffyg', 'cm': 'differential', 'ms': False, 'nt': i % 2 == 0, 'timeout': 40, 'pts': 4})
    # a few problems through the real just-in-time compiler
    for i in range(n // 40):
        method, cm = combos[i % 4]
        out.append({'group': 'jit', 'mode': 'jit', 'seed': seed * 100003 + 900000 + i, 'method': method, 'cm': cm,
                    'ms': True, 'nt': True, 'timeout': 120, 'pts': 4, 'cost': 12})
    return out


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    affine = case['cm'] == 'algebraic'
    big = case['method'] == 'traditional' and not affine
    brach = affine and rng.random() < 0.3
    if case.get('wide'):
        brach = False
        small = case['method'] == 'diffyg'
        spec = ocp.wide_spec(rng, affine=affine, states=(3, 6) if small else (5, 9), controls=(3, 4) if small else (3, 5))
    elif brach:
        spec = two_headings(rng) if rng.random() < 0.3 else brachistochrone_like(rng)
    else:
        spec = ocp.random_spec(rng, affine=affine, n_states=int(rng.integers(1, 5 if big else 4)),
                               n_controls=int(rng.integers(1, 3)), timed=None if case['ms'] else False)
    if case.get('params'):
        add_parameters(spec, case['params'], rng)
    if not case['ms']:
        spec['initial'] = [c for c in spec['initial'] if spec['ind'] not in ocp.free_names(c[0])]
        spec['terminal'] = [c for c in spec['terminal'] if spec['ind'] not in ocp.free_names(c[0])]
    bvp = ocp.to_bvp(ocp.build_problem(spec), method=case['method'], control_method=case['cm'],
                     do_momentum_shift=case['ms'], do_normalize_time=case['nt'])
    compare(spec, bvp, case, rng, mon)


def brachistochrone_like(rng):
    spec = ocp.random_spec(rng, n_states=1, n_controls=1, timed=False, affine=True)
    return {'ind': 't', 'states': [['x', 'v*cos(th)', 'm'], ['y', 'v*sin(th)', 'm'], ['v', 'g*sin(th)', 'm/s']],
            'controls': [['th', 'rad']],
            'constants': [['g', float(rng.uniform(-10, -1)), 'm'], ['x_f', 1.0, 'm'], ['y_f', -1.0, 'm']],
            'cost': {'initial': None, 'path': '1 + 0.0*v' if rng.random() < 0.5 else '1', 'terminal': None, 'units': 's'},
            'initial': [['x', 'm'], ['y', 'm'], ['v', 'm/s'], ['t', 's']],
            'terminal': [['x - x_f', 'm'], ['y - y_f', 'm']]}


def two_headings(rng):
    """Two points steered by two independent directions: four candidate controls."""
    a, b = [str(n) for n in rng.permutation(['th', 'a1', 'be'])[:2]]
    states = [['x', 'k1*cos(%s) + k2*y' % a, 'm'], ['y', 'k1*sin(%s)' % a, 'm'], ['z', 'k3*cos(%s)' % b, 'm'], ['w', 'k3*sin(%s) - k2*z' % b, 'm']]
    states = [states[i] for i in rng.permutation(4)]
    return {'ind': 't', 'states': states, 'controls': [[a, 'rad'], [b, 'rad']], 'headings': [a, b],
            'constants': [['k1', 1.3 * R(rng, [1, -1]), 'm/s'], ['k2', float(rng.uniform(-1, 1)), '1/s'], ['k3', 0.7 * R(rng, [1, -1]), 'm/s'], ['x_f', 1.0, 'm']],
            'cost': {'initial': None, 'path': '1', 'terminal': R(rng, [None, 'w**2']), 'units': 's'},
            'initial': [[n, 'm'] for n in 'xyzw'] + [['t', 's']],
            'terminal': [['x - x_f', 'm'], ['y - x_f', 'm'], ['z + x_f', 'm']]}


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def add_parameters(spec, n, rng):
    names = ['pa', 'qb', 'c3', 'r4'][:n]
    spec['params'] = [[p, 'm'] for p in names]
    for p in names:
        i = int(rng.integers(len(spec['states'])))
        x = spec['states'][int(rng.integers(len(spec['states'])))][0]
        spec['states'][i][1] += ' + %s*%s' % (p, ['1', x, 'sin(%s)' % x, p][int(rng.integers(4))])
        if rng.random() < 0.5:
            spec['cost']['path'] += ' + %s**2*%s' % (p, x)
        for where in ('initial', 'terminal'):
            if rng.random() < 0.4:
                spec['cost'][where] = (spec['cost'][where] or '0') + ' + %s*%s' % (p, x)
            if rng.random() < 0.5:
                spec[where].append(['%s*%s - 2' % (p, x), 'm'])


def flat(a):
    return np.asarray(a, dtype=float).ravel()


class View:
    """Reads a compiled problem by names."""

    def __init__(self, spec, bvp, case):
        self.fp = bvp.functional_problem
        self.sn = ocp.names(bvp.states)
        self.pn = ocp.names(bvp.parameters)
        self.nn = ocp.names(bvp.constraint_parameters)
        self.kn = ocp.names(bvp.constants)
        self.qn = ocp.names(bvp.quads)

    def lookup(self, name, v, delta):
        if name in v:
            return v[name]
        if name.startswith('_lam_'):
            return v.get('L__' + name[5:], v.get('LP__' + name[5:], 0.0))
        if name.startswith('_nu_0_'):
            return v['N0__' + name[6:]]
        if name.startswith('_nu_f_'):
            return v['Nf__' + name[6:]]
        if name.startswith('_delta'):
            return delta
        raise KeyError(name)

    def arr(self, nl, v, delta):
        return np.array([self.lookup(n, v, delta) for n in nl], dtype=float)


def compare(spec, bvp, case, rng, mon):
    M = ocp.PMP(spec)
    if not case['ms']:
        # time is not a state: drop the time components of the model
        M.x, M.lam, M.f, M.Hx = M.x[:-1], M.lam[:-1], M.f[:-1], M.Hx[:-1]
        M.H = M.L + sum(l * f for l, f in zip(M.lam, M.f))
        tsym = ocp.sp.Symbol(spec['ind'])
        M.Hul = [[ocp.sp.diff(g, s) for s in M.lam] for g in M.Hu]
        M.Hux = [[ocp.sp.diff(g, s) for s in M.x] for g in M.Hu]
        M.G0x, M.Gfx = M.G0x[:-1], M.Gfx[:-1]
        M.psi0 = [p for p in M.psi0]
        M.xn = [str(s) for s in M.x]
        M._tsym = tsym
    V = View(spec, bvp, case)
    un = [str(u) for u in M.u]
    diffyg_u = case['method'] == 'diffyg' and case['cm'] == 'differential'
    # --- shape: the expected unknowns, each exactly once
    exp_states = M.xn + ['_lam_' + s for s in M.xn]
    if case['cm'] == 'differential':
        exp_states += un
        if diffyg_u:
            exp_states += ['_lam_' + u for u in un]
    mon.check(sorted(V.sn) == sorted(exp_states), 'unknowns', lambda: 'states %s expected %s' % (V.sn, exp_states))
    mon.check(len(V.nn) == len(M.psi0) + len(M.psif), 'unknowns', lambda: 'multipliers %s' % V.nn)
    pars = [str(q) for q in M.par]
    mon.check(len(V.pn) == len(pars) + (1 if case['nt'] else 0), 'unknowns', lambda: 'parameters %s' % V.pn)
    mon.check(sorted(V.qn) == sorted('_lam_' + q for q in pars), 'unknowns', lambda: 'quadratures %s' % V.qn)
    if mon.viol:
        return
    key = (case['method'], case['cm'], case['ms'], case['nt'], len(M.x), len(un), len(M.psi0), len(M.psif),
           len(pars), spec['cost']['initial'] is not None, spec['cost']['terminal'] is not None)

    # --- rates
    probes = 0
    for _ in range(case['pts'] * 3):
        if probes >= case['pts']:
            break
        v = ocp.random_point(M, rng)
        delta = float(rng.uniform(0.3, 3.0)) if case['nt'] else 1.0
        k = V.arr(V.kn, v, delta)
        p = V.arr(V.pn, v, delta)
        if case['cm'] == 'algebraic':
            y = V.arr(V.sn, v, delta)
            uopt = flat(mon.under(V.fp.compute_u, y, p, k))
            if not np.all(np.isfinite(uopt)):
                continue
            for n_, val in zip(un, uopt):
                v[n_] = float(val)
            g = M.num('Hu', v)
            scale = 1 + np.abs(M.num('Hul', v)).sum() * (1 + max(abs(v[str(l)]) for l in M.lam)) + abs(float(M.num('H', v)))
            mon.check(np.abs(g).max() <= 1e-6 * scale, 'stationarity',
                      lambda: 'control returned for %s does not make H stationary: %s' % (v, g), key)
            # no other stationary control found by sampling gives a lower Hamiltonian
            h = float(M.num('H', v))
            best = min(float(M.num('H', dict(v, **{n_: val + d for n_, val, d in zip(un, uopt, rng.normal(size=len(un)) * s)})))
                       for s in (0.01, 0.1, 0.5, 1.0, 2.0, 3.0) for _ in range(6))
            if un == ['th'] and spec['states'][0][1] == 'v*cos(th)':
                # one direction angle: the minimum over all directions
                grid = [float(M.num('H', dict(v, th=a))) for a in np.linspace(-np.pi, np.pi, 61)]
                mon.check(h <= min(grid) + 1e-7 * (1 + abs(h)), 'minimum', lambda: 'H(u*) = %g but %g for another direction at %s' % (h, min(grid), v), key)
            for a in spec.get('headings', ()):
                grid = [float(M.num('H', dict(v, **{a: d}))) for d in np.linspace(-np.pi, np.pi, 61)]
                mon.check(h <= min(grid) + 1e-7 * (1 + abs(h)), 'minimum', lambda: 'H(u*) = %g but %g for another %s at %s' % (h, min(grid), a, v), key)
            if convex_in_u(M, v):
                mon.check(h <= best + 1e-7 * (1 + abs(h)), 'minimum',
                          lambda: 'control is not the minimiser of H: H(u*)=%g but %g nearby at %s' % (h, best, v), key)
        else:
            if diffyg_u or probes % 2:
                v, res = ocp.project_stationary(M, v)
                if not res <= (1e-11 if diffyg_u else 1e-9):
                    if diffyg_u:
                        continue
            y = V.arr(V.sn, v, delta)
        Huu = M.num('Huu', v)
        if case['cm'] == 'differential' and (np.linalg.cond(Huu) > (1e3 if diffyg_u else 1e6) or np.abs(Huu).max() < (1e-2 if diffyg_u else 1e-3)):
            continue
        d = flat(mon.under(V.fp.deriv_func, y, p, k))
        if len(d) != len(V.sn):
            mon.fail('rates', 'deriv_func returned %d rates for %d states' % (len(d), len(V.sn)))
            return
        rate = dict(zip(V.sn, d))
        if pars:
            qd = dict(zip(V.qn, flat(mon.under(V.fp.quad_func, y, p, k))))
            for q_, e in zip(pars, M.num('Hp', v)):
                mon.check(abs(qd['_lam_' + q_] + delta * e) <= 1e-7 * (1 + abs(delta * e)), 'costate-rate',
                          lambda: 'adjoint rate of parameter %s: %r expected %r' % (q_, qd['_lam_' + q_], -delta * e), key)
        f = M.num('f', v)
        hx = M.num('Hx', v)
        probes += 1
        sc = 1e-7
        for n_, e in zip(M.xn, f):
            mon.check(abs(rate[n_] - delta * e) <= sc * (1 + abs(delta * e)), 'state-rate',
                      lambda: 'd%s/dt: %r expected %r' % (n_, rate[n_], delta * e), key)
        for n_, e in zip(M.xn, hx):
            mon.check(abs(rate['_lam_' + n_] + delta * e) <= sc * (1 + abs(delta * e)), 'costate-rate',
                      lambda: 'costate rate of %s: %r expected %r' % (n_, rate['_lam_' + n_], -delta * e), key)
        if case['cm'] == 'differential':
            ud = np.array([rate[n_] for n_ in un])
            flow = M.num('Hux', v) @ f + M.num('Hul', v) @ (-hx) if len(un) else 0
            r = Huu @ ud + delta * flow
            s = np.abs(Huu) @ np.abs(ud) + np.abs(delta * flow) + 1
            mon.check(np.all(np.abs(r) <= 1e-6 * s), 'control-rate',
                      lambda: 'dH/du drifts along the flow: %s at %s' % (r, v), key)
            if diffyg_u:
                for n_ in un:
                    mon.check(abs(rate['_lam_' + n_]) <= 1e-6, 'costate-rate',
                              lambda: 'adjoint of control %s moves on the extremal manifold: %r' % (n_, rate['_lam_' + n_]), key)
    if probes == 0:
        from vlib.signals import Undecided
        raise Undecided('no regular point')

    # --- boundary conditions
    NP = 3
    exp, act = [], []
    for _ in range(NP):
        v0, vf = ocp.random_point(M, rng), ocp.random_point(M, rng)
        for a in list(v0):
            if a.startswith('N') or a in V.kn or a in [str(s) for s in M.par]:
                vf[a] = v0[a]
        delta = float(rng.uniform(0.3, 3.0)) if case['nt'] else 1.0
        k = V.arr(V.kn, v0, delta)
        p = V.arr(V.pn, v0, delta)
        nu = V.arr(V.nn, v0, delta)
        lam_u = {}
        y0, yf = V.arr(V.sn, v0, delta), V.arr(V.sn, vf, delta)
        if case['cm'] == 'algebraic':
            for v, y in ((v0, y0), (vf, yf)):
                for n_, val in zip(un, flat(mon.under(V.fp.compute_u, y, p, k))):
                    v[n_] = float(val)
        e = list(M.num(M.psi0, v0)) + list(M.num(M.psif, vf))
        e += list(M.num([l + g for l, g in zip(M.lam, M.G0x)], v0))
        e += list(M.num([l - g for l, g in zip(M.lam, M.Gfx)], vf))
        e += [float(M.num([M.H], vf)[0])]
        if case['cm'] == 'differential':
            e += list(M.num('Hu', vf))
        if diffyg_u:
            for n_ in un:
                j = V.sn.index('_lam_' + n_)
                y0[j] = float(rng.normal())
                e += [y0[j]]
        if pars:
            for v in (v0, vf):
                for q_ in pars:
                    v['LP__' + q_] = float(rng.normal())
            q0, qf = V.arr(V.qn, v0, delta), V.arr(V.qn, vf, delta)
            e += [v0['LP__' + q_] + g for q_, g in zip(pars, M.num('G0p', v0))]
            e += [vf['LP__' + q_] - g for q_, g in zip(pars, M.num('Gfp', vf))]
            a = flat(mon.under(V.fp.bc_func, y0, q0, yf, qf, p, nu, k))
        else:
            a = flat(mon.under(V.fp.bc_func, y0, yf, p, nu, k))
        exp.append(e)
        act.append(a)
    if len({len(a) for a in act}) != 1 or not np.all(np.isfinite(np.concatenate(act))):
        if np.all(np.isfinite(np.concatenate([np.array(e) for e in exp]))):
            mon.fail('boundary', 'boundary residuals are not finite or change length: %s' % act)
        return
    exp, act = np.array(exp).T, np.array(act).T
    mon.check(not case['nt'] or len(act) == len(V.sn) + len(V.qn) + len(V.pn) + len(V.nn), 'well-posed',
              lambda: '%d boundary conditions for %d states + %d parameters + %d multipliers'
              % (len(act), len(V.sn), len(V.pn), len(V.nn)), key)
    miss, extra = ocp.match_up_to_sign(exp, act)
    mon.seen(key, len(exp))
    if miss or extra:
        mon.fail('boundary', 'boundary conditions differ from the necessary conditions: missing %s unexpected %s (spec %s)'
                 % ([list(exp[i]) for i in miss], [list(act[i]) for i in extra], spec))
    if mon.sample is None:
        mon.sample = {'states': spec['states'], 'cost': spec['cost'], 'initial': spec['initial'],
                      'terminal': spec['terminal'], 'probes': probes, 'conditions': len(exp)}


def convex_in_u(M, v):
    return all(M.spec['states']) and np.all(np.linalg.eigvalsh(M.num('Huu', v)) > 1e-6) and not any(
        'sin' in e or 'cos' in e for _, e, _ in M.spec['states'])
