"""C07: automatic scaling is an exact change of units: invertible, consistent with the units the user stated, and the scaled
problem is the same problem."""
import copy
import numpy as np
from vlib import ocp

LEVEL = 'exploration'
RULE = ('random dimensionally consistent problems (1-4 states with mixed units, balancing constants, several cost units, constants of both signs, 0-3 free parameters) x scale '
        'choices (numbers, constants, states, sums, quotients, named quantities) x formulations; scale factors are inferred from what scaling does to a '
        'trajectory, compared with the stated units, and the compiled rates, controls and boundary conditions are checked to be '
        'homogeneous under them; continuation with scaling is compared with continuation without; distinct = (formulation, states, '
        'controls, scale kinds, cost unit)')
ASSUMPTIONS = ['the problem is dimensionally consistent and every unit used has a scale', 'reference magnitudes are nonzero']
BASE = ['m', 's', 'kg', 'rad']


def cases(tier, seed):
    n = {'quick': 440, 'thorough': 6000}[tier]
    out = []
    for i in range(n):
        method, cm = [('traditional', 'differential'), ('diffyg', 'differential'), ('traditional', 'algebraic'), ('diffyg', 'algebraic')][i % 4]
        out.append({'group': method + '-' + cm, 'mode': 'nojit', 'seed': seed * 100003 + i, 'method': method, 'cm': cm,
                    'ms': i % 7 != 3 or (method, cm) == ('diffyg', 'differential'), 'nt': i % 11 != 5, 'timeout': 60})
    for i in range(n // 5):
        out.append({'group': 'parameters', 'mode': 'nojit', 'seed': seed * 100003 + 300000 + i, 'method': 'traditional',
                    'cm': ['differential', 'algebraic'][i % 2], 'ms': i % 7 != 3, 'nt': i % 11 != 5, 'timeout': 60, 'params': 1 + i % 3})
    for i in range(n // 4):
        out.append({'group': 'continuation', 'mode': 'nojit', 'seed': seed * 100003 + 500000 + i, 'method': ['traditional', 'diffyg'][i % 2],
                    'cm': ['differential', 'algebraic'][(i // 2) % 2], 'ms': True, 'nt': True, 'timeout': 60,
                    'params': (i // 4) % 3 if i % 2 == 0 else 0})
    for i in range(max(2, n // 100)):
        out.append({'group': 'compiled', 'mode': 'jit', 'seed': seed * 100003 + 700000 + i, 'method': ['traditional', 'diffyg'][i % 2],
                    'cm': ['differential', 'algebraic'][i % 2], 'ms': True, 'nt': True, 'timeout': 120, 'cost': 12})
    return out


def ustr(e):
    s = '*'.join('%s**(%d)' % (b, p) for b, p in zip(BASE, e) if p)
    return s or '1'


def make(rng, case):
    R = lambda a: a[int(rng.integers(len(a)))]
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    units = [(1, 0, 0, 0), (1, -1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 0, 0), (1, -2, 1, 0), (0, -1, 0, 1), (2, -1, 0, 0)]
    T = np.array((0, 1, 0, 0))
    X = {x: np.array(R(units)) for x in ['x', 'y', 'v', 'w'][:n]}
    X[list(X)[0]] = np.array(R([(1, 0, 0, 0), (1, -1, 0, 0)]))
    U = {u: np.array(R(units)) for u in ['u', 'a1'][:m]}
    consts, ce, cost_terms = [], {}, []

    def const(e, lo=0.3, hi=2.0, prefix='k'):
        sign = -1 if prefix != 'r' and not cost_terms and rng.random() < 0.25 else 1
        nm = '%s%d' % (prefix, len(consts))
        consts.append([nm, round(float(rng.uniform(lo, hi)) * float(10.0**rng.integers(-1, 3)), 4) * sign, ustr(e)])
        ce[nm] = np.array(e)
        return nm
    refs = {x: const(X[x], prefix='r') for x in X}

    def shape(x):
        return R(['{x}/{r}', '{x}/{r}', 'sin({x}/{r})', '({x}/{r})**2', 'tanh({x}/{r})', '{x}/{r}/(1 + ({x}/{r})**2)']).format(x=x, r=refs[x])
    owner = {u: R(list(X)) for u in U}
    states = []
    for x in X:
        terms = []
        for _ in range(int(rng.integers(0, 3))):
            terms.append('%s*%s' % (const(X[x] - T), shape(R(list(X)))))
        for u in U:
            if owner[u] == x or rng.random() < 0.2:
                terms.append('%s*%s%s' % (const(X[x] - T - U[u]), u, R(['', '*(1 + %s)' % shape(R(list(X)))])))
        if not terms:
            terms = ['%s*%s' % (const(X[x] - T), shape(R(list(X))))]
        states.append([x, ' + '.join(terms), ustr(X[x])])
    P = {p: np.array(R(units)) for p in ['pa', 'qb', 'c3'][:case.get('params', 0)]}
    for p in P:
        st = R(states)
        st[1] += ' + %s*%s%s' % (const(X[st[0]] - T - P[p]), p, R(['', '*(1 + %s)' % shape(R(list(X)))]))
    J = np.array(R([(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (2, -1, 1, 0)]))
    cost_terms.append(True)
    path = ' + '.join('%s*%s**2' % (const(J - T - 2 * U[u]), u) for u in U)
    if rng.random() < 0.6:
        path += ' + %s*%s' % (const(J - T), shape(R(list(X))))
    cost = {'initial': None, 'path': path, 'path_units': ustr(J - T), 'terminal': None, 'units': ustr(J)}
    if rng.random() < 0.5:
        x = R(list(X))
        cost['terminal'] = '%s*%s' % (const(J - X[x]), x)
    cost_terms.clear()
    initial, terminal = [], []
    for x in X:
        initial.append(['%s - %s' % (x, const(X[x], prefix='c')), ustr(X[x])])
        if rng.random() < 0.6:
            terminal.append(['%s - %s' % (x, const(X[x], prefix='c')), ustr(X[x])])
    if case['ms']:
        initial.append(['t', 's'])
        if rng.random() < 0.6:
            terminal.append(['t - %s' % const(T, prefix='c'), 's'])
    # scales
    byunit = {}
    for nm, e in list(X.items()) + list(ce.items()) + list(P.items()):
        byunit.setdefault(tuple(e), []).append(nm)
    scale, kinds, quantities = {}, [], []
    for b, e in zip(BASE, np.eye(4, dtype=int)):
        opts = ['number']
        have = byunit.get(tuple(e), [])
        if have:
            opts += ['named', 'named', 'sum', 'quantity']
        if b == 's' and (1, 0, 0, 0) in byunit and (1, -1, 0, 0) in byunit:
            opts.append('quotient')
        k = R(opts)
        kinds.append(k)
        if k == 'quantity':
            # the scale is a named quantity (possibly defined by another one)
            e = '%s*%s + 0.5*%s' % (R(['2', '0.3']), R(have), R(have))
            quantities.append(['Q' + b, e])
            if rng.random() < 0.5:
                quantities.insert(0, ['Z' + b, '1.5*Q' + b])
        scale[b] = {'sum': lambda: '%s + %s' % (R(have), R(have)), 'quantity': lambda: R([q[0] for q in quantities if q[0][1:] == b]), 'number': lambda: round(float(rng.uniform(0.2, 30)), 3), 'named': lambda: R(have),
                    'quotient': lambda: '%s/%s' % (R(byunit[(1, 0, 0, 0)]), R(byunit[(1, -1, 0, 0)]))}[k]()
    spec = {'ind': 't', 'ind_units': 's', 'states': states, 'controls': [[u, ustr(U[u])] for u in U], 'constants': consts, 'cost': cost,
            'initial': initial, 'terminal': terminal, 'scale': scale, 'quantities': quantities}
    if P:
        spec['params'] = [[p, ustr(P[p])] for p in P]
    return spec, X, U, P, ce, J, kinds


def traj(bvp, rng):
    from beluga.numeric.data_classes import Trajectory
    N = int(rng.integers(3, 12)) if rng.random() < 0.85 else int(rng.integers(300, 1500))
    ns = len(bvp.states)
    y = rng.normal(size=(N, ns)) * 10.0**rng.integers(-1, 3, size=ns)
    t = np.cumsum(rng.uniform(0.1, 1, N))
    nu = len(bvp.controls)
    s = Trajectory(t, y, np.array([]), rng.normal(size=(N, nu)) if nu else np.array([]))
    s.dynamical_parameters = rng.uniform(0.5, 2, len(bvp.parameters))
    s.nondynamical_parameters = rng.normal(size=len(bvp.constraint_parameters))
    s.const = ocp.const_values(bvp)
    if len(bvp.quads):
        s.q = rng.normal(size=(N, len(bvp.quads))) * 10.0**rng.integers(-1, 3, size=len(bvp.quads))
    return s


FIELDS = ('t', 'y', 'u', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    spec, X, U, P, ce, J, kinds = make(rng, case)
    bvp = mon.under(ocp.to_bvp, ocp.build_problem(spec), method=case['method'], control_method=case['cm'],
                    do_momentum_shift=case['ms'], do_normalize_time=case['nt'])
    fp = bvp.functional_problem
    key = (case['method'], case['cm'], case['ms'], case['nt'], len(X), len(U), tuple(kinds), tuple(J))
    if case['group'] == 'continuation':
        return continuation(case, mon, rng, bvp, spec, key)
    S = traj(bvp, rng)
    ref = copy.deepcopy(S)
    F = mon.under(fp.compute_scale_factors, S)
    Z = mon.under(fp.scale_sol, S, F)
    same = all(np.array_equal(np.asarray(getattr(S, f)), np.asarray(getattr(ref, f))) for f in FIELDS)
    mon.check(same, 'input', 'scaling modified the trajectory it was given', key)
    B = mon.under(fp.scale_sol, Z, F, inv=True)
    for f in FIELDS:
        a, b = np.asarray(getattr(B, f), float), np.asarray(getattr(ref, f), float)
        mon.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-300), 'inverse', 'scaling there and back changes ' + f)
    ratio = {f: np.asarray(getattr(ref, f), float) / np.asarray(getattr(Z, f), float) for f in FIELDS if np.size(getattr(ref, f))}
    for f in ('y', 'u', 'q'):
        if f in ratio:
            mon.check(np.allclose(ratio[f], ratio[f][0], rtol=1e-10), 'factor', 'nodes of ' + f + ' are scaled differently')
    st = ratio['t'].ravel()[0]
    sy = ratio['y'][0]
    sp_ = ratio.get('dynamical_parameters', np.array([]))
    sn_ = ratio.get('nondynamical_parameters', np.array([]))
    sk = ratio['const']
    sq = ratio['q'][0] if 'q' in ratio else np.array([])
    qn = ocp.names(bvp.quads)
    # --- factors follow the stated units
    sn, kn = ocp.names(bvp.states), ocp.names(bvp.constants)
    vals = {n: np.abs(ref.y[:, i]).max() for i, n in enumerate(sn)}
    vals.update({n: abs(ref.const[i]) for i, n in enumerate(kn)})
    vals.update({n: abs(ref.dynamical_parameters[i]) for i, n in enumerate(ocp.names(bvp.parameters))})
    loc = {k: ocp.sp.Symbol(k) for k in vals}
    for q, e in sorted(spec['quantities']):            # Q.. before Z..
        loc[q] = ocp.sp.sympify(e, locals=loc)
    unit = np.array([float(ocp.sp.sympify(str(spec['scale'][b]), locals=loc).subs(vals)) for b in BASE])

    def expect(e):
        return float(np.prod(unit**np.asarray(e, float)))
    T = np.array((0, 1, 0, 0))
    exp = {x: expect(X[x]) for x in X}
    exp.update({'_lam_' + x: expect(J - X[x]) for x in X})
    if case['ms']:
        exp['t'], exp['_lam_t'] = expect(T), expect(J - T)
    exp.update({u: expect(U[u]) for u in U})
    exp.update({'_lam_' + u: expect(J - U[u]) for u in U})
    exp.update({p: expect(P[p]) for p in P})
    exp.update({'_lam_' + p: expect(J - P[p]) for p in P})
    for i, n in enumerate(sn):
        if n in exp:
            mon.check(abs(sy[i] / exp[n] - 1) < 1e-9, 'unit', lambda: '%s is scaled by %g, its units say %g' % (n, sy[i], exp[n]))
    for i, n in enumerate(kn):
        mon.check(abs(sk[i] / expect(ce[n]) - 1) < 1e-9, 'unit', lambda: 'constant %s is scaled by %g, its units say %g' % (n, sk[i], expect(ce[n])))
    for i, n in enumerate(ocp.names(bvp.controls)):
        if n in U and 'u' in ratio:
            mon.check(abs(ratio['u'][0][i] / exp[n] - 1) < 1e-9, 'unit', lambda: 'control %s is scaled by %g' % (n, ratio['u'][0][i]))
    for i, n in enumerate(ocp.names(bvp.parameters)):
        if n.startswith('_delta'):
            mon.check(abs(sp_[i] / expect(T) - 1) < 1e-9, 'unit', lambda: 'the duration is scaled by %g' % sp_[i])
        elif n in P:
            mon.check(abs(sp_[i] / exp[n] - 1) < 1e-9, 'unit', lambda: 'parameter %s is scaled by %g, its units say %g' % (n, sp_[i], exp[n]))
    for i, n in enumerate(qn):
        if n in exp:
            mon.check(abs(sq[i] / exp[n] - 1) < 1e-9, 'unit', lambda: 'quadrature %s is scaled by %g, its units say %g' % (n, sq[i], exp[n]), ('quad', len(qn)))
    mon.check(abs(st / (1.0 if case['nt'] else expect(T)) - 1) < 1e-9, 'unit', lambda: 'the independent variable is scaled by %g' % st)
    # --- the scaled problem is the same problem
    k = ref.const
    rb = []
    for _ in range(4):
        y0, yf = rng.normal(size=(2, len(sn))) * np.abs(sy) * 0.7
        p = rng.uniform(0.5, 1.5, len(sp_))
        nu = rng.normal(size=len(sn_))
        f = np.asarray(fp.deriv_func(y0, p, k), float)
        fs = np.asarray(mon.under(fp.deriv_func, y0 / sy, p / sp_, k / sk), float)
        if not (np.all(np.isfinite(f)) and np.all(np.isfinite(fs))):
            continue
        noise = lambda fn: max_dev(fn, y0, p, k, rng)
        d = np.abs(fs * sy / st - f)
        mon.check(np.all(d <= 1e-6 * np.abs(f) + noise(fp.deriv_func) + max_dev(fp.deriv_func, y0 / sy, p / sp_, k / sk, rng) * sy / st + 1e-12 * sy / st), 'rates',
                  lambda: 'rates of the scaled problem differ: %s vs %s for %s' % (fs * sy / st, f, sn), key)
        if fp.compute_u is not None:
            u, us = np.asarray(fp.compute_u(y0, p, k), float), np.asarray(fp.compute_u(y0 / sy, p / sp_, k / sk), float)
            su = np.array([exp[n] for n in ocp.names(bvp.controls)])
            mon.check(np.all(np.abs(us * su - u) <= 1e-6 * np.abs(u) + noise(fp.compute_u) + 1e-12 * su), 'control',
                      lambda: 'the control law of the scaled problem differs: %s vs %s' % (us * su, u))
        if len(qn):
            d, ds = np.asarray(fp.quad_func(y0, p, k), float), np.asarray(mon.under(fp.quad_func, y0 / sy, p / sp_, k / sk), float)
            mon.check(np.all(np.abs(ds * sq / st - d) <= 1e-6 * np.abs(d) + noise(fp.quad_func) + max_dev(fp.quad_func, y0 / sy, p / sp_, k / sk, rng) * sq / st + 1e-12 * sq / st),
                      'rates', lambda: 'quadrature rates of the scaled problem differ: %s vs %s for %s' % (ds * sq / st, d, qn), key)
            q0, qf = rng.normal(size=(2, len(qn))) * np.abs(sq)
            full = (y0, q0, yf, qf, p, nu, k), (y0 / sy, q0 / sq, yf / sy, qf / sq, p / sp_, nu / sn_, k / sk)
        else:
            full = (y0, yf, p, nu, k), (y0 / sy, yf / sy, p / sp_, nu / sn_, k / sk)
        rb.append(tuple(np.asarray(fp.bc_func(*a), float) for a in full))
    if len(rb) >= 2:
        for i in range(len(rb[0][0])):
            r = np.array([a[i] / b[i] for a, b in rb if abs(b[i]) > 1e-9 and abs(a[i]) > 1e-9])
            if len(r) >= 2:
                mon.check(np.all(np.abs(r / r[0] - 1) < 1e-6) and r[0] > 0, 'boundary',
                          lambda: 'boundary condition %d is not homogeneous under the scaling: ratios %s' % (i, r))
    mon.sample = {'factors': dict(zip(sn, [float(a) for a in sy])), 'unit': dict(zip(BASE, unit.tolist()))}


def max_dev(fn, y, p, k, rng):
    """How much the function moves when its inputs move by one part in a billion: far above rounding, far below a wrong unit."""
    f0 = np.asarray(fn(y, p, k), float)
    out = np.zeros_like(f0)
    for _ in range(4):
        e = lambda a: np.asarray(a) * (1 + 1e-9 * rng.choice([-1.0, 1.0], size=np.shape(a)))
        out = np.maximum(out, np.abs(np.asarray(fn(e(y), e(p), e(k)), float) - f0))
    return 3 * out


def continuation(case, mon, rng, bvp, spec, key):
    """A continuation with scaling gives the solver scaled problems and returns solutions in the user's units."""
    import beluga
    from beluga.continuation import run_continuation_set
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm, BVPResult
    S = traj(bvp, rng)
    S.u = np.array([]) if not len(bvp.controls) else S.u
    kn = ocp.names(bvp.constants)
    target = {k: float(S.const[kn.index(k)] * rng.uniform(1.5, 3)) for k in [str(a) for a in rng.permutation(kn)][:int(rng.integers(1, 3))]}
    n = int(rng.integers(2, 5))

    class Echo(BaseAlgorithm):
        """Returns its guess with every state grown by one percent, converged."""
        def __init__(self):
            BaseAlgorithm.__init__(self)
            self.seen = []

        def solve(self, g, **kw):
            self.seen.append(copy.deepcopy(g))
            g = copy.deepcopy(g)
            g.y = g.y * 1.01
            g.dynamical_parameters = g.dynamical_parameters * 1.02
            g.nondynamical_parameters = g.nondynamical_parameters * 0.97
            g.converged = True
            return BVPResult(sol=g, success=True, message='', niter=1)
    res = []
    for auto in (False, True):
        for with_steps in (True, False):
            steps = None
            if with_steps:
                steps = beluga.init_continuation()
                st = steps.add_step('manual').num_cases(n)
                for k, v in target.items():
                    st.const(k, v)
            e = Echo()
            out = mon.under(run_continuation_set, e, steps, copy.deepcopy(S), bvp, None, auto)
            res.append((e, [s for step in out for s in step]))
    for i in (0, 1):
        (e0, plain), (e1, scaled) = res[i], res[2 + i]
        mon.check(len(plain) == len(scaled), 'count', 'with and without scaling a different number of cases is solved', key)
        for j, (a, b) in enumerate(zip(plain, scaled)):
            for f in FIELDS:
                x, y = np.asarray(getattr(a, f), float), np.asarray(getattr(b, f), float)
                mon.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=0), 'units',
                          lambda: 'case %d: %s returned with scaling is %s, without %s' % (j, f, y.ravel()[:4], x.ravel()[:4]), key)
            # the solver saw the problem in scaled units, i.e. factors recomputed for that very guess
            g0, g1 = e0.seen[j], e1.seen[j]
            F = bvp.functional_problem.compute_scale_factors(g0)
            Z = bvp.functional_problem.scale_sol(g0, F)
            for f in FIELDS:
                mon.check(np.allclose(np.asarray(getattr(Z, f), float), np.asarray(getattr(g1, f), float), rtol=1e-9, atol=0), 'scaled-guess',
                          lambda: 'case %d: the solver did not see the scaled %s' % (j, f))
