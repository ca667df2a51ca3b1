"""C09: analytical Jacobians are the derivatives of the functions they belong to."""
import sys
import numpy as np
from vlib import ocp
from vlib.runner import load_check
from vlib.signals import Undecided

LEVEL = 'exploration'
RULE = ('random problems x formulations (with free parameters and quadratures, reduced problems, named components) compiled with analytical '
        'Jacobians; every entry compared with Richardson differences of the compiled functions at random points, interpreted and '
        'compiled; and every Jacobian evaluation SciPy\'s collocation solver asks for during real solves compared with differences of the '
        'functions it was given; distinct = (formulation, shape) and intercepted solver evaluations')
ASSUMPTIONS = ['Richardson extrapolated central differences are accurate to 1e-5 of the largest entry at the sampled points']


def cases(tier, seed):
    n = {'quick': 260, 'thorough': 5000}[tier]
    out = []
    for i in range(n):
        g = ['traditional', 'diffyg', 'parameters', 'traditional', 'named', 'solver', 'algebraic', 'reduced'][i % 8]
        out.append({'group': g, 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 60, 'i': i, 'cost': 3 if g == 'solver' else 1})
    for i in range(max(4, n // 60)):
        out.append({'group': 'compiled', 'mode': 'jit', 'seed': seed * 100003 + 800000 + i, 'timeout': 200, 'i': i, 'cost': 25})
    return out


def diff(f, x, j):
    """Fourth-order central difference of f (a function of one vector) with respect to x[j], and an error estimate."""
    h = 2e-3 * (1 + abs(x[j]))

    def d(h):
        a, b = x.copy(), x.copy()
        a[j] += h
        b[j] -= h
        return (np.asarray(f(a), float).ravel() - np.asarray(f(b), float).ravel()) / (2 * h)
    d1, d2, d3 = d(h), d(h / 2), d(h / 4)
    r1, r2 = (4 * d2 - d1) / 3, (4 * d3 - d2) / 3
    return (16 * r2 - r1) / 15, np.abs(r2 - r1)


def judge(mon, J, f, x, what, key, cols=None):
    """Columns of J (list of column indices into x) against differences of f at x."""
    J = np.asarray(J, dtype=float)
    cols = list(range(len(x))) if cols is None else cols
    f0 = np.asarray(f(x), float).ravel()
    if not np.all(np.isfinite(f0)):
        return 0
    J = J.reshape(len(f0), len(cols)) if J.size == len(f0) * len(cols) else J
    if not mon.check(J.shape == (len(f0), len(cols)), 'shape', lambda: '%s has shape %s, expected %s' % (what, J.shape, (len(f0), len(cols))), key):
        return 0
    seen = 0
    for c, j in enumerate(cols):
        d, e = diff(f, x, j)
        if not np.all(np.isfinite(d)):
            continue
        size = 1 + np.abs(d).max() + np.abs(f0).max()
        ok = e < 1e-3 * size            # entries where the difference quotient itself has settled
        tol = 1e-5 * size + 20 * e
        bad = ok & ~(np.abs(J[:, c] - d) <= tol)
        seen += int(ok.sum())
        mon.check(not bad.any(), 'jacobian', lambda: '%s: column %d is %s, differences give %s' % (what, c, J[:, c], d), key)
    return seen


def probe(bvp, rng, mon, key, consts, pts=2):
    fp = bvp.functional_problem
    ns, npar, nnu, nq = len(bvp.states), len(bvp.parameters), len(bvp.constraint_parameters), len(bvp.quads)
    kn = ocp.names(bvp.constants)
    if not mon.check(fp.deriv_func_jac is not None and fp.bc_func_jac is not None, 'missing', 'the requested Jacobians are not compiled', key):
        return
    tot = 0
    for _ in range(pts):
        k = np.array([consts[a] * rng.uniform(0.9, 1.1) for a in kn])
        y, yf = rng.normal(size=ns) * 0.6, rng.normal(size=ns) * 0.6
        q, qf = rng.normal(size=nq), rng.normal(size=nq)
        p, nu = rng.uniform(0.5, 1.5, npar), rng.normal(size=nnu)
        out = mon.under(fp.deriv_func_jac, y, p, k)
        z = np.concatenate([y, p])
        f = lambda z: fp.deriv_func(z[:ns].copy(), z[ns:].copy(), k)
        if not np.all(np.isfinite(np.asarray(f(z), float))):
            continue
        tot += judge(mon, out[0], f, z, 'df/dy', key, list(range(ns)))
        tot += judge(mon, out[1], f, z, 'df/dp', key, list(range(ns, ns + npar)))
        w = [y, q, yf, qf, p, nu] if nq else [y, yf, p, nu]
        ix = np.cumsum([0] + [len(a) for a in w])
        z = np.concatenate(w)
        cut = lambda z: [z[a:b].copy() for a, b in zip(ix[:-1], ix[1:])]
        b = lambda z: fp.bc_func(*cut(z), k)
        out = mon.under(fp.bc_func_jac, *w, k)
        blocks = {'dbc/dy0': (0, 1), 'dbc/dyf': (2, 3) if nq else (1, 2), 'dbc/dp': (4, 6) if nq else (2, 4)}
        got = dict(zip(['dbc/dy0', 'dbc/dyf', 'dbc/dp', 'dbc/dq0', 'dbc/dqf'], out))
        if nq:
            blocks.update({'dbc/dq0': (1, 2), 'dbc/dqf': (3, 4)})
        for name, (i0, i1) in blocks.items():
            tot += judge(mon, got[name], b, z, name, key, list(range(ix[i0], ix[i1])))
    if tot == 0:
        raise Undecided('no regular point')
    mon.count('entries', tot)
    mon.sample = {'shape': [ns, npar, nnu, nq], 'entries_compared': tot}


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    g = case['group']
    if g == 'solver':
        return run_solver(case, mon, rng)
    if g == 'algebraic':
        # no Jacobian is available for algebraic control: none may be offered to the solvers
        spec = ocp.random_spec(rng, affine=True, n_states=int(rng.integers(1, 3)), n_controls=1)
        bvp = mon.under(ocp.to_bvp, ocp.build_problem(spec), method=['traditional', 'diffyg'][case['i'] % 2], control_method='algebraic',
                        analytical_jacobian=True)
        fp = bvp.functional_problem
        if fp.deriv_func_jac is None and fp.bc_func_jac is None:
            mon.check(True, 'jacobian', '', ('algebraic', 'none'))
        else:
            probe(bvp, rng, mon, ('algebraic', 'offered'), {c[0]: c[1] for c in spec['constants']})
        return
    nt = case['i'] % 4 != 3
    if g == 'named':
        spec, _, fn, tb, nq, ns = load_check('C11').build(rng, ['quantities', 'switches', 'tables'][case['i'] // 8 % 3])
        method, opts = 'traditional', {}
    elif g == 'parameters':
        spec = ocp.random_spec(rng, n_states=int(rng.integers(1, 4)), n_controls=1, max_terms=2)
        load_check('C01').add_parameters(spec, 1 + case['i'] // 8 % 4, rng)
        method, opts = 'traditional', {}
    elif g == 'reduced':
        spec = reduced_spec(rng)
        method, opts = 'diffyg', {'reduction': True}
    else:
        method = 'diffyg' if g == 'diffyg' or (g == 'compiled' and case['i'] % 3 == 2) else 'traditional'
        spec = ocp.random_spec(rng, n_states=int(rng.integers(1, 4)), n_controls=1 if method == 'diffyg' else int(rng.integers(1, 3)), max_terms=2)
        opts = {}
    bvp = mon.under(ocp.to_bvp, ocp.build_problem(spec), method=method, control_method='differential', analytical_jacobian=True,
                    do_normalize_time=nt, **opts)
    key = (g, method, len(bvp.states), len(bvp.parameters), len(bvp.constraint_parameters), len(bvp.quads))
    probe(bvp, rng, mon, key, {c[0]: c[1] for c in spec['constants']})


def reduced_spec(rng):
    """A problem that does not depend on x: its momentum is conserved and can be eliminated."""
    spec = ocp.random_spec(rng, n_states=2, n_controls=1, timed=False, max_terms=2)
    a, b = [s[0] for s in spec['states']]
    for i in range(2):
        spec['states'][i][1] = _swap(spec['states'][i][1], a, b)
    c = spec['cost']
    c['path'] = _swap(c['path'], a, b)
    spec['symmetries'] = [[['1', '0'], spec['states'][0][2]]]
    return spec


def _swap(text, a, b):
    import re
    return re.sub(r'\b%s\b' % a, b, text)


# ------------------------------------------------------------------------------------------------ what the solver is given
def run_solver(case, mon, rng):
    import scipy.integrate
    import beluga
    orig = scipy.integrate.solve_bvp
    stats = {'calls': 0, 'jac': 0}

    def wrapped(fun, bc, x, y, p=None, S=None, fun_jac=None, bc_jac=None, **kw):
        stats['calls'] += 1
        np_ = 0 if p is None else len(np.atleast_1d(p))

        def fj(xx, yy, *pp):
            out = fun_jac(xx, yy, *pp)
            if stats['jac'] < 6:
                stats['jac'] += 1
                for i in {0, len(xx) // 2, len(xx) - 1}:
                    z = np.concatenate([yy[:, i]] + [np.asarray(a, float) for a in pp])
                    n = yy.shape[0]
                    f = lambda z: fun(xx[i:i + 1], z[:n].reshape(n, 1).copy(), *([z[n:].copy()] if pp else []))[:, 0]
                    J = np.hstack([out[0][:, :, i], out[1][:, :, i]]) if isinstance(out, tuple) else out[:, :, i]
                    judge(mon, J, f, z, 'the Jacobian of the rates handed to the solver', key)
            return out

        def bj(ya, yb, *pp):
            out = bc_jac(ya, yb, *pp)
            if stats['jac'] < 6:
                stats['jac'] += 1
                n = len(ya)
                z = np.concatenate([ya, yb] + [np.asarray(a, float) for a in pp])
                f = lambda z: bc(z[:n].copy(), z[n:2 * n].copy(), *([z[2 * n:].copy()] if pp else []))
                judge(mon, np.hstack(out), f, z, 'the Jacobian of the boundary conditions handed to the solver', key)
            return out
        return orig(fun, bc, x, y, p, S, fun_jac=None if fun_jac is None else fj, bc_jac=None if bc_jac is None else bj, **kw)
    C2 = load_check('C02')
    fam = ['lq', 'freetime', 'params'][case['i'] // 8 % 3]
    key = ('solver', fam)
    patched = []
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('beluga') or m is scipy.integrate:
            for n, v in list(vars(m).items()):
                if v is orig:
                    patched.append((m, n))
    for m, n in patched:
        setattr(m, n, wrapped)
    try:
        conf = C2.config
        C2.config = lambda r, i, a=True: dict(conf(r, i, a), algo='spbvp', jac=True, cm='differential')
        try:
            if fam == 'params':
                run_params(case, mon, rng)
            else:
                {'lq': C2.run_lq, 'freetime': C2.run_freetime}[fam](case, mon, rng)
        finally:
            C2.config = conf
    finally:
        for m, n in patched:
            setattr(m, n, orig)
    if stats['calls'] == 0 or stats['jac'] == 0:
        raise Undecided('no Jacobian evaluation was observed')
    mon.count('solver_jacobians', stats['jac'])


def run_params(case, mon, rng):
    """A problem with a free parameter: quadratures in the boundary-value problem, solved with Jacobians."""
    spec = {'ind': 't', 'states': [['x', 'u + a*pa', 'm']], 'controls': [['u', 'm']], 'params': [['pa', 'm']],
            'constants': [['a', float(rng.uniform(0.5, 1.5)), '1'], ['x_f', 1.0, 'm'], ['b', float(rng.uniform(0.5, 2)), '1']],
            'cost': {'path': 'u**2/2 + b*pa**2/2', 'units': '1'}, 'initial': [['x', 'm'], ['t', 's']],
            'terminal': [['x - x_f', 'm'], ['t - 1', 's']]}
    bvp = ocp.to_bvp(ocp.build_problem(spec), analytical_jacobian=True)
    fp = bvp.functional_problem
    import beluga
    from beluga.numeric.data_classes import Trajectory
    alg = beluga.bvp_algorithm('spbvp')
    alg.set_derivative_function(fp.deriv_func)
    alg.set_quadrature_function(fp.quad_func)
    alg.set_boundarycondition_function(fp.bc_func)
    alg.set_derivative_jacobian(fp.deriv_func_jac)
    alg.set_boundarycondition_jacobian(fp.bc_func_jac)
    n = 5
    g = Trajectory()
    g.t = np.linspace(0, 1, n)
    ones = lambda m: np.ones((n, m)) * 0.3
    g.y, g.q, g.u = ones(len(bvp.states)), ones(len(bvp.quads)), np.zeros((n, 0))
    g.dynamical_parameters = np.ones(len(bvp.parameters))
    g.nondynamical_parameters = np.ones(len(bvp.constraint_parameters))
    g.const = ocp.const_values(bvp)
    out = mon.under(alg.solve, g)
    s = out['sol']
    mon.check(bool(s.converged), 'not-solved', 'the parameter problem is not solved', ('solver', 'params'))
    a, b = spec['constants'][0][1], spec['constants'][2][1]
    want = (1.0) / (1 + a * a / b) * a / b
    got = s.dynamical_parameters[ocp.names(bvp.parameters).index('pa')]
    mon.check(abs(got - want) < 1e-2, 'value', lambda: 'free parameter %g, optimum %g' % (got, want), ('solver', 'params'))
