"""C24: malformed requests are refused, and a refusal changes nothing."""
import copy
import re
import numpy as np
from vlib import ocp, meta

LEVEL = 'exploration'
RULE = ('random valid problem statements with malformed calls woven in at random places (a name of any kind declared again as any kind, an '
        'unknown kind of table), compared afterwards with the statement without them through the compiled problem; random complete requests to '
        'solve with one thing wrong (no problem, no state, cost units that do not fit, method, control method, constraint method, activator, '
        'undeclared name, constant of a step, number of cpus, problem without its maps) which must be refused without asking the solver, and '
        'leave the objects usable; and wrong settings of the parts (strategies, guesses, solvers, steppers, derivative schemes, functions, '
        'transformation steps out of order); distinct = (what was wrong, where, kind)')
ASSUMPTIONS = ['the kind of exception is part of the interface where the code names one; elsewhere any exception is a refusal']


def cases(tier, seed):
    n = {'quick': 150, 'thorough': 3000}[tier]
    out = []
    for i in range(n):
        out.append({'group': 'statement', 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 60, 'cost': 3})
        out.append({'group': 'request', 'mode': 'nojit', 'seed': seed * 100003 + 20000 + i, 'timeout': 60, 'i': i, 'cost': 3})
    for i in range(max(12, n // 8)):
        out.append({'group': 'parts', 'mode': 'nojit', 'seed': seed * 100003 + 40000 + i, 'timeout': 60, 'cost': 2})
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def refused(mon, kinds, key, what, fn, *args, **kw):
    """fn must raise one of kinds."""
    try:
        fn(*args, **kw)
    except kinds:
        mon.seen(key)
        return True
    except Exception as e:
        mon.fail('refusal', '%s: refused with %s (%s) instead of %s' % (what, type(e).__name__, e, '/'.join(k.__name__ for k in kinds)))
        return False
    mon.fail('accepted', '%s was accepted' % what)
    return False


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    {'statement': statement, 'request': request, 'parts': parts}[case['group']](case, rng, mon)


def cube(x):
    return x**3


# ------------------------------------------------------------------------------------------------ statements
def calls_of(spec):
    c, out = spec['cost'], []
    out.append(('independent', (spec['ind'], 's'), spec['ind']))
    out += [('state', tuple(a), a[0]) for a in spec['states']] + [('control', tuple(a), a[0]) for a in spec['controls']]
    out += [('constant', tuple(a), a[0]) for a in spec['constants']]
    out += [('quantity', tuple(a), a[0]) for a in spec.get('quantities', [])]
    out += [('switch', tuple(a), a[0]) for a in spec.get('switches', [])]
    out += [('custom_function', tuple(a), a[0]) for a in spec.get('functions', [])]
    out += [('table', tuple(a), a[0]) for a in spec.get('tables', [])]
    for k in ('initial', 'path', 'terminal'):
        if c.get(k) is not None:
            out.append((k + '_cost', (c[k], c.get('units', '1') if k != 'path' else c.get('path_units', c.get('units', '1') + '/(s)')), None))
    for k in ('initial', 'terminal'):
        out += [(k + '_constraint', (a[0], a[1]), None) for a in spec[k]]
    out += [('scale', (n, v), n) for n, v in spec.get('scale', {'m': 1, 's': 1, 'kg': 1, 'rad': 1}).items()]
    return out


def make(p, call):
    f, a, _ = call
    r = p.scale(**{a[0]: a[1]}) if f == 'scale' else getattr(p, f)(*a)
    return r


def bad_call(rng, name, xs):
    k = R(rng, ['state', 'control', 'constant', 'parameter', 'quantity', 'scale', 'table', 'custom_function', 'switch', 'quad', 'constant_of_motion', 'independent',
                'costate', 'coparameter'])
    args = {'state': (name, '3*%s' % R(rng, xs), 'm'), 'control': (name, 'm'), 'constant': (name, 7.5, 'm'), 'parameter': (name, 'm'), 'quantity': (name, '5*%s' % R(rng, xs)),
            'scale': (name, 9), 'table': (name, '1d_spline', [1., 2., 3., 5.], [0., 1., 2., 3.], 'm', ['m']), 'custom_function': (name, cube, 'm', ['m']),
            'switch': (name, [R(rng, xs), '2'], [['1'], ['-1']], 'e_'), 'quad': (name, R(rng, xs), 'm'), 'constant_of_motion': (name, R(rng, xs), 'm'),
            'independent': (name, 'm'), 'costate': (name, '0', 'm'), 'coparameter': (name, '0', 'm')}
    return (k, args[k], name)


def statement(case, rng, mon):
    import beluga
    spec = ocp.random_spec(rng, max_terms=2)
    xs = [s[0] for s in spec['states']]
    if rng.random() < 0.4:
        spec['quantities'] = [['qq', '%s + 0.5*%s**2' % (R(rng, xs), R(rng, xs))]]
        spec['cost']['path'] += ' + 0.2*qq'
    if rng.random() < 0.3:
        spec['functions'] = [['fcube', cube, 'm', ['m']]]
        spec['states'][0][1] += ' + 0.1*fcube(%s)' % R(rng, xs)
    if rng.random() < 0.3:
        spec['tables'] = [['tabl', '1d_spline', [1., 2., 1., 3.], [-3., -1., 1., 3.], 'm', ['m']]]
        spec['states'][0][1] += ' + 0.1*tabl(%s)' % R(rng, xs)
    seq = calls_of(spec)
    clean, dirty = beluga.Problem('v'), beluga.Problem('v')
    for c in seq:
        make(clean, c)
    done = []
    prob = rng.uniform(0.1, 0.7)
    for c in seq:
        mon.under(make, dirty, c)
        if c[2] is not None:
            done.append((c[0], c[2]))
        while done and rng.random() < prob:
            if rng.random() < 0.1:
                refused(mon, (NotImplementedError,), ('table-kind',), 'a table of an unknown kind', dirty.table, 'newtab', R(rng, ['2d_spline', 'linear', '']),
                        [1., 2., 3., 4.], [0., 1., 2., 3.], 'm', ['m'])
                continue
            kind, name = R(rng, done)
            b = bad_call(rng, name, xs)
            refused(mon, (RuntimeWarning,), ('again', kind, b[0]), 'the name %r of a %s declared again as %s' % (name, kind, b[0]), make, dirty, b)
    method, cm = R(rng, ['traditional', 'diffyg']), 'differential'
    A = meta.Named(mon.under(ocp.to_bvp, clean, method=method, control_method=cm))
    B = meta.Named(mon.under(ocp.to_bvp, dirty, method=method, control_method=cm))
    same = all(getattr(A, k) == getattr(B, k) for k in 'spnkqu')
    mon.check(same, 'components', lambda: 'after refused declarations the problem has other components: %s, before %s' % (
        [getattr(B, k) for k in 'spnkqu'], [getattr(A, k) for k in 'spnkqu']), ('unchanged', method, len(xs)))
    if not same:
        return
    consts = {k[0]: k[1] for k in spec['constants']}
    for _ in range(3):
        v = meta.values(A, rng, consts)
        with np.errstate(all='ignore'):
            a, b = meta.rates(A, v, mon), meta.rates(B, v, mon)
        for k in a:
            ok = a[k] == b[k] or abs(a[k] - b[k]) <= 1e-9 * (1 + abs(a[k])) or (np.isnan(a[k]) and np.isnan(b[k]))
            mon.check(ok, 'values', lambda: 'after refused declarations the rate of %s is %r, before %r' % (k, b[k], a[k]))
    mon.sample = {'calls': len(seq), 'names': [d[1] for d in done][:6]}


# ------------------------------------------------------------------------------------------------ requests to solve
def base(rng, **kw):
    """One valid request as a dict of builders; kw overrides a piece of the statement."""
    import beluga
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm, BVPResult
    calls = []

    class Rec(BaseAlgorithm):
        def solve(self, solinit, **k):
            calls.append(1)
            s = copy.deepcopy(solinit)
            s.converged = True
            return BVPResult(sol=s, success=True, message='', niter=1)
    p = beluga.Problem('req')
    p.independent('t', 's')
    if kw.get('states', True):
        p.state('x', kw.get('xdot', 'v'), 'm')
        p.state('v', kw.get('vdot', 'a - k*v'), 'm/s')
    p.control('a', 'm/s**2')
    for n, v, u in (('k', 0.3, '1/s'), ('x_f', 1.0, 'm'), ('ep', 1e-2, '1'), ('amax', 4.0, 'm/s**2')):
        p.constant(n, v, u)
    c = kw.get('cost', ('a**2', 'm**2/s**4', None, None))
    p.path_cost(c[0], c[1])
    if c[2]:
        R(rng, [p.terminal_cost, p.initial_cost])(c[2], c[3])
    for e, u in (('x', 'm'), ('v', 'm/s'), ('t', 's')):
        p.initial_constraint(e, u)
    for e, u in ((kw.get('end', 'x - x_f'), 'm'), ('v', 'm/s'), ('t - 1', 's')):
        p.terminal_constraint(e, u)
    if 'path' in kw:
        p.path_constraint(*kw['path'][0], **kw['path'][1])
    p.scale(m=1, s=1, kg=1)
    g = beluga.guess_generator('auto', start=[0.0, 0.0], time_integrate=1.0, costate_guess=0.1, control_guess=[0.1], use_control_guess=True)
    steps = beluga.init_continuation()
    steps.add_step(R(rng, ['manual', 'bisection'])).num_cases(3).const('x_f', 1.5)
    req = dict(ocp=p, method=R(rng, ['traditional', 'indirect', 'diffyg', 'brysonho', 'Traditional']), optim_options={'control_method': R(rng, ['differential', 'algebraic', 'Differential'])},
               bvp_algorithm=Rec(), steps=steps, guess_generator=g, autoscale=bool(rng.random() < 0.5), save_sols=False)
    return req, calls


def same_sols(a, b):
    f = lambda o: [[np.asarray(getattr(s, k)).tobytes() for k in ('t', 'y', 'dual', 'u', 'const')] for st in o for s in st]
    return f(a) == f(b)


def request(case, rng, mon):
    import beluga
    what = ['no-problem', 'no-state', 'cost-units', 'method', 'control-method', 'constraint-method', 'activator', 'undeclared', 'step-constant', 'cpus',
            'no-maps', 'step-strategy', 'fine-units', 'trig-expression'][case['i'] % 14]
    state = rng.bit_generator.state
    req, calls = base(rng)
    good, _ = base(rng_like(state))
    anyerr = (Exception,)
    solve = beluga.solve

    def ok_again():
        """the untouched pieces of the request still work and give what a fresh request gives"""
        out = mon.under(solve, **req)
        fresh, _ = base(rng_like(state))
        mon.check(same_sols(out, mon.under(solve, **fresh)), 'aftermath', 'after a refused request (%s) the corrected request gives another result than a fresh one' % what, ('after', what))

    def refuse(kinds, text, key, **over):
        r = dict(req)
        r.update(over)
        n = len(calls)
        refused(mon, kinds, (what, key), text, solve, **r)
        mon.check(len(calls) == n, 'late', 'the solver was asked before the request was refused (%s)' % text)
    if what == 'no-problem':
        refuse((NotImplementedError,), 'solve without a problem', 0, ocp=None)
        ok_again()
    elif what == 'no-state':
        r, c = base(rng, states=False)
        req2 = dict(req, ocp=r['ocp'])
        refused(mon, (RuntimeError,), (what,), 'a problem without states', solve, **req2)
        ok_again()
    elif what in ('cost-units', 'fine-units'):
        unit, tu = R(rng, [('m**2/s**4', 'm**2/s**3'), ('m', 'm*s'), ('1/s', '1'), ('kg*m/s', 'm*kg'), ('m/s*m', 'm**2'), ('1', 's')])
        path, term = 'a**2', R(rng, ['x', 'v**2', 't', 'x*v'])
        if what == 'fine-units':
            r, c = base(rng_like(state), cost=(path, unit, term, tu))
            out = mon.under(solve, **r)
            mon.check(len(out[-1]) == 3, 'refused-valid', 'a cost whose units fit (%s per time, %s) is not solved' % (unit, tu), (what, unit))
        else:
            wrong = R(rng, ['m**5', 'kg', 's**7', '%s*m' % tu, '(%s)/s' % tu, '(%s)*s**2' % tu, '(%s)/s**2' % tu])
            r, c = base(rng, cost=(path, unit, term, wrong))
            refused(mon, (RuntimeWarning,), (what, unit, wrong), 'a path cost in %s with a boundary cost in %s' % (unit, wrong), solve, **dict(req, ocp=r['ocp']))
            ok_again()
    elif what == 'method':
        m = R(rng, ['magic', 'tradition', 'diffy', '', 'pmp'])
        refuse((NotImplementedError,), 'method %r' % m, m, method=m)
        ok_again()
    elif what == 'control-method':
        m = R(rng, ['numeric', 'Numeric', 'magic', 'algebra', 'diff'])
        refuse((NotImplementedError,), 'control method %r' % m, m, optim_options={'control_method': m})
        ok_again()
    elif what == 'constraint-method':
        m = R(rng, ['magic', 'eps', 'ut', 'epstrigs'])
        e = R(rng, ['a', 'v', 'x'])
        r, c = base(rng, path=((e, 'm'), dict(lower='-amax', upper='amax', activator='ep', method=m)))
        refuse((NotImplementedError,), 'a constraint enforced by %r' % m, (m, e), ocp=r['ocp'])
        ok_again()
    elif what == 'trig-expression':
        e = R(rng, ['2*a', 'a + v', 'v', 'a**2', 'x*a'])
        r, c = base(rng, path=((e, 'm'), dict(lower='-amax', upper='amax', activator='ep', method='epstrig')))
        refuse((NotImplementedError,), 'epsilon-trig on the expression %s' % e, e, ocp=r['ocp'])
        ok_again()
    elif what == 'activator':
        a = R(rng, ['epp', 'x', 'missing', 'v', 'a'])
        r, c = base(rng, path=((R(rng, ['v', 'x', 'a']), 'm'), dict(lower='-amax', upper='amax', activator=a, method='utm')))
        try:
            solve(**dict(req, ocp=r['ocp']))
            mon.fail('accepted', 'a constraint with the activator %r, which is no constant, was accepted' % a)
        except Exception as err:
            mon.check(re.search(r'\b%s\b' % a, str(err)) is not None, 'refusal', lambda: 'the refusal of the activator %r does not say so: %s: %s' % (a, type(err).__name__, err), (what, a))
        ok_again()
    elif what == 'undeclared':
        where = R(rng, ['xdot', 'vdot', 'cost', 'end'])
        kw = {'xdot': 'v + zzz', 'vdot': 'a - k*v + zzz*x', 'cost': ('a**2 + zzz', 'm', None, None), 'end': 'x - x_f - zzz'}
        r, c = base(rng, **{where: kw[where]})
        if where == 'cost':
            r['ocp'].path_cost('a**2 + zzz*v', 'm')
        refused(mon, anyerr, (what, where, req['method'], req['optim_options']['control_method']), 'an undeclared name in %s' % where, solve_real, solve, dict(req, ocp=r['ocp']))
        ok_again()
    elif what == 'step-constant':
        nm = R(rng, ['x_ff', 'nothing', 'x', 'a', ''])
        steps = beluga.init_continuation()
        st = R(rng, ['manual', 'bisection', 'productspace', 'sparse_product'])
        s = steps.add_step(st)
        if st in ('manual', 'bisection'):
            s.num_cases(3)
        s.const(nm, 2.0)
        refuse((ValueError,), 'a %s step over %r, which is no constant' % (st, nm), (nm, st), steps=steps)
        ok_again()
    elif what == 'cpus':
        n = int(R(rng, [0, -1, -3]))
        refuse((ValueError,), '%d cpus' % n, n, n_cpus=n)
        ok_again()
    elif what == 'no-maps':
        bvp = mon.under(ocp.to_bvp, req['ocp'], control_method='differential')
        over = R(rng, [{}, {'ocp_map': bvp.map_sol}, {'ocp_map_inverse': bvp.inv_map_sol}])
        refuse((ValueError,), 'a boundary-value problem with only %s' % sorted(over), str(sorted(over)), bvp=bvp, **over)
        r = dict(req, bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol)
        mon.check(len(mon.under(solve, **r)[-1]) == 3, 'refused-valid', 'a boundary-value problem with both its maps is not solved', ('maps',))
    elif what == 'step-strategy':
        steps = beluga.init_continuation()
        n = int(rng.integers(0, 3))
        for _ in range(n):
            steps.add_step(R(rng, ['manual', 'bisection']))
        nm = R(rng, ['bisect', 'magic', '', 'Manual!', 'product'])
        refused(mon, (ValueError,), (what, nm), 'strategy %r' % nm, steps.add_step, nm)
        mon.check(len(steps) == n, 'components', 'a refused step was added to the list')


def solve_real(solve, req):
    """an undeclared name may surface when the functions are first called: ask the real solver"""
    import beluga
    return solve(**dict(req, bvp_algorithm=beluga.bvp_algorithm('spbvp'), steps=None))


def rng_like(state):
    r = np.random.default_rng(0)
    r.bit_generator.state = state
    return r


# ------------------------------------------------------------------------------------------------ parts
def parts(case, rng, mon):
    import beluga
    from beluga.symbolic.data_classes import mapping_functions as mf
    from beluga.numeric.ivp_solvers import Propagator
    from beluga.numeric.ivp_solvers.ivpsol import integrate_quads
    from beluga.numeric.data_classes import Trajectory
    from beluga.numeric.numerical_derivatives import gen_num_diff
    from beluga.continuation.continuation import ContinuationStrategy
    name = ''.join(R(rng, list('abcxyz')) for _ in range(int(rng.integers(0, 6))))
    refused(mon, (ValueError,), ('solver', len(name)), 'solver %r' % name, beluga.bvp_algorithm, name)
    for n in ('Shooting', 'shooting', 'SHOOTING', 'spbvp', 'SPBVP', 'Spbvp'):
        a = mon.under(beluga.bvp_algorithm, n)
        mon.check(type(a).__name__.lower() == n.lower(), 'solver', 'the solver %r is a %s' % (n, type(a).__name__), ('solver', n))
    refused(mon, (ValueError,), ('guess', len(name)), 'guess mode %r' % name, beluga.guess_generator, name + '?', start=[0.0])
    # steps
    steps = beluga.init_continuation()
    kind = R(rng, ['manual', 'bisection', 'productspace', 'sparse_product'])
    s = steps.add_step(kind)
    refused(mon, (ValueError,), ('uninitialised', kind), 'a %s step without a problem' % kind, next, s)
    spec = ocp.random_spec(rng, n_states=1, n_controls=1, max_terms=2)
    p = ocp.build_problem(spec)

    class B:
        constants = p.constants
    kn = [c[0] for c in spec['constants']]
    s = beluga.init_continuation().add_step(R(rng, ['manual', 'bisection']))
    n = int(rng.integers(3, 7))
    s.num_cases(n)
    s.const(kn[0], 3.0)
    g = Trajectory(np.linspace(0, 1, 4), np.zeros((4, 1)))
    g.const = np.array([float(c[1]) for c in spec['constants']])
    s.init(g, B)
    got = []
    stop = int(rng.integers(1, n))
    for i, guess in enumerate(s):
        got.append(float(guess.const[0]))
        guess.converged = True
        s.add_gamma(guess)
        if i + 1 == stop:
            refused(mon, (RuntimeError,), ('num_cases', stop), 'a number of cases set during iteration', s.num_cases, int(rng.integers(2, 30)))
    mon.check(np.allclose(got, np.linspace(float(spec['constants'][0][1]), 3.0, n)), 'components', lambda: 'a refused number of cases changed the schedule: %s' % got, ('schedule', n))
    # steppers, quadratures
    prop = Propagator(program=R(rng, ['matlab', 'magic', 'lie']))
    refused(mon, (NotImplementedError,), ('program',), 'an unknown propagation program', prop, lambda y, *a: np.array([0.0]), None, [0, 1], [1.0], [])
    t = np.linspace(0, 1, 5) + round(float(rng.normal()), 2)
    tr = Trajectory(t, np.ones((5, 1)), np.array([]), np.array([]))
    e = float(rng.uniform(0.01, 2))
    for span in ([t[0] - e, t[-1]], [t[0], t[-1] + e], [t[0] - e, t[-1] + e]):
        refused(mon, (Exception,), ('span',), 'a quadrature over %s along a trajectory over %s' % (span, [t[0], t[-1]]), integrate_quads, lambda t, y, *a: np.array([1.0]), span, tr)
    # derivatives and functions
    refused(mon, (NotImplementedError,), ('scheme',), 'derivative scheme %r' % name, gen_num_diff, cube, (1,), name + '_')
    for m in ('c_diff', 'f_diff', 'b_diff'):
        refused(mon, (SyntaxError,), ('argument', m), 'the derivative with respect to a second argument that does not exist', gen_num_diff, cube, (0, 1), m)
    q = beluga.Problem('q')
    q.custom_function('fcube', cube, 'm', ['m'])
    refused(mon, (Exception,), ('arguments',), 'a function of one argument called with two', q.sympify, 'fcube(x, y)')
    # transformation steps out of order
    spec = ocp.random_spec(rng, max_terms=2)
    raw = ocp.build_problem(spec)
    for c, args in ((mf.ApplyQuantities, ()), (mf.MomentumShift, ()), (mf.EpsTrig, ()), (mf.UTM, ()), (mf.RASHS, ()), (mf.Dualize, ()), (mf.NormalizeTime, ()), (mf.CompileProblem, ())):
        refused(mon, (ValueError,), ('order', c.__name__), '%s of a statement that was not made symbolic' % c.__name__, c(*args), copy.deepcopy(raw))
    pre = mf.Sympify()(copy.deepcopy(raw))
    for c in (mf.AlgebraicControlLaw, mf.DifferentialControlLaw):
        refused(mon, (ValueError,), ('order', c.__name__), '%s before the costates exist' % c.__name__, c(), copy.deepcopy(pre))
    for c in (mf.EpsTrig, mf.UTM):
        refused(mon, (RuntimeWarning,), ('nothing', c.__name__), '%s without such a constraint' % c.__name__, c(), copy.deepcopy(pre))
