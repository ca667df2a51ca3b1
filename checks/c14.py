"""C14: numerical derivatives approximate the true derivatives to the accuracy of their scheme."""
import numpy as np
import sympy as sp

LEVEL = 'exploration'
RULE = ('random smooth functions of 1-3 arguments x derivative orders (total 1-3, mixed) x schemes (central, forward, backward, '
        'complex step), plain and compiled, at random points, against exact symbolic derivatives with a tolerance that '
        'separates the accuracy classes; distinct = (scheme, order, number of arguments, compiled?)')
ASSUMPTIONS = ['sympy differentiation is trusted', 'the user function is smooth and accepts complex numbers for the complex step']
TERMS = ['sin({a})', 'cos({a})', 'exp(0.5*{a})', '{a}**2', '{a}**3', '1/(2 + {a}**2)', 'sin({a}*{b})', '{a}*{b}', 'exp(-{a}**2)*{b}',
         'sqrt(3 + {a}**2 + {b}**2)', 'log(3 + {a}**2)', 'tanh({a})', '{a}*{b}**2', 'cos({a} + 2*{b})']


def cases(tier, seed):
    n, m = {'quick': (900, 30), 'thorough': (12000, 600)}[tier]
    out = [{'group': 'plain', 'mode': 'nojit', 'seed': seed * 100003 + i, 'i': i, 'timeout': 20, 'cost': 0.1} for i in range(n)]
    out += [{'group': 'compiled', 'mode': 'jit', 'seed': seed * 100003 + 70000 + i, 'i': i, 'timeout': 90, 'cost': 2} for i in range(m)]
    out += [{'group': 'compiled-complex-step-odd-power', 'mode': 'jit', 'seed': seed, 'i': i, 'timeout': 90, 'cost': 1} for i in (0, 1)]
    return out


def run(case, mon):
    if case['group'] == 'compiled-complex-step-odd-power':
        return odd_power(case, mon)
    from beluga.numeric.numerical_derivatives import gen_num_diff
    rng = np.random.default_rng(case['seed'])
    na = 1 + case['i'] % 3
    args = ['x', 'y', 'z'][:na]
    expr = ' + '.join('%.3f*%s' % (rng.uniform(0.5, 2), TERMS[int(rng.integers(len(TERMS)))].format(
        a=args[int(rng.integers(na))], b=args[int(rng.integers(na))])) for _ in range(int(rng.integers(1, 4))))
    # an odd integer power of a negative number in compiled complex arithmetic is on the record: see odd_power
    for a in args:
        expr = expr.replace('%s**3' % a, '%s*%s*%s' % (a, a, a))
    if na > 1:
        expr += ' + 0.7*sin(%s)' % ' + '.join('%d*%s' % (i + 1, a) for i, a in enumerate(args))
    method = ['c_diff', 'f_diff', 'b_diff', 'csd'][int(rng.integers(4))]
    order = [0] * na
    for _ in range(int(rng.integers(1, 4))):
        order[int(rng.integers(na))] += 1
    order = tuple(order)
    tot = sum(order)
    ns = {'np': np, **{f: getattr(np, f) for f in ('sin', 'cos', 'exp', 'sqrt', 'log', 'tanh')}}
    func = eval('lambda %s: %s' % (', '.join(args), expr), ns)
    if case['group'] == 'compiled' and rng.random() < 0.5:
        from numba import njit
        func = njit(func)
    S = [sp.Symbol(a) for a in args]
    e = sp.sympify(expr, locals=dict(zip(args, S)))
    d = gen(mon, gen_num_diff, func, order, method)
    exact = e
    for s, o in zip(S, order):
        if o:
            exact = sp.diff(exact, s, o)
    fn = sp.lambdify(S, exact, 'numpy')
    bound_e = [sp.lambdify(S, sp.diff(exact, s, k), 'numpy') for s in S for k in (1, 2)]
    h = 1e-6 * 10**tot
    mixed = len([o for o in order if o]) > 1
    for _ in range(4):
        p = rng.uniform(-1.2, 1.2, na)
        val = float(np.real(mon.under(d, *[float(a) for a in p])))
        truth = float(fn(*p))
        sc = 1 + abs(truth) + max(abs(float(b(*p))) for b in bound_e)
        eps_term = 1e-15 / h**tot * (1 + abs(float(func(*p))))
        if method == 'csd' and not mixed and max(order) == 1:
            tol = 1e-9 * sc
        elif method == 'csd' and not mixed and max(order) == 2:
            tol = 5 * h * sc + 30 * eps_term
        elif method in ('f_diff', 'b_diff'):
            tol = 5 * h * tot * sc + 100 * eps_term
        else:
            tol = 40 * h * h * sc + 100 * eps_term
        mon.check(np.isfinite(val) and abs(val - truth) <= tol, 'derivative',
                  lambda: 'd%s of %s by %s at %s is %r, exact %r (tolerance %.2g)' % (order, expr, method, list(p), val, truth, tol),
                  (method, order, case['group']))
    mon.sample = {'function': expr, 'order': order, 'method': method}
    # order zero is the function itself
    z = gen(mon, gen_num_diff, func, tuple([0] * na), method)
    p = rng.uniform(-1, 1, na)
    mon.check(abs(mon.under(z, *p) - func(*p)) <= 1e-14 * (1 + abs(func(*p))), 'derivative', 'order zero is not the function', (method, 'zero'))


def gen(mon, g, func, order, method):
    return mon.under(g, func, order=order, method=method)


def odd_power(case, mon):
    from beluga.numeric.numerical_derivatives import gen_num_diff
    func = [lambda x: x**3, lambda x: x**5][case['i']]
    d = gen(mon, gen_num_diff, func, (1,), 'csd')
    for x in (1.1, -1.1):
        val, truth = float(mon.under(d, x)), (3 * x**2, 5 * x**4)[case['i']]
        mon.check(abs(val - truth) <= 1e-9 * (1 + truth), 'derivative', 'complex-step derivative of an odd power at %g is %g, exact %g'
                  % (x, val, truth), 'odd-power')
