"""C08: compiled functions compute exactly the expressions they were compiled from."""
import numpy as np
import sympy as sp
from vlib.signals import Undecided

LEVEL = 'exploration'
RULE = ('random expression trees (elementary functions, powers, piecewise), scalar, vector, nested and empty, over grouped and scalar '
        'arguments, compiled by the public lambdify entry points and compared with arbitrary-precision evaluation; user functions as '
        'locals; functions the compiler cannot handle; complex arguments; selection among several candidate controls; interpreted, '
        'compiled and under the array-bounds sanitizer; distinct = (entry point, mode, output shape, argument shape)')
ASSUMPTIONS = ['sympy arbitrary-precision evaluation is the reference', 'points where the expression is ill-conditioned or not real are skipped']


def cases(tier, seed):
    n = {'quick': 600, 'thorough': 6000}[tier]
    out = []
    for i in range(n):
        g = ['lambdify', 'lambdify', 'locals', 'control', 'complex', 'fallback'][i % 6]
        out.append({'group': g, 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 60, 'i': i})
    m = {'quick': 180, 'thorough': 900}[tier]
    for i in range(m):
        g = ['lambdify', 'lambdify', 'locals', 'control', 'complex', 'fallback'][i % 6]
        out.append({'group': g, 'mode': 'jit' if i % 3 else 'bounds', 'seed': seed * 100003 + 400000 + i, 'timeout': 100, 'i': i, 'cost': 12})
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def tree(rng, syms, depth, analytic=False):
    r = rng.random()
    if depth == 0 or r < 0.12:
        return R(rng, syms) if rng.random() < 0.8 else sp.Float(round(float(rng.uniform(-2, 2)), 2))
    a = tree(rng, syms, depth - 1, analytic)
    if r < 0.6:
        b = tree(rng, syms, depth - 1, analytic)
        return R(rng, [lambda: a + b, lambda: a - b, lambda: a * b, lambda: a / (2 + b**2) if not analytic else a * b + 1,
                       lambda: sp.atan2(a, 1 + b**2) if not analytic else a - b])()
    fs = [sp.sin, sp.cos, sp.tanh, lambda x: sp.exp(-x**2), lambda x: x**2, lambda x: x**3]
    if not analytic:
        fs += [lambda x: sp.sqrt(1 + x**2), lambda x: sp.log(2 + x**2), sp.atan, lambda x: sp.Abs(x), lambda x: 1 / (1 + x**2),
               lambda x: sp.Piecewise((x**2, x > 0), (sp.sin(x), True)), lambda x: sp.sinh(x / 3),
               lambda x: (1 + x**2)**sp.Rational(3, 2), lambda x: sp.pi * x, lambda x: sp.cosh(x / 3)]
    return R(rng, fs)(a)


def groups(rng):
    names = [str(a) for a in rng.permutation(['x', 'y', 'v', 'a1', 'b', 'c', 'w', 'z', 'k1', 'k2', '_lam_x', '_deltat'] + ['s%d' % i for i in range(20)])]
    out, i = [], 0
    wide = rng.random() < 0.2
    for _ in range(int(rng.integers(1, 5))):
        if rng.random() < 0.3:
            out.append(sp.Symbol(names[i]))
            i += 1
        else:
            n = int(rng.integers(5, 9)) if wide and i < 20 else int(rng.integers(0, 4))
            out.append([sp.Symbol(a) for a in names[i:i + n]])
            i += n
    return out


def flatten(gs):
    return [s for g in gs for s in (g if isinstance(g, list) else [g])]


def point(rng, gs, kind=float):
    args, vals = [], {}
    for g in gs:
        if isinstance(g, list):
            v = rng.normal(size=len(g)) if kind is float else rng.normal(size=len(g)) + 1j * rng.normal(size=len(g)) * 0.3
            args.append(v)
            vals.update(zip(g, v))
        else:
            v = float(rng.normal()) if kind is float else complex(rng.normal(), rng.normal() * 0.3)
            args.append(v)
            vals[g] = v
    return args, vals


def shaped(rng, syms, shape, analytic=False):
    if shape == 'scalar':
        return tree(rng, syms, 3, analytic)
    if shape == 'empty':
        return []
    if shape == 'vector':
        return [tree(rng, syms, 3, analytic) for _ in range(int(rng.integers(1, 5)) if rng.random() < 0.85 else int(rng.integers(6, 14)))]
    if shape == 'tuple':
        return tuple(tree(rng, syms, 2, analytic) for _ in range(int(rng.integers(1, 4))))
    if shape == 'nested':
        m = int(rng.integers(1, 4))
        return [[tree(rng, syms, 2, analytic) for _ in range(m)] for _ in range(int(rng.integers(1, 4)))]
    m = [[tree(rng, syms, 2, analytic) for _ in range(2)] for _ in range(3)]
    return np.array(sp.Matrix(m))


def reference(e, vals):
    if isinstance(e, (list, tuple, np.ndarray)):
        return [reference(a, vals) for a in e]
    e = sp.sympify(e)
    v = e.evalf(25, subs={s: sp.sympify(x) for s, x in vals.items()})
    v = complex(v)
    # conditioning: repeat with perturbed inputs
    return v


def shape_of(a):
    try:
        return np.asarray(a).shape
    except ValueError:
        return None


def same(got, want, tol):
    g, w = np.asarray(got, dtype=complex), np.asarray(want, dtype=complex)
    return g.shape == w.shape and bool(np.all(np.abs(g - w) <= tol * (1 + np.abs(w))))


def compare(mon, fn, expr, gs, rng, key, kind=float, pts=3, extra=None):
    n = 0
    for _ in range(pts):
        args, vals = point(rng, gs, kind)
        try:
            want = reference(expr if extra is None else extra, vals)
        except (TypeError, ValueError):
            continue
        w = np.asarray(want, dtype=complex)
        if w.size and (not np.all(np.isfinite(w)) or np.abs(w).max() > 1e6 or (kind is float and np.abs(w.imag).max() > 0)):
            continue
        got = mon.under(fn, *args)
        ok = same(got, want, 1e-9)
        mon.check(ok, 'value', lambda: 'compiled %s gives %s, the expression is %s at %s' % (expr, got, want, vals), key)
        n += 1
    return n


def arg_shape(gs):
    return tuple(len(g) if isinstance(g, list) else -1 for g in gs)


def run(case, mon):
    from beluga.numeric.compilation import LocalCompiler, jit_lambdify
    rng = np.random.default_rng(case['seed'])
    g = case['group']
    gs = groups(rng)
    syms = flatten(gs) or [sp.Float(1.5)]
    shape = R(rng, ['scalar', 'vector', 'nested', 'matrix', 'tuple', 'empty', 'vector'])
    if g == 'lambdify':
        expr = shaped(rng, syms, shape)
        lc = LocalCompiler()
        entry = R(rng, ['local', 'plain'])
        fn = mon.under(lc.lambdify if entry == 'local' else jit_lambdify, gs, expr)
        if compare(mon, fn, expr, gs, rng, (entry, case['mode'], shape, arg_shape(gs))) == 0:
            raise Undecided('no regular point')
        if case['mode'] != 'nojit' and shape == 'vector':
            mon.count('compiled', int(hasattr(fn, 'nopython_signatures')))
    elif g == 'locals':
        # user functions known to the compiler under their names
        lc = LocalCompiler()
        F, G = sp.Function('uf'), sp.Function('ug')
        from beluga.numeric.compilation import jit_compile_func
        uf = jit_compile_func(lambda a: a * a - 2 * a, ['scalar'])
        ug = jit_compile_func(lambda a, b: a * b + b, ['scalar', 'scalar'])
        lc.add_function_local('uf', uf)
        am = None
        r = rng.random()
        if r < 0.35:
            am = {'ug': ug}
        elif r < 0.6:
            # what is given for one function takes precedence over what is known generally
            lc.add_function_local('ug', jit_compile_func(lambda a, b: a - 7 * b, ['scalar', 'scalar']))
            am = {'ug': ug}
        elif r < 0.8:
            # declared again: the last declaration counts
            lc.add_function_local('ug', jit_compile_func(lambda a, b: a - 7 * b, ['scalar', 'scalar']))
            lc.add_function_local('ug', ug)
        else:
            lc.add_function_local('ug', ug)
        # (numpy's select makes arrays of piecewise values, which compiled scalar functions do not take: outside the claim)
        a, b = tree(rng, syms, 2), tree(rng, syms, 2)
        while (a + b).has(sp.Piecewise):
            a, b = tree(rng, syms, 2), tree(rng, syms, 2)
        expr = [F(a) + 1, G(a, b) * 2, F(G(b, a))][:int(rng.integers(1, 4))]
        written = [(a * a - 2 * a) + 1, (a * b + b) * 2, (b * a + a)**2 - 2 * (b * a + a)][:len(expr)]
        fn = mon.under(lc.lambdify, gs, expr, additional_modules=am)
        if compare(mon, fn, expr, gs, rng, ('locals', case['mode'], len(expr), arg_shape(gs)), extra=written) == 0:
            raise Undecided('no regular point')
        # text is parsed with the symbols the compiler knows, also where sympy has something else under that name
        lc = LocalCompiler()
        names = [str(n) for n in rng.permutation(['S', 'N', 'E', 'I', 'Q', 'beta', 'gamma', 'lam', 'zeta', 'x'])[:4]]
        for n in names:
            if rng.random() < 0.3:
                lc.add_symbolic_local(n, sp.Symbol('other_' + n))
            lc.add_symbolic_local(n)
        e = mon.under(lc.sympify, '%s*%s + 2*%s - %s**2' % tuple(names))
        s = [sp.Symbol(n) for n in names]
        mon.check(e == s[0] * s[1] + 2 * s[2] - s[3]**2, 'symbols', lambda: 'the text in %s is read as %s' % (names, e), ('symbols',) + tuple(sorted(names)))
    elif g == 'complex':
        expr = shaped(rng, syms, R(rng, ['scalar', 'vector']), analytic=True)
        entry = R(rng, ['local', 'plain'])
        fn = mon.under(LocalCompiler().lambdify if entry == 'local' else jit_lambdify, gs, expr, complex_numbers=True)
        if compare(mon, fn, expr, gs, rng, ('complex', entry, case['mode'], arg_shape(gs)), kind=complex) == 0:
            raise Undecided('no regular point')
    elif g == 'fallback':
        from beluga.numeric.compilation import jit_compile_func

        class Opaque:
            def __init__(self, k):
                self.k = k

            def f(self, y):
                return self.k * float(np.sum(y)) + len({1: 2})
        o = Opaque(float(rng.normal()))

        def user(y, a):
            return [o.f(y) + a, {'v': a}['v'] * 2]
        fn = mon.under(jit_compile_func, user, [[sp.Symbol('y')], sp.Symbol('a')])
        y, a = rng.normal(size=3), float(rng.normal())
        got = mon.under(fn, y, a)
        mon.check(same(got, [o.k * y.sum() + 1 + a, 2 * a], 1e-12), 'value', lambda: 'a function that cannot be compiled gives %s' % got, ('fallback', case['mode']))
        # described by words, and by number of arguments
        from beluga.numeric.compilation import jit_compile_func_num_args

        def two(p, q):
            return p * q + p
        fn = mon.under(jit_compile_func, two, ['scalar', 'scalar'])
        mon.check(abs(mon.under(fn, 2.0, a) - (2 * a + 2)) < 1e-12, 'value', 'a compiled scalar function differs', ('words', case['mode']))
        fn = mon.under(jit_compile_func, two, ['array', 'array'])
        mon.check(np.allclose(mon.under(fn, y, y), y * y + y), 'value', 'a compiled array function differs', ('words-array', case['mode']))
        fn = mon.under(jit_compile_func_num_args, two, 2)
        mon.check(np.allclose(mon.under(fn, y, y), y * y + y), 'value', 'a compiled array function differs', ('num', case['mode']))
        fn = mon.under(jit_compile_func_num_args, two, 2, array_inputs=False)
        mon.check(abs(mon.under(fn, 2.0, a) - (2 * a + 2)) < 1e-12, 'value', 'a compiled scalar function differs', ('num-scalar', case['mode']))
    elif g == 'control':
        from beluga.numeric.compilation import compile_control
        lc = LocalCompiler()
        n, m, no = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(0, 5))
        if rng.random() < 0.3:
            n, m, no = int(rng.integers(4, 8)), int(rng.integers(1, 5)), int(rng.integers(4, 10))
        Y, U = [sp.Symbol('y%d' % i) for i in range(n)], [sp.Symbol('u%d' % i) for i in range(m)]
        P, K = [sp.Symbol('p%d' % i) for i in range(int(rng.integers(0, 2)))], [sp.Symbol('k%d' % i) for i in range(int(rng.integers(0, 3)))]
        ham = tree(rng, Y + U + P + K, 3) + sum(u**2 for u in U) * 0.5 + U[0] * Y[0]
        size = 10.0**int(rng.integers(-9, 4)) if rng.random() < 0.4 else 1.0
        ham = ham * sp.Float(size)
        ham_func = lc.lambdify([Y, U, P, K], ham)
        opts = [tuple(tree(rng, Y + P + K, 2) for _ in U) for _ in range(no)]
        fn = mon.under(compile_control, opts, [Y, P, K], ham_func, lc.lambdify)
        key = ('control', case['mode'], n, m, no)
        if no == 0:
            mon.check(fn is None, 'value', 'a control function without control options', key)
            return
        seen = 0
        for _ in range(4):
            y, p, k = rng.normal(size=n), rng.normal(size=len(P)), rng.normal(size=len(K))
            vals = {**dict(zip(Y, y)), **dict(zip(P, p)), **dict(zip(K, k))}
            try:
                cand = [[float(complex(reference(e, vals)).real) for e in o] for o in opts]
                hs = [float(complex(reference(ham, {**vals, **dict(zip(U, c))})).real) for c in cand]
            except (TypeError, ValueError):
                continue
            if not np.all(np.isfinite(hs)) or np.abs(hs).max() > 1e6:
                continue
            got = np.asarray(mon.under(fn, y, p, k), float).ravel()
            seen += 1
            mon.check(len(got) == m, 'value', lambda: 'control has %d components, expected %d' % (len(got), m), key)
            h = float(complex(reference(ham, {**vals, **dict(zip(U, got))})).real)
            mon.check(any(np.allclose(got, c, rtol=1e-9, atol=1e-9) for c in cand), 'value', lambda: 'control %s is none of the candidates %s' % (got, cand), key)
            mon.check(h <= min(hs) + 1e-9 * (size + abs(min(hs))), 'minimum', lambda: 'control with H = %g chosen, candidates have %s' % (h, hs), key)
        if not seen:
            raise Undecided('no regular point')
