"""C11: named quantities, switches, custom functions and tables mean exactly what they stand for."""
import re
import numpy as np
from vlib import meta, ocp
from vlib.runner import load_check
from vlib.signals import Undecided

LEVEL = 'exploration'
MIN_OK = {'switches': 0.3, 'mixed': 0.3}
RULE = ('random problems using named quantities (nested, declared in any order), smooth switches, user functions (one to three arguments, '
        'with constants and expressions as arguments) and tables, compared through the compiled problem with the same problem written out '
        'by hand; quantities and switches also against the independent necessary conditions; distinct = (feature, formulation, shape)')
ASSUMPTIONS = ['a switch blends its branches with 1/(1 + exp(condition/tolerance)); several conditions of a branch add their weights',
               'user functions are differentiated numerically: compared to 1e-5 (first) and 1e-3 (second derivatives)']


def cases(tier, seed):
    n = {'quick': 260, 'thorough': 5000}[tier]
    out = []
    for i in range(n):
        g = ['quantities', 'switches', 'functions', 'tables', 'mixed', 'quantities', 'mixed'][i % 7]
        out.append({'group': g, 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 40, 'i': i})
    for i in range(n // 4):
        out.append({'group': 'derivatives', 'mode': 'nojit', 'seed': seed * 100003 + 700000 + i, 'timeout': 40, 'i': i, 'cost': 0.5})
    for i in range(max(3, n // 80)):
        out.append({'group': 'compiled', 'mode': 'jit', 'seed': seed * 100003 + 800000 + i, 'timeout': 200, 'i': i, 'cost': 25})
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


# functions with their mathematics written out
FUNCS = {
    'f_sin': (lambda a: np.sin(a), ['a'], 'sin(a)'),
    'f_rat': (lambda a: a / (1 + a * a), ['a'], 'a/(1 + a*a)'),
    'f_exp': (lambda a: np.exp(-a * a / 4), ['a'], 'exp(-a*a/4)'),
    'g_mix': (lambda a, b: a * np.cos(b) + b * b, ['a', 'b'], 'a*cos(b) + b*b'),
    'h_three': (lambda a, b, c: a * np.sin(b) + b * c * c - 0.5 * a * c, ['a', 'b', 'c'], 'a*sin(b) + b*c*c - 0.5*a*c'),
    'g_asym': (lambda a, b: a * a * b - np.sin(b) * 2, ['a', 'b'], 'a*a*b - sin(b)*2'),
}


def put(text, mapping):
    """Replace names and calls name(args) by parenthesised expressions until nothing changes."""
    if text is None:
        return None
    for _ in range(500):
        if len(text) > 20000:
            raise Undecided("the written-out problem is too large")
        new = text
        for n, (pars, body) in mapping.items():
            if pars is None:
                new = re.sub(r'\b%s\b' % n, lambda m: '(' + body + ')', new)
            else:
                m = re.search(r'\b%s\(' % n, new)
                if m:
                    i, depth, args, start = m.end(), 1, [], m.end()
                    while depth:
                        c = new[i]
                        depth += (c == '(') - (c == ')')
                        if (c == ',' and depth == 1) or depth == 0:
                            args.append(new[start:i])
                            start = i + 1
                        i += 1
                    b = body
                    for k, par in enumerate(pars):
                        b = re.sub(r'\b%s\b' % par, '@%d@' % k, b)
                    for k, a in enumerate(args):
                        b = b.replace('@%d@' % k, '(' + a + ')')
                    new = new[:m.start()] + '(' + b + ')' + new[i:]
        if new == text:
            return text
        text = new
    raise RuntimeError('inlining does not terminate')


def build(rng, group):
    """A specification using named things, and the same one written out."""
    spec = ocp.random_spec(rng, n_states=int(rng.integers(1, 4)), n_controls=int(rng.integers(1, 3)), max_terms=2)
    xs, us, t = [s[0] for s in spec['states']], [u[0] for u in spec['controls']], spec['ind']
    ks = [c[0] for c in spec['constants'] if c[0][0] in 'kw']
    m = {}
    pool = xs + ks + [t]
    kinds = {'quantities': ['q'], 'switches': ['s'], 'functions': ['f'], 'tables': ['t'], 'mixed': ['q', 's', 'f', 'q', 't'],
             'compiled': ['q', 's', 'f', 'q']}[group]
    uses = []

    def atom():
        r = rng.random()
        if uses and r < (0.4 if group != 'switches' else 0.15):
            return R(rng, uses)
        return R(rng, pool)

    def expr():
        return R(rng, ['%s*%s', '%s + 0.5*%s', 'sin(%s)*%s', '%s/(2 + %s**2)', '0.3*%s - cos(%s)']) % (atom(), atom())
    quantities, switches, functions, tables = [], [], [], []
    many = group in ('quantities', 'switches') and rng.random() < 0.35
    nn = int(rng.integers(5, 9)) if many and group == 'quantities' else int(rng.integers(2, 5))
    for j in range(nn):
        kind = kinds[j % len(kinds)]
        if kind == 'q':
            name = R(rng, ['rho', 'D', 'aux', 'Lift', 'qq']) + str(j)
            e = expr() if not many else R(rng, ['%s + 0.5*%s', '0.2*%s - %s', '%s*sin(%s)']) % (uses[-1] if uses and rng.random() < 0.7 else R(rng, pool), R(rng, pool))
            if rng.random() < 0.2:
                e += ' + 0.2*' + R(rng, us)
            quantities.append([name, e])
            m[name] = (None, e)
            uses.append(name)
        elif kind == 's':
            name = 'sw%d' % j
            tol = 'tol%d' % j
            spec['constants'].append([tol, round(float(rng.uniform(0.4, 1.5)), 3), '1'])
            nb = int(rng.integers(1, 4))
            if many:
                # many branches, some with several conditions (each contributes its own weight)
                nb = int(rng.integers(3, 7))
                fs = [R(rng, [R(rng, xs), '2', R(rng, ks or ['1']), '0.5*' + R(rng, xs)]) for _ in range(nb)]
                cs = [[R(rng, xs) + R(rng, [' - 1', ' + 0.5', '']) for _ in range(int(rng.integers(1, 4)))] for _ in range(nb)]
            else:
                fs = [expr() if rng.random() < 0.7 else R(rng, ks or ['1']) for _ in range(nb)]
                cs = [[expr()] for _ in range(nb)]
            switches.append([name, fs, [list(c) for c in cs], tol])
            m[name] = (None, ' + '.join('(%s)*(%s)' % (f, ' + '.join('1/(1 + exp((%s)/%s))' % (a, tol) for a in c)) for f, c in zip(fs, cs)))
            # the branches of a switch are written in terms of variables and quantities, not of other switches
            uses.append(name)
        elif kind == 'f':
            name = R(rng, list(FUNCS))
            if name not in [f[0] for f in functions]:
                fn, pars, body = FUNCS[name]
                functions.append([name, fn, '1', ['1'] * len(pars)])
                m[name] = (pars, body)
            pars = FUNCS[name][1]
            uses.append('%s(%s)' % (name, ', '.join(R(rng, [atom(), '0.5*' + atom(), atom() + ' + 0.3']) for _ in pars)))
        elif kind == 't':
            name = 'tab%d' % j
            x = np.sort(np.linspace(-7, 7, 14) + rng.uniform(-0.2, 0.2, 14))
            y = rng.normal(size=14)
            tables.append([name, '1d_spline', y.tolist(), x.tolist(), '1', ['1']])
            uses.append('%s(%s)' % (name, R(rng, [R(rng, xs), '0.5*' + R(rng, xs), R(rng, xs) + ' + 0.3'])))
    # a switch may not refer to another switch or (by declaration order of substitution) hide one inside a quantity
    rng.shuffle(quantities)
    # put them to use
    fn_like = [u for u in uses]
    for j in range(int(rng.integers(2, 5))):
        u = R(rng, fn_like)
        where = R(rng, ['eom', 'eom', 'path', 'terminal', 'initial', 'tc', 'ic'])
        c = R(rng, ['0.5', '2', '-1', ks[0] if ks else '1'])
        if where == 'eom':
            i = int(rng.integers(len(xs)))
            spec['states'][i][1] += ' + %s*%s' % (c, u)
        elif where == 'path':
            spec['cost']['path'] += ' + %s*%s' % (c, u)
        elif where in ('terminal', 'initial'):
            if not (set(us) & used_names(u, m)):
                spec['cost'][where] = (spec['cost'][where] or '0') + ' + %s*%s' % (c, u)
        else:
            if not (set(us) & used_names(u, m)):
                spec['terminal' if where == 'tc' else 'initial'].append(['%s - 0.3*%s' % (R(rng, xs), u), 'm'])
    # every named thing is used at least in one place
    for u in uses:
        spec['states'][int(rng.integers(len(xs)))][1] += ' + 0.1*' + u
    named = dict(spec, quantities=[list(q) for q in quantities], switches=[list(s) for s in switches],
                 functions=functions, tables=tables)
    flatm = dict(m)
    out = {
        **spec,
        'states': [[n, put(e, flatm), u] for n, e, u in spec['states']],
        'cost': {k: (put(v, flatm) if k in ('initial', 'path', 'terminal') else v) for k, v in spec['cost'].items()},
        'initial': [[put(e, flatm), u] for e, u in spec['initial']], 'terminal': [[put(e, flatm), u] for e, u in spec['terminal']],
        'tables': tables,
    }
    return named, out, bool(functions), bool(tables), len(quantities), len(switches)


def used_names(u, m):
    return set(re.findall(r'[A-Za-z_]\w*', put(u, m)))


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case['group'] == 'derivatives':
        return derivatives(case, rng, mon)
    for attempt in range(8):
        try:
            named, plain, fn, tb, nq, ns = build(rng, case['group'])
        except Undecided:
            continue
        if max(len(e) for _, e, _ in plain['states']) <= 1000:
            break
    else:
        raise Undecided('the written-out problem is too large')
    cm = 'differential'
    method = ['traditional', 'diffyg', 'traditional'][case['i'] % 3]
    A = mon.under(ocp.to_bvp, mon.under(ocp.build_problem, named), method=method, control_method=cm)
    B = ocp.to_bvp(ocp.build_problem(plain), method=method, control_method=cm)
    key = (case['group'], method, nq, ns, fn, tb, len(named['states']), len(named['controls']))
    consts = {c[0]: c[1] for c in named['constants']}
    left = unresolved(A, named)
    mon.check(not left, 'unresolved', lambda: 'names left in the boundary-value problem: %s' % left, key)
    tol = 1e-7 if not fn else 2e-3
    n = meta.compare(A, B, rng, mon, consts, key, tol=tol, what='the problem written out', scale=0.7)
    if n == 0:
        raise Undecided('no finite point')
    if fn:
        # first derivatives are accurate: the costate rates and the state rates are held to a tighter bound
        a, b = meta.Named(A), meta.Named(B)
        names = [x for x in [s[0] for s in named['states']]]
        for _ in range(3):
            v = meta.values(a, rng, consts, 0.7)
            ra, rb = meta.rates(a, v, mon), meta.rates(b, v, mon)
            for x in names:
                for q, tl in ((x, 1e-7), ('_lam_' + x, 2e-5)):
                    if np.isfinite(rb[q]):
                        mon.check(abs(ra[q] - rb[q]) <= tl * (1 + abs(rb[q])), 'rates', lambda: 'rate of %s is %r, written out %r' % (q, ra[q], rb[q]), key)
    elif not tb and method == 'traditional':
        # and, without reference to the code under test, against the necessary conditions of the written-out problem
        c = {'method': method, 'cm': cm, 'ms': True, 'nt': True, 'pts': 2}
        load_check('C01').compare(plain, A, c, rng, mon)
    mon.sample = {'quantities': named['quantities'], 'switches': named['switches'], 'states': named['states']}


def unresolved(bvp, named):
    names = {q[0] for q in named['quantities']} | {s[0] for s in named['switches']}
    ex = [s.eom for s in bvp.states] + [c.expr for g in bvp.constraints.values() for c in g] + [bvp.cost.initial, bvp.cost.path, bvp.cost.terminal]
    return sorted({str(f) for e in ex for f in getattr(e, 'free_symbols', set())} & names)


def derivatives(case, rng, mon):
    """Several derivatives (up to third order, mixed) of user functions and tables in one expression, each compiled to its own value."""
    import itertools
    import sympy as sp
    from beluga.numeric.compilation import LocalCompiler
    from beluga.symbolic.special_functions import CustomFunctionGenerator, SymTableGenerator, TableSpline1D
    from scipy.interpolate import CubicSpline
    lc = LocalCompiler()
    S = [sp.Symbol(n) for n in ('x', 'y', 'z')]
    names = [str(n) for n in rng.permutation(list(FUNCS))[:2]]
    expr, want, tols, label = [], [], [], []
    for j, name in enumerate(names):
        fn, pars, body = FUNCS[name]
        g = CustomFunctionGenerator(fn, name=name, local_compiler=lc)
        inner = [R(rng, [s, s, 0.5 * s + 0.3]) for s in [S[int(i)] for i in rng.permutation(3)[:len(pars)]]]
        b = sp.sympify(body, locals={p: sp.Symbol(p) for p in pars}).subs(dict(zip([sp.Symbol(p) for p in pars], [sp.Symbol('_i%d' % i) for i in range(len(pars))])))
        b = b.subs({sp.Symbol('_i%d' % i): a for i, a in enumerate(inner)})
        orders = [o for o in itertools.product(range(4), repeat=3) if 0 < sum(o) <= 3]
        for o in [orders[int(i)] for i in rng.permutation(len(orders))[:8]]:
            e, w = g(*inner), b
            for s in [S[int(i)] for i in rng.permutation([i for i, k in enumerate(o) for _ in range(k)])]:
                e, w = sp.diff(e, s), sp.diff(w, s)
            expr.append(e)
            want.append(w)
            tols.append((1e-7, 1e-5, 2e-3)[sum(o) - 1])
            label.append((name, o))
    x = np.sort(np.linspace(-4, 4, 9) + rng.uniform(-0.2, 0.2, 9))
    yv = rng.normal(size=9)
    tab = SymTableGenerator(TableSpline1D('tabd', yv, x), local_compiler=lc)
    spl = CubicSpline(x, yv, bc_type='natural')
    for o in (1, 2, 3):
        expr.append(sp.diff(tab(S[0]), S[0], o))
        want.append(o)
        tols.append(1e-8)
        label.append(('table', o))
    perm = [int(i) for i in rng.permutation(len(expr))]
    f = mon.under(lc.lambdify, [S], [expr[i] for i in perm])
    for _ in range(3):
        p = rng.uniform(-1.5, 1.5, 3)
        got = np.asarray(mon.under(f, p), float)
        for v, i in zip(got, perm):
            t = float(spl(p[0], want[i])) if isinstance(want[i], int) else float(want[i].evalf(25, subs=dict(zip(S, p))))
            mon.check(abs(v - t) <= tols[i] * (1 + abs(t)), 'derivative', lambda: 'derivative %s of %s at %s is %r, exact %r' % (label[i][1], label[i][0], p, v, t), ('derivatives',) + label[i])
    mon.sample = {'functions': names}
