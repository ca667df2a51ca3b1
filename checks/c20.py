"""C20: the geometric operators obey the identities of the calculus they implement."""
import types
import numpy as np
import sympy as sp
import mpmath as mp

LEVEL = 'exploration'
RULE = ('random scalar fields, one-forms, skew forms and vector fields over 1-6 coordinates (listed in any order, with constants, '
        'trigonometric, rational and exponential terms, missing coordinates, plain numbers) put through every operator; each result is '
        'evaluated at random points and compared with numerical differentiation of the inputs, and the identities dd = 0, dH(X_H) = 0, '
        'omega(X_H, .) = -dH, bracket/field duality are evaluated; malformed inputs must be refused; '
        'distinct = (operator, coordinates, shape of the input)')
ASSUMPTIONS = ['mpmath numerical differentiation at 40 digits is the reference derivative',
               'is_symplectic judges shape and skew symmetry (it does not claim to judge degeneracy)',
               'noether integrates component by component: judged for fields whose dual components depend on their own coordinate only']


def cases(tier, seed):
    n = {'quick': 120, 'thorough': 3000}[tier]
    return [{'group': g, 'mode': 'nojit', 'seed': seed * 100003 + i * 10 + k, 'timeout': 60, 'cost': 0.5}
            for i in range(n) for k, g in enumerate(['exterior', 'field', 'form', 'total', 'noether'])]


NAMES = ['x', 'y', 'lam_x', 'a', 'v', 'zeta', 'p2', 'theta', 'lam_y', 'b']


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def scalar(rng, syms, terms=3):
    """Smooth everywhere; coordinates may be missing; constants k, c appear as plain symbols."""
    k, c = sp.symbols('k c')
    e = sp.Integer(0)
    for _ in range(int(rng.integers(0 if rng.random() < 0.1 else 1, terms + 1))):
        a, b = R(rng, syms), R(rng, syms)
        co = R(rng, [sp.Integer(1), sp.Integer(-2), sp.Rational(1, 3), k, k * c, sp.Float(1.25)])
        e += co * R(rng, [a, b ** 2, a * b, sp.sin(a), sp.cos(a * b), sp.exp(a / 3), a ** 3 * b, 1 / (1 + a ** 2), a * b ** 2,
                          sp.sqrt(1 + b ** 2), sp.Integer(1)])
    return sp.sympify(e)


def at(e, pt):
    return mp.mpf(sp.N(sp.sympify(e).subs(pt), 40))


def d(e, s, pt):
    f = sp.lambdify([s], sp.sympify(e).subs({k: v for k, v in pt.items() if k != s}), 'mpmath')
    return mp.diff(f, mp.mpf(str(pt[s])))


def near(a, b, tol=1e-11):
    return abs(a - b) <= tol * (1 + abs(b))


def points(rng, syms, n=2):
    k, c = sp.symbols('k c')
    return [{s: sp.Float(float(rng.normal()), 40) for s in list(syms) + [k, c]} for _ in range(n)]


def run(case, mon):
    mp.mp.dps = 40
    rng = np.random.default_rng(case['seed'])
    {'exterior': exterior, 'field': field, 'form': form, 'total': total, 'noether': noether_}[case['group']](rng, mon)


def pick(rng, n):
    return [sp.Symbol(s) for s in rng.permutation(NAMES)[:n]]


def exterior(rng, mon):
    from beluga.symbolic.differential_geometry import exterior_derivative as ext
    n = int(rng.integers(1, 6))
    basis = pick(rng, n)
    pool = basis + pick(rng, 2)
    f = scalar(rng, pool)
    pts = points(rng, set(pool))
    df = mon.under(ext, f, basis)
    if not mon.check(tuple(df.shape) == (n,), 'shape', lambda: 'd(%s) over %s has shape %s' % (f, basis, df.shape), ('0', n)):
        return
    for pt in pts:
        for i, s in enumerate(basis):
            want, got = d(f, s, pt), at(df[i], pt)
            mon.check(near(got, want), 'gradient', lambda: 'd(%s) over %s: component %d is %s, derivative is %s' % (f, basis, i, got, want),
                      ('0', n, 'value'))
    ddf = mon.under(ext, df, basis)
    mon.check(tuple(ddf.shape) == (n, n), 'shape', lambda: 'dd has shape %s' % (ddf.shape,), ('dd', n))
    for pt in pts:
        for i in range(n):
            for j in range(n):
                mon.check(abs(at(ddf[i, j], pt)) < 1e-12, 'dd', lambda: 'dd(%s) over %s is %s at [%d,%d]' % (f, basis, ddf[i, j], i, j),
                          ('dd', n, 'value'))
    th = [scalar(rng, pool) for _ in range(n)]
    inp = sp.Array(th) if rng.random() < 0.5 else sp.MutableDenseNDimArray(th)
    before = list(inp)
    dth = mon.under(ext, inp, basis)
    mon.check(list(inp) == before, 'argument-changed', 'the differentiated form was altered', ('1', 'untouched'))
    for pt in pts:
        for i in range(n):
            for j in range(n):
                want = d(th[j], basis[i], pt) - d(th[i], basis[j], pt)
                got = at(dth[i, j], pt)
                mon.check(near(got, want), 'curl', lambda: 'd(%s) over %s at [%d,%d] is %s, expected %s' % (th, basis, i, j, got, want),
                          ('1', n, 'value'))
    # linear in the form, and not confused by a second use
    g = scalar(rng, pool)
    lin = mon.under(ext, sp.sympify(f + 3 * g), basis)
    dg = mon.under(ext, g, basis)
    for i in range(n):
        mon.check(near(at(lin[i], pts[0]), at(df[i], pts[0]) + 3 * at(dg[i], pts[0])), 'linear', 'd is not linear', ('0', n, 'linear'))
    if rng.random() < 0.3:
        try:
            r = ext(sp.Array([[f, g], [g, f]]), pick(rng, 2))
            mon.fail('accepted', 'a two-form was differentiated to %s without being supported' % (r,))
        except (NotImplementedError, TypeError):
            mon.seen(('2', 'refused'))


def skew(rng, n, syms=None):
    """A non-degenerate skew matrix 2n x 2n."""
    while True:
        a = rng.integers(-3, 4, size=(2 * n, 2 * n))
        m = sp.Matrix(a - a.T)
        if m.det() != 0:
            return m


def field(rng, mon):
    from beluga.symbolic.differential_geometry import make_hamiltonian_vector_field as mk, make_standard_symplectic_form as std
    n = int(rng.integers(1, 4))
    basis = pick(rng, 2 * n)
    H = scalar(rng, basis, 4)
    standard = rng.random() < 0.5
    om = mon.under(std, basis[:n], basis[n:]) if standard else sp.MutableDenseNDimArray(skew(rng, n))
    ref = [[int(om[i, j]) for j in range(2 * n)] for i in range(2 * n)]
    if standard:
        J = [[(1 if j == i + n else -1 if i == j + n else 0) for j in range(2 * n)] for i in range(2 * n)]
        mon.check(ref == J, 'standard-form', lambda: 'standard form over %d states is %s' % (n, ref), ('std', n))
    X = mon.under(mk, H, om, basis)
    if not mon.check(len(X) == 2 * n, 'shape', lambda: 'field has %d components for %d coordinates' % (len(X), 2 * n), ('X', n)):
        return
    for pt in points(rng, basis):
        dH = [d(H, s, pt) for s in basis]
        x = [at(e, pt) for e in X]
        for i in range(2 * n):
            lhs = sum(ref[i][j] * x[j] for j in range(2 * n))
            mon.check(near(lhs, -dH[i]), 'duality', lambda: 'omega X + dH is %s for H = %s, omega = %s, basis %s' % (lhs + dH[i], H, ref, basis),
                      ('X', n, standard, 'dual'))
        mon.check(abs(sum(a * b for a, b in zip(dH, x))) < 1e-11 * (1 + sum(abs(a * b) for a, b in zip(dH, x))), 'energy', lambda: 'H = %s is not conserved by its own field' % H,
                  ('X', n, standard, 'energy'))
        if standard:
            for i in range(n):
                mon.check(near(x[i], dH[n + i]) and near(x[n + i], -dH[i]), 'hamilton',
                          lambda: 'Hamilton equations fail for %s over %s: %s' % (H, basis, X), ('X', n, 'hamilton'))
    # refusals
    k = 2 * int(rng.integers(0, 3)) + 1
    for bad, what in ((sp.MutableDenseNDimArray(sp.zeros(k, k)), 'odd'), (sp.MutableDenseNDimArray(sp.zeros(2, 4)), 'rectangular')):
        try:
            mk(H, bad, basis[:bad.shape[0]])
            mon.fail('accepted', 'a %s form was accepted for a Hamiltonian vector field' % what)
        except ValueError:
            mon.seen(('X', 'refused', what))
    try:
        std(basis[:n], basis[:n - 1])
        mon.fail('accepted', 'a standard form was made of %d states and %d costates' % (n, n - 1))
    except ValueError:
        mon.seen(('std', 'refused'))


def form(rng, mon):
    from beluga.symbolic.differential_geometry import is_symplectic as isy, make_standard_symplectic_form as std
    n = int(rng.integers(1, 4))
    basis = pick(rng, 2 * n)
    k = sp.Symbol('k')
    mon.check(mon.under(isy, std(basis[:n], basis[n:])) is True, 'standard', 'the standard form is not symplectic', ('is', n, 'std'))
    m = skew(rng, n) * R(rng, [1, k, sp.Rational(1, 2)])
    mon.check(mon.under(isy, sp.MutableDenseNDimArray(m)) is True, 'skew', lambda: '%s is not recognised as symplectic' % m, ('is', n, 'skew'))
    i, j = (int(v) for v in rng.integers(0, 2 * n, 2))
    b = sp.MutableDenseNDimArray(m)
    b[i, j] = b[i, j] + R(rng, [1, -1, k, sp.Rational(1, 7)])
    mon.check(mon.under(isy, b) is False, 'not-skew', lambda: '%s is called symplectic' % b, ('is', n, 'broken', i == j, i < j))
    sym = m.applyfunc(abs) if not m.has(k) else m
    if not m.has(k) and any(v != 0 for v in sym):
        mon.check(mon.under(isy, sp.MutableDenseNDimArray(sym)) is False, 'symmetric', 'a symmetric matrix is called symplectic', ('is', n, 'sym'))
    odd = sp.zeros(2 * n + 1, 2 * n + 1)
    odd[0, 1], odd[1, 0] = 1, -1
    for bad, what in ((None, 'none'), (sp.MutableDenseNDimArray(odd), 'odd'), (sp.MutableDenseNDimArray(m[:, :2 * n - 1]), 'rect'),
                      (sp.MutableDenseNDimArray(list(m)[:2 * n]), 'vector'), (sp.MutableDenseNDimArray(m.row_join(sp.zeros(2 * n, 2))), 'wide')):
        mon.check(mon.under(isy, bad) is False, 'accepted', lambda: 'a %s form is called symplectic' % what, ('is', n, what))


def total(rng, mon):
    from beluga.symbolic.differential_geometry import total_derivative as td
    x = pick(rng, 3)
    f = scalar(rng, x)
    for pt in points(rng, x):
        for s in x:
            want, got = d(f, s, pt), at(mon.under(td, f, s), pt)
            mon.check(near(got, want), 'partial', lambda: 'd(%s)/d%s is %s, expected %s' % (f, s, got, want), ('td', 'plain'))
    q = sp.symbols('q1 q2')[:int(rng.integers(1, 3))]
    dep = {s: scalar(rng, x) for s in q}
    g = scalar(rng, x + list(q), 4)
    whole = g.subs(dep)
    for pt in points(rng, x):
        for s in x:
            want = d(whole, s, pt)
            got = at(sp.sympify(mon.under(td, g, s, dep)).subs(dep), pt)
            mon.check(near(got, want), 'chain', lambda: 'total derivative of %s by %s with %s is %s, expected %s' % (g, s, dep, got, want),
                      ('td', 'chain', len(q)))


def problem(rng, n, basis, H):
    from beluga.symbolic.differential_geometry import make_standard_symplectic_form as std
    S = lambda s: types.SimpleNamespace(sym=s, units=sp.Symbol('u_' + s.name))
    p = types.SimpleNamespace(states=[S(s) for s in basis[:n]], costates=[S(s) for s in basis[n:]])
    p.omega = std(basis[:n], basis[n:])
    p.constants_of_motion = [types.SimpleNamespace(units=sp.Symbol('uH'), expr=H)]
    return p


def noether_(rng, mon):
    from beluga.symbolic.differential_geometry import noether, pb
    n = int(rng.integers(1, 4))
    basis = pick(rng, 2 * n)
    k = sp.Symbol('k')
    g = scalar(rng, basis, 4)
    p = problem(rng, n, basis, g)
    br = mon.under(pb, None, types.SimpleNamespace(expr=g), p)
    # Hamiltonian field of g in the standard form
    for pt in points(rng, basis):
        dg = [d(g, s, pt) for s in basis]
        want = dg[n:] + [-v for v in dg[:n]]
        for i in range(2 * n):
            mon.check(near(at(br[i], pt), want[i]), 'bracket', lambda: 'bracket with %s over %s is %s' % (g, basis, br), ('pb', n))
    # a constant field (a translation) and its generator
    chi = [R(rng, [0, 0, 1, -1, 2, k, k ** 2]) for _ in range(2 * n)]
    unit = sp.Symbol('uf')
    G, u = mon.under(noether, p, types.SimpleNamespace(field=np.array([sp.sympify(c) for c in chi]), units=unit))
    mon.check(sp.simplify(u - sp.Symbol('uH') / unit) == 0, 'unit', lambda: 'the generator has units %s' % u, ('noether', 'unit'))
    for pt in points(rng, basis):
        dG = [d(G, s, pt) for s in basis]
        X = dG[n:] + [-v for v in dG[:n]]
        c = [at(v, pt) for v in chi]
        same = all(near(a, b) for a, b in zip(X, c))
        opp = all(near(a, -b) for a, b in zip(X, c))
        mon.check(same or opp, 'generator', lambda: 'the generator of the translation %s over %s is %s' % (chi, basis, G), ('noether', n))
    # and back: the field of a quantity is the field the quantity generates
    lin = sum((R(rng, [0, 1, -2, k]) * s for s in basis), sp.Integer(0))
    if lin != 0:
        F, u = mon.under(noether, p, types.SimpleNamespace(expr=sp.sympify(lin), units=unit))
        co = [sp.diff(lin, s) for s in basis]
        mon.check(list(F) == co[n:] + [-v for v in co[:n]], 'field-of-quantity', lambda: 'field of %s is %s' % (lin, F), ('noether', 'back', n))
    p.omega[0, 0] = 1
    try:
        noether(p, types.SimpleNamespace(field=np.array([sp.sympify(c) for c in chi]), units=unit))
        mon.fail('accepted', 'a non-symplectic form was accepted')
    except ValueError:
        mon.seen(('noether', 'refused'))
