"""Problem specifications (plain data), the generator of random ones, the builder that
states them through the public Problem interface, and an independent first-order model
(Pontryagin conditions derived here from the user's text, not from the code under test)."""
import copy
import numpy as np
import sympy as sp


# ----------------------------------------------------------------------------- building through the public interface
def build_problem(spec):
    from beluga import Problem
    p = Problem(spec.get('name', 'v'))
    p.independent(spec['ind'], spec.get('ind_units', 's'))
    for n, e, u in spec['states']:
        p.state(n, e, u)
    for n, u in spec['controls']:
        p.control(n, u)
    for n, u in spec.get('params', []):
        p.parameter(n, u)
    for n, v, u in spec['constants']:
        p.constant(n, v, u)
    for n, e in spec.get('quantities', []):
        p.quantity(n, e)
    for n, f, c, a in spec.get('switches', []):
        p.switch(n, f, c, a)
    for item in spec.get('functions', []):
        p.custom_function(*item)
    for item in spec.get('tables', []):
        p.table(*item)
    c = spec['cost']
    cu = c.get('units', '1')
    if c.get('initial') is not None:
        p.initial_cost(c['initial'], cu)
    if c.get('path') is not None:
        p.path_cost(c['path'], c.get('path_units', cu + '/(' + spec.get('ind_units', 's') + ')'))
    if c.get('terminal') is not None:
        p.terminal_cost(c['terminal'], cu)
    for item in spec['initial']:
        _constraint(p.initial_constraint, item)
    for item in spec['terminal']:
        _constraint(p.terminal_constraint, item)
    for item in spec.get('path', []):
        e, u, kw = item
        p.path_constraint(e, u, **kw)
    for f, u in spec.get('symmetries', []):
        p.symmetry(f, u)
    for n, e, u in spec.get('coms', []):
        p.constant_of_motion(n, e, u)
    p.scale(**spec.get('scale', {'m': 1, 's': 1, 'kg': 1, 'rad': 1}))
    return p


def _constraint(fn, item):
    if len(item) == 2:
        fn(item[0], item[1])
    else:
        fn(item[0], item[1], **item[2])


def to_bvp(prob, compile_=True, **opts):
    from beluga.symbolic.data_classes import make_preprocessor, make_indirect_method, make_postprocessor
    ocp = make_preprocessor()(copy.deepcopy(prob))
    bvp = make_indirect_method(copy.deepcopy(ocp), **opts)(copy.deepcopy(ocp))
    if compile_:
        bvp = make_postprocessor()(copy.deepcopy(bvp))
    return bvp


def names(structs):
    return [s.name for s in structs]


def const_values(bvp):
    return np.array([c.default_val for c in bvp.constants], dtype=float)


# ----------------------------------------------------------------------------- random problems
UNITS = ['m', 'm/s', 's', 'kg', 'rad', '1', 'm/s**2', 'kg*m']


def random_spec(rng, n_states=None, n_controls=None, timed=None, affine=False, allow_initial_cost=True,
                n_terminal=None, max_terms=3):
    """A smooth random optimal control problem. Every draw comes from rng."""
    R = lambda a: a[int(rng.integers(len(a)))]
    ind = R(['t', 't', 't', 'tau', 's1'])
    n = n_states or int(rng.integers(1, 5))
    m = n_controls or int(rng.choice([1, 1, 1, 1, 2, 2, 2, 2, 3]))
    snames = [str(a) for a in rng.permutation(['x', 'y', 'v', 'h', 'z', 'w', 'q1', 'X2'])[:n]]
    cnames = [str(a) for a in rng.permutation(['u', 'th', 'a1', 'alfa', 'T'])[:m]]
    timed = bool(rng.integers(2)) if timed is None else timed
    consts = []

    def const(prefix='k', lo=0.3, hi=2.0):
        name = '%s%d' % (prefix, len(consts))
        consts.append([name, round(float(rng.uniform(lo, hi)) * R([1, 1, -1]), 3), R(UNITS)])
        return name

    def xterm(s):
        return R(['{s}', '{s}', 'sin({s})', 'cos({s})', '{s}**2', 'exp(-{s}**2)', '{s}/(1 + {s}**2)', 'sqrt(1 + {s}**2)',
                  'tanh({s})', 'atan({s})', 'log(2 + {s}**2)']).format(s=s)

    def uterm(c):
        if affine:
            return c
        return R(['{c}', '{c}', 'sin({c})', 'cos({c})', '{c}**2', '{c}']).format(c=c)

    vars_ = snames + ([ind] if timed else [])

    def term(with_u=None):
        t = const() if rng.random() < 0.6 else str(R([1, -1, 2, '0.5', 3]))
        r = rng.random()
        if with_u is not None:
            t += '*' + uterm(with_u)
            if r < 0.5:
                t += '*(1 + %s)' % xterm(R(vars_)) if r < 0.25 else '*%s' % xterm(R(vars_))
        else:
            t += '*' + xterm(R(vars_))
            if r < 0.4:
                t += '*' + xterm(R(vars_))
        return t

    eoms = []
    # each control appears in at least one equation
    owner = {c: int(rng.integers(n)) for c in cnames}
    for i, s in enumerate(snames):
        terms = [term() for _ in range(int(rng.integers(0 if any(o == i for o in owner.values()) else 1, max_terms)))]
        for c in cnames:
            if owner[c] == i or rng.random() < 0.25:
                if affine:
                    terms.append('%s*%s*%s' % (const(), c, R(['1', xterm(R(snames))])))
                else:
                    terms.append(term(c))
        eoms.append(' + '.join(str(a) for a in rng.permutation(terms)))

    path = ' + '.join('%s*%s**2' % (R(['0.5', '1', '2', const('w', 0.5, 2.0)]), c) for c in cnames)
    if m >= 2 and rng.random() < 0.5:
        path += ' + 0.2*%s*%s' % (cnames[0], cnames[1])
    for _ in range(int(rng.integers(0, 3))):
        path += ' + ' + term()
    if not affine and rng.random() < 0.3:
        c = R(cnames)
        # (a second square of the control could cancel the first)
        path += ' + ' + term(c).replace('*%s**2' % c, '*%s' % c)
    initial_cost = term() if allow_initial_cost and rng.random() < 0.4 else None
    terminal_cost = None
    if rng.random() < 0.6:
        terminal_cost = term() + (' + ' + term() if rng.random() < 0.4 else '')
        if timed and rng.random() < 0.6:
            terminal_cost += ' + %s*%s' % (const(), ind)

    initial, terminal = [], []
    for s in snames:
        if rng.random() < 0.85:
            consts.append([s + '_0', round(float(rng.normal()), 3), 'm'])
            initial.append([s + ' - ' + s + '_0', R(UNITS)])
    initial.append([ind, 's'] if rng.random() < 0.7 else [ind + ' - ' + const('tz'), 's'])
    if rng.random() < 0.2:
        initial.append(['%s*%s - %s' % (R(snames), R(snames), const()), R(UNITS)])
    for s in snames:
        if rng.random() < 0.5:
            consts.append([s + '_f', round(float(rng.normal()), 3), 'm'])
            terminal.append([s + ' - ' + s + '_f', R(UNITS)])
    if rng.random() < 0.4:
        a, b = R(snames), R(snames)
        terminal.append(['%s**2 + %s*%s - %s' % (a, const(), b, const()), R(UNITS)])
    if rng.random() < 0.5 or not terminal:
        consts.append([ind + '_f', round(float(rng.uniform(0.5, 2)), 3), 's'])
        terminal.append([ind + ' - ' + ind + '_f', 's'])
    rng.shuffle(initial)
    rng.shuffle(terminal)
    rng.shuffle(consts)
    return {
        'ind': ind, 'ind_units': 's',
        'states': [[s, e, R(UNITS)] for s, e in zip(snames, eoms)],
        'controls': [[c, R(UNITS)] for c in cnames],
        'constants': [[str(a), float(b), str(u)] for a, b, u in consts],
        'cost': {'initial': initial_cost, 'path': path, 'terminal': terminal_cost, 'units': R(['1', 'm', 'kg*m'])},
        'initial': [[str(a), str(b)] for a, b in initial], 'terminal': [[str(a), str(b)] for a, b in terminal],
    }


def wide_spec(rng, affine=False, timed=None, states=(5, 9), controls=(3, 5)):
    """Many states, controls and boundary constraints, sparsely coupled."""
    spec = random_spec(rng, n_states=int(rng.integers(*states)), n_controls=int(rng.integers(*controls)), timed=timed, affine=affine, max_terms=2)
    xs = [s[0] for s in spec['states']]
    for w in ('initial', 'terminal'):
        for j in range(int(rng.choice([0, 0, 3, 5]))):
            a, b = (xs[int(i)] for i in rng.choice(len(xs), 2, replace=False))
            spec[w].append(['%s + %g*%s*%s - 0.3' % (a, 0.5 + 0.1 * j, b, b), 'm'])
    return spec


# ----------------------------------------------------------------------------- the independent first-order model
def free_names(expr):
    return {str(s) for s in sp.sympify(expr, locals={n: sp.Symbol(n) for n in 'S N E I Q O'.split()}).free_symbols}


class OracleError(Exception):
    pass


class PMP:
    """Hamiltonian, costate rates, stationarity and transversality, derived from the text of the specification."""

    def __init__(self, spec, extra=None):
        self.spec = spec
        t = sp.Symbol(spec['ind'])
        self.x = [sp.Symbol(s[0]) for s in spec['states']] + [t]
        self.xn = [str(s) for s in self.x]
        self.u = [sp.Symbol(c[0]) for c in spec['controls']]
        self.par = [sp.Symbol(c[0]) for c in spec.get('params', [])]
        self.k = [sp.Symbol(c[0]) for c in spec['constants']]
        self.lam = [sp.Symbol('L__' + str(s)) for s in self.x]
        self.nu0 = [sp.Symbol('N0__%d' % i) for i in range(len(spec['initial']))]
        self.nuf = [sp.Symbol('Nf__%d' % i) for i in range(len(spec['terminal']))]
        loc = {str(s): s for s in self.x + self.u + self.k + self.par}
        if extra:
            loc.update(extra)
        S = lambda e: sp.sympify(e, locals=loc)
        self.f = [S(e) for _, e, _ in spec['states']] + [sp.Integer(1)]
        c = spec['cost']
        self.L = S(c.get('path') or 0)
        self.phi0 = S(c.get('initial') or 0)
        self.phif = S(c.get('terminal') or 0)
        self.psi0 = [S(i[0]) for i in spec['initial']]
        self.psif = [S(i[0]) for i in spec['terminal']]
        self.H = self.L + sum(l * f for l, f in zip(self.lam, self.f))
        self.Hx = [sp.diff(self.H, s) for s in self.x]
        self.Hu = [sp.diff(self.H, s) for s in self.u]
        self.Hp = [sp.diff(self.H, s) for s in self.par]
        self.Huu = [[sp.diff(g, s) for s in self.u] for g in self.Hu]
        self.Hux = [[sp.diff(g, s) for s in self.x] for g in self.Hu]
        self.Hul = [[sp.diff(g, s) for s in self.lam] for g in self.Hu]
        G0 = self.phi0 + sum(n * p for n, p in zip(self.nu0, self.psi0))
        Gf = self.phif + sum(n * p for n, p in zip(self.nuf, self.psif))
        self.G0x = [sp.diff(G0, s) for s in self.x]
        self.Gfx = [sp.diff(Gf, s) for s in self.x]
        self.G0p = [sp.diff(G0, s) for s in self.par]
        self.Gfp = [sp.diff(Gf, s) for s in self.par]
        self._f = {}

    def num(self, expr, vals):
        """Evaluate nested lists of expressions; vals maps name -> float (names of costates: L__x)."""
        key = str(expr) if not isinstance(expr, str) else expr
        if key not in self._f:
            e = getattr(self, expr) if isinstance(expr, str) else expr
            args = self.x + self.u + self.par + self.k + self.lam + self.nu0 + self.nuf
            self._f[key] = (sp.lambdify(args, e, 'numpy'), [str(a) for a in args])
        fn, an = self._f[key]
        try:
            return np.array(fn(*[vals.get(a, 0.0) for a in an]), dtype=float)
        except Exception as e:
            raise OracleError('%s: %s' % (type(e).__name__, e)) from None


def random_point(model, rng, scale=1.0):
    v = {str(a): float(rng.normal()) * scale for a in model.x + model.u + model.lam + model.nu0 + model.nuf}
    for p in model.par:
        v[str(p)] = float(rng.uniform(0.5, 1.5))
    for n, val, _ in model.spec['constants']:
        v[n] = float(val) * float(rng.uniform(0.8, 1.2))
    return v


def project_stationary(model, v):
    """Move the costates by the least-norm amount that makes dH/du vanish (H is affine in them)."""
    v = dict(v)
    B = model.num('Hul', v)
    g = model.num('Hu', v)
    if B.size == 0:
        return v, 0.0
    d, *_ = np.linalg.lstsq(B, -g, rcond=None)
    for s, di in zip(model.lam, d):
        v[str(s)] += float(di)
    res = float(np.abs(model.num('Hu', v)).max())
    # more controls than costates can serve: move the controls as well
    best, last = dict(v), res
    for _ in range(15):
        if not np.isfinite(res) or res <= 1e-14:
            break
        J = np.hstack([model.num('Hul', v), model.num('Huu', v)])
        if not np.all(np.isfinite(J)):
            break
        d, *_ = np.linalg.lstsq(J, -np.asarray(model.num('Hu', v), float), rcond=1e-10)
        d *= min(1.0, 1.5 / (np.abs(d).max() + 1e-300))
        for s, di in zip(list(model.lam) + list(model.u), d):
            v[str(s)] += float(di)
        res = float(np.abs(model.num('Hu', v)).max())
        if res < last:
            best, last = dict(v), res
    return best, last


def match_up_to_sign(expected, actual, tol=1e-7):
    """expected, actual: lists of value vectors (one entry per probe point). Greedy matching up to sign.
    Returns (unmatched expected indices, unmatched actual indices)."""
    act = list(range(len(actual)))
    miss = []
    for i, e in enumerate(expected):
        e = np.asarray(e, float)
        hit = None
        for j in act:
            a = np.asarray(actual[j], float)
            s = tol * (1 + np.abs(e))
            if np.all(np.abs(a - e) <= s) or np.all(np.abs(a + e) <= s):
                hit = j
                break
        if hit is None:
            miss.append(i)
        else:
            act.remove(hit)
    return miss, act
