"""C04: the boundary-value solvers are honest: what they flag as converged solves the problem, what cannot be solved is never
flagged, benign problems are solved, and the caller's guess is left alone."""
import copy
import numpy as np
from scipy.integrate import solve_ivp
from scipy.linalg import expm

LEVEL = 'exploration'
RULE = ('random boundary-value problems with known solutions (linear with free dynamical parameters, boundary multipliers and '
        'quadratures; nonlinear manufactured ones) and infeasible ones x solver (shooting with every root finder, 1-4 arcs; '
        'collocation with and without analytical Jacobians) x tolerances and guesses; every returned trajectory is re-integrated '
        'independently node by node; distinct = (family, solver, algorithm, arcs, quadratures, parameters, outcome)')
ASSUMPTIONS = ['scipy integrates the reference solution', 'benign = linear and well conditioned, or nonlinear with a guess near the solution']
SOLVED = ['Armijo', 'fsolve', 'hybr', 'lm', 'SLSQP']
OTHERS = ['Nelder-Mead', 'Powell', 'CG', 'BFGS', 'L-BFGS-B', 'TNC', 'COBYLA', 'trust-constr', 'broyden1', 'broyden2', 'anderson',
          'linearmixing', 'diagbroyden', 'excitingmixing', 'krylov', 'df-sane']


def cases(tier, seed):
    n = {'quick': 330, 'thorough': 8000}[tier]
    out = []
    for i in range(n):
        g = ['linear', 'linear', 'nonlinear', 'infeasible'][i % 4]
        r = (i // 4) % 8
        if g == 'infeasible':
            solver = ['shooting', 'shooting', 'spbvp', 'other'][r % 4]
        else:
            solver = ['shooting', 'shooting', 'shooting', 'spbvp', 'spbvp', 'spbvp', 'other', 'shooting'][r]
        out.append({'group': g + '-' + solver, 'mode': 'nojit', 'seed': seed * 100003 + i, 'family': g, 'solver': solver,
                    'i': i, 'timeout': 60, 'cost': 2 if solver == 'other' else 1})
    for i in range(n // 12):
        out.append({'group': 'reuse', 'mode': 'nojit', 'seed': seed * 100003 + 800000 + i, 'family': 'linear', 'i': i,
                    'solver': ['shooting', 'spbvp'][i % 2], 'timeout': 60})
    for i in range(n // 10):
        out.append({'group': 'limits', 'mode': 'nojit', 'seed': seed * 100003 + 900000 + i, 'family': 'linear', 'i': i,
                    'solver': ['spbvp', 'shooting', 'shooting'][i % 3], 'timeout': 60})
    return out


MIN_OK = {'nonlinear-other': 0.3, 'linear-other': 0.3, 'infeasible-other': 0.3}


def R(rng, a):
    return a[int(rng.integers(len(a)))]


class Prob:
    pass


def linear(rng, feasible=True, quads=None):
    for _ in range(200):
        n, nd, nn = int(rng.integers(1, 5)), int(rng.integers(0, 3)), int(rng.integers(0, 3))
        nq = int(rng.integers(0, 5)) if quads is None else quads
        A, b = rng.normal(size=(n, n)) * 0.7, rng.normal(size=n) * 0.5
        D = rng.normal(size=(n, nd))
        C, cq = rng.normal(size=(nq, n)), rng.normal(size=(nq, nd))
        L = float(rng.uniform(0.4, 1.5))
        t0 = R(rng, [0.0, float(rng.normal())])
        m = n + nq + nd + nn
        m0 = int(rng.integers(0, m + 1)) if m > 1 else int(rng.integers(0, 2))
        F0, Ff = rng.normal(size=(m0, n + nq)), rng.normal(size=(m - m0, n + nq))
        P0, Pf = rng.normal(size=(m0, nd + nn)), rng.normal(size=(m - m0, nd + nn))
        # augmented linear flow of (y, q, p, 1)
        big = n + nq + nd + 1
        G = np.zeros((big, big))
        G[:n, :n] = A
        G[:n, n + nq:n + nq + nd] = D
        G[:n, -1] = b
        G[n:n + nq, :n] = C
        G[n:n + nq, n + nq:n + nq + nd] = cq
        E = expm(G * L)
        z = n + nq
        # unknowns: (y0, q0, pd, pn)
        J = np.zeros((m, m))
        J[:m0, :z] = F0
        J[:m0, z:] = P0
        J[m0:, :z] = Ff @ E[:z, :z]
        J[m0:, z:z + nd] = Ff @ E[:z, z:z + nd] + Pf[:, :nd]
        J[m0:, z + nd:] = Pf[:, nd:]
        if not feasible:
            break
        if np.linalg.cond(J) < 60:
            break
    else:
        return None
    true = rng.normal(size=m)
    z0 = true[:z]
    pd, pn = true[z:z + nd], true[z + nd:]
    zf = E[:z, :z] @ z0 + E[:z, z:z + nd] @ pd + E[:z, -1]
    c0 = F0 @ z0 + P0 @ true[z:]
    cf = Ff @ zf + Pf @ true[z:]
    if not feasible:
        # two contradictory conditions on the same combination
        w = rng.normal(size=z)
        rows = [(0, w, 1.0), (0, w, -1.0)]
        F0 = np.vstack([w, w] + ([F0[:max(0, m0 - 2)]] if m0 > 2 else []))
        c0 = np.array([1.0, -1.0] + list(c0[:max(0, m0 - 2)]))
        P0 = np.vstack([np.zeros((2, nd + nn)), P0[:max(0, m0 - 2)]])
        extra = m - len(c0)
        if extra < 0:
            return None
        Ff, Pf, cf = rng.normal(size=(extra, z)), rng.normal(size=(extra, nd + nn)), rng.normal(size=extra)
    p = Prob()
    p.n, p.nq, p.nd, p.nn, p.t0, p.L, p.true = n, nq, nd, nn, t0, L, true
    p.J, p.c0 = J, c0
    p.const = np.array([1.0, float(rng.normal())])

    def f(y, par, k):
        return (A @ np.asarray(y) + b + D @ np.asarray(par)[:nd]) * k[0]

    def fq(y, par, k):
        return (C @ np.asarray(y) + cq @ np.asarray(par)[:nd]) * k[0]

    def bc_any(z0, zf, par, npar):
        q = np.concatenate([np.asarray(par, float), np.asarray(npar, float)])
        return np.concatenate([F0 @ z0 + P0 @ q - c0, Ff @ zf + Pf @ q - cf])

    if nq:
        def bc(y0, q0, yf, qf, par, npar, k):
            return bc_any(np.concatenate([y0, q0]), np.concatenate([yf, qf]), par, npar)
    else:
        def bc(y0, yf, par, npar, k):
            return bc_any(np.asarray(y0), np.asarray(yf), par, npar)

    def fjac(y, par, k):
        return A * k[0], D * k[0]

    def bcjac(y0, yf, par, npar, k):
        a = np.vstack([F0, np.zeros_like(Ff)])
        e = np.vstack([np.zeros_like(F0), Ff])
        return a, e, np.vstack([P0, Pf])

    def bcjac_q(y0, q0, yf, qf, par, npar, k):
        a, e, d = bcjac(y0, yf, par, npar, k)
        return a[:, :n], e[:, :n], d, a[:, n:], e[:, n:]
    p.f, p.fq, p.bc, p.bc_any = f, (fq if nq else None), bc, bc_any
    p.fjac, p.bcjac = fjac, (bcjac_q if nq else bcjac)
    p.kappa = np.linalg.cond(J) if feasible else 1.0
    p.near = None
    return p


def nonlinear(rng):
    n = int(rng.integers(2, 4))
    W, w2, d = rng.normal(size=(n, n)) * 0.6, rng.normal(size=n) * 0.8, rng.normal(size=n) * 0.5
    p = Prob()
    p.n, p.nq, p.nd, p.nn = n, 0, 1, 0
    p.t0, p.L = 0.0, 1.0
    p.const = np.array([float(rng.uniform(0.5, 1.5))])

    def f(y, par, k):
        y = np.asarray(y)
        return par[0] * (np.sin(W @ y) * k[0] + w2 * y / (1 + y**2) + d)

    def fjac(y, par, k):
        y = np.asarray(y)
        return (par[0] * (np.cos(W @ y)[:, None] * W * k[0] + np.diag(w2 * (1 - y**2) / (1 + y**2)**2)),
                (np.sin(W @ y) * k[0] + w2 * y / (1 + y**2) + d)[:, None])
    y0, T = rng.normal(size=n) * 0.7, float(rng.uniform(0.5, 1.5))
    ivp = solve_ivp(lambda t, y: f(y, [T], p.const), [0, 1], y0, method='DOP853', rtol=1e-11, atol=1e-12)
    yf = ivp.y[:, -1]
    split = int(rng.integers(1, n + 1))
    i0 = list(rng.permutation(n))[:split]
    i1 = list(rng.permutation(n))[:n + 1 - split]

    def bc_any(z0, zf, par, npar):
        a = [z0[i] - y0[i] + 0.1 * (z0[i]**2 - y0[i]**2) for i in i0]
        e = [zf[i] - yf[i] + 0.1 * (np.sin(zf[i]) - np.sin(yf[i])) for i in i1]
        return np.array(a + e)

    def bc(z0, zf, par, npar, k):
        return bc_any(z0, zf, par, npar)

    def bcjac(z0, zf, par, npar, k):
        a, e = np.zeros((n + 1, n)), np.zeros((n + 1, n))
        for r, i in enumerate(i0):
            a[r, i] = 1 + 0.2 * z0[i]
        for r, i in enumerate(i1):
            e[len(i0) + r, i] = 1 + 0.1 * np.cos(zf[i])
        return a, e, np.zeros((n + 1, 1))

    def shoot(x):
        s = solve_ivp(lambda t, y: f(y, x[n:], p.const), [0, 1], x[:n], method='DOP853', rtol=1e-11, atol=1e-12)
        return bc_any(x[:n], s.y[:, -1], x[n:], [])
    x = np.concatenate([y0, [T]])
    J = np.array([(shoot(x + 1e-6 * e) - shoot(x - 1e-6 * e)) / 2e-6 for e in np.eye(n + 1)]).T
    p.kappa = np.linalg.cond(J)
    if p.kappa > 60:
        return None
    p.f, p.fq, p.bc, p.bc_any, p.fjac, p.bcjac = f, None, bc, bc_any, fjac, bcjac
    p.true, p.near = x, 0.02
    return p


def guess(p, rng, nodes=None):
    from beluga.numeric.data_classes import Trajectory
    N = nodes or int(rng.integers(2, 8))
    t = np.linspace(p.t0, p.t0 + p.L, N)
    if p.near is not None:
        s = solve_ivp(lambda t, y: p.f(y, p.true[p.n:], p.const), [0, 1], p.true[:p.n], t_eval=np.linspace(0, 1, max(N, 12)), rtol=1e-9)
        t = s.t
        N = len(t)
        y = s.y.T + p.near * rng.normal(size=p.n)
        par = p.true[p.n:] * (1 + p.near * rng.normal())
        npar = np.array([])
        q = np.zeros((N, 0))
    else:
        y = np.tile(rng.normal(size=p.n), (N, 1)) + 0.3 * rng.normal(size=(N, p.n))
        q = np.tile(rng.normal(size=p.nq), (N, 1))
        par, npar = rng.normal(size=p.nd), rng.normal(size=p.nn)
    g = Trajectory(t, y, q if p.nq else np.array([]), np.array([]))
    g.dynamical_parameters, g.nondynamical_parameters = np.array(par, float), np.array(npar, float)
    g.const = p.const.copy()
    return g


def make_solver(p, case, rng):
    from beluga.numeric.bvp_solvers import Shooting, SPBVP
    if case['solver'] == 'spbvp':
        s = SPBVP()
        jac = bool(rng.random() < 0.5) and p.fjac is not None
        s.set_derivative_function(p.f)
        s.set_quadrature_function(p.fq)
        s.set_boundarycondition_function(p.bc)
        if jac:
            s.set_derivative_jacobian(p.fjac)
            s.set_boundarycondition_jacobian(p.bcjac)
        return s, ('spbvp', 'jac' if jac else 'nojac', 1), None
    alg = R(rng, SOLVED) if case['solver'] == 'shooting' else OTHERS[(case['i'] // 4) % len(OTHERS)] if case['family'] != 'infeasible' \
        else R(rng, OTHERS)
    if case['solver'] == 'shooting' and rng.random() < 0.5:
        alg = 'Armijo'
    if case['solver'] == 'shooting' and case['family'] == 'infeasible' and rng.random() < 0.3:
        alg = 'fsolve'
    arcs = int(rng.integers(1, 5)) if alg in ('Armijo', 'hybr', 'fsolve') else 1
    tol = R(rng, [1e-4, 1e-6, 1e-5]) if alg == 'Armijo' else R(rng, [1e-5, 1e-7] if alg == 'fsolve' and case['family'] == 'infeasible' else [1e-4, 1e-5])
    s = Shooting(algorithm=alg, num_arcs=arcs, tolerance=tol, ivp_args={'abstol': 1e-9, 'reltol': 1e-9})
    s.set_derivative_function(p.f)
    s.set_quadrature_function(p.fq)
    s.set_boundarycondition_function(p.bc)
    return s, ('shooting', alg, arcs), tol


def snapshot(g):
    return [np.array(getattr(g, a), dtype=float).copy() for a in ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const')]


def limit(tol, sname):
    lim = max(tol, tol**0.5 if sname[1] not in ('Armijo',) and sname[1] in ('fsolve',) + tuple(
        a for a in OTHERS if a[0].isupper()) + ('SLSQP',) else tol) * 1.5 + 1e-7
    if sname[1] in ('SLSQP', 'COBYLA', 'trust-constr'):
        lim = max(lim, 1e-3)
    return lim


def judge(mon, p, case, g, before, out, sname, tol, key):
    sol = out['sol']
    mon.check(all(np.array_equal(a, b) for a, b in zip(snapshot(g), before)), 'input-modified', 'the caller\'s guess was modified', key)
    mon.check(bool(out['success']) == bool(sol.converged), 'flag', 'result and trajectory disagree about convergence')
    if not sol.converged:
        return False
    mon.check(sol.y.shape[1] == p.n and len(sol.dynamical_parameters) == p.nd and len(sol.nondynamical_parameters) == p.nn, 'shape',
              'the solution has other dimensions than the guess')
    mon.check(np.array_equal(np.asarray(sol.const, float), p.const), 'const', 'the constants of the problem changed')
    mon.check(abs(sol.t[0] - p.t0) < 1e-12 and abs(sol.t[-1] - p.t0 - p.L) < 1e-9, 'span', 'the solution covers another time span')
    mon.check(np.all(np.diff(sol.t) > 0), 'grid', 'the time of the solution does not increase')
    q = np.asarray(sol.q, float).reshape(len(sol.t), -1) if p.nq else np.zeros((len(sol.t), 0))
    z = np.hstack([sol.y, q])
    r = np.linalg.norm(p.bc_any(z[0], z[-1], sol.dynamical_parameters, sol.nondynamical_parameters))
    if tol is None:
        lim = 5e-3 * (1 + np.abs(z).max())
    else:
        lim = limit(tol, sname)
    mon.check(r <= lim, 'residual', lambda: 'flagged converged with boundary residual %g (limit %g) by %s' % (r, lim, sname))
    # every interval re-integrated independently
    par = np.asarray(sol.dynamical_parameters, float)

    def rhs(t, zz):
        d = np.asarray(p.f(zz[:p.n], par, p.const), float)
        return np.concatenate([d, p.fq(zz[:p.n], par, p.const)]) if p.nq else d
    worst, drift = 0.0, 0.0
    step = max(1, len(sol.t) // 60)
    ix = list(range(0, len(sol.t) - 1, step))
    for i in ix:
        j = min(i + step, len(sol.t) - 1)
        s = solve_ivp(rhs, [sol.t[i], sol.t[j]], z[i], method='DOP853', rtol=1e-10, atol=1e-11)
        worst = max(worst, np.abs(s.y[:, -1] - z[j]).max() / (1 + np.abs(z[j]).max()))
    dl = 5e-3 if tol is None else max(3 * lim, 1e-5)
    if p.nq and tol is not None:
        # quadratures of shooting are sums over its own grid (Simpson/trapezoid)
        dl = max(dl, 5e-3)
    mon.check(worst <= dl, 'dynamics', lambda: 'flagged converged but the trajectory does not follow the differential equation: %g (limit %g) by %s' % (worst, dl, sname))
    return True


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case['group'] == 'reuse':
        return reuse(case, mon, rng)
    if case['group'] == 'limits':
        return (layer if case['solver'] == 'spbvp' else steps)(case, mon, rng)
    quads = None
    if case['solver'] == 'other':
        quads = 0
    p = None
    while p is None:
        p = nonlinear(rng) if case['family'] == 'nonlinear' else linear(rng, case['family'] != 'infeasible', quads)
    s, sname, tol = make_solver(p, case, rng)
    near = case['family'] == 'infeasible' and tol is not None and rng.random() < 0.6
    if near:
        # the contradiction is small: the best possible residual lies only just above what may be called converged
        p.c0[:2] = np.array([1.0, -1.0]) * limit(tol, sname) * float(rng.uniform(0.8, 6) if rng.random() < 0.6 else 10**rng.uniform(0.3, 2))
    g = guess(p, rng)
    before = snapshot(g)
    key = (case['family'],) + sname + (p.nq, p.nd, p.nn, near)
    if case['solver'] == 'other':
        # only honesty is claimed for these root finders: they may also give up
        try:
            out = s.solve(g)
        except Exception as e:
            mon.seen(key + ('raised',))
            mon.check(all(np.array_equal(a, b) for a, b in zip(snapshot(g), before)), 'input-modified', 'the caller\'s guess was modified')
            return
    elif case['family'] == 'infeasible':
        try:
            out = s.solve(g)
        except (RuntimeError, np.linalg.LinAlgError):
            mon.seen(key + ('raised',))
            return
    else:
        out = mon.under(s.solve, g)
    conv = judge(mon, p, case, g, before, out, sname, tol, key + (bool(out['sol'].converged),))
    if case['family'] == 'infeasible':
        mon.check(not conv, 'infeasible', 'an infeasible problem was flagged as converged by %s' % (sname,))
        return
    if case['solver'] == 'other':
        return
    mon.check(conv, 'not-solved', lambda: 'a benign problem (condition %.1f) was not solved by %s: %s' % (p.kappa, sname, out.get('message')))
    if conv:
        x = np.concatenate([out['sol'].y[0], out['sol'].q[0] if p.nq else [], out['sol'].dynamical_parameters, out['sol'].nondynamical_parameters])
        err = np.abs(x - p.true).max()
        lim = (5e-2 if tol is None or sname[1] in ('fsolve', 'SLSQP') or p.nq else 30 * p.kappa * tol + 1e-4) * (1 + np.abs(p.true).max())
        if tol is not None and p.nq:
            lim *= 2
        mon.check(err <= lim, 'solution', lambda: 'the unique solution is %s, %s returned %s' % (p.true, sname, x))
        mon.sample = {'solver': sname, 'error': float(err), 'nodes': len(out['sol'].t)}


def reuse(case, mon, rng):
    """One solver object, several problems one after the other: the same answers as fresh objects."""
    case = dict(case)
    first = None
    P = []
    while len(P) < 3:
        p = linear(rng, True)
        if p is not None:
            P.append(p)
    for n, p in enumerate(P):
        st = np.random.default_rng(case['seed'] + n)
        fresh, sname, tol = make_solver(p, case, np.random.default_rng(case['seed']))
        if first is None:
            first = fresh
            fresh, sname, tol = make_solver(p, case, np.random.default_rng(case['seed']))
        else:
            first.set_derivative_function(p.f)
            first.set_quadrature_function(p.fq)
            first.set_boundarycondition_function(p.bc)
            jac = sname[1] == 'jac'
            first.set_derivative_jacobian(p.fjac if jac else None)
            first.set_boundarycondition_jacobian(p.bcjac if jac else None)
        g = guess(p, st)
        a, b = mon.under(fresh.solve, copy.deepcopy(g)), mon.under(first.solve, copy.deepcopy(g))
        sa, sb = a['sol'], b['sol']
        mon.check(bool(sa.converged) == bool(sb.converged) and sa.y.shape == sb.y.shape and np.allclose(sa.y, sb.y, rtol=1e-6, atol=1e-6)
                  and np.allclose(sa.t, sb.t), 'reuse', 'a solver object that was used before answers differently from a fresh one',
                  ('reuse',) + sname + (n, p.nq > 0))


def layer(case, mon, rng):
    """Boundary layers need many nodes: the node limit decides, and only the limit, whether collocation may finish."""
    from beluga.numeric.bvp_solvers import SPBVP
    from beluga.numeric.data_classes import Trajectory
    e = float(10**rng.uniform(-2.8, -1.0))
    a, b = rng.normal(size=2) + 2
    quad = bool(rng.random() < 0.4)
    N0 = int(rng.integers(3, 9))

    def f(y, par, k):
        return np.array([y[1], (y[0] - k[0] * np.sin(y[0])) / e**2])

    def fq(y, par, k):
        return np.array([y[0]])

    def bc(y0, yf, par, npar, k):
        return np.array([y0[0] - a, yf[0] - b])

    def bcq(y0, q0, yf, qf, par, npar, k):
        return np.array([y0[0] - a, yf[0] - b, q0[0]])

    def solve(limit):
        kw = {} if limit is None else {'max_nodes': limit}
        s = SPBVP(**kw)
        s.set_derivative_function(f)
        s.set_quadrature_function(fq if quad else None)
        s.set_boundarycondition_function(bcq if quad else bc)
        t = np.linspace(0, 1, N0)
        g = Trajectory(t, np.column_stack([a + (b - a) * t, 0 * t]), np.zeros((N0, 1)) if quad else np.array([]), np.array([]))
        g.dynamical_parameters, g.nondynamical_parameters, g.const = np.array([]), np.array([]), np.array([0.3])
        return mon.under(s.solve, g)
    ref = solve(10**6)
    K = len(ref['sol'].t)
    if not ref['sol'].converged or K <= N0 + 2:
        mon.seen(('limits', 'spbvp', 'ref-not-usable'))
        return
    for limit in (K, K + int(rng.integers(1, 50)), K - 1, int(rng.integers(N0 + 1, K)), None):
        out = solve(limit)
        n, conv = len(out['sol'].t), bool(out['sol'].converged)
        key = ('limits', 'spbvp', quad, 'none' if limit is None else 'ample' if limit >= K else 'short', conv)
        if limit is None:
            # the documented default is at least a thousand
            mon.check(conv or K > 1000, 'limit-default', 'a problem that needs %d nodes is not solved with the default limit' % K, key)
            continue
        mon.check(n <= limit, 'limit-nodes', 'max_nodes=%d but the solution has %d nodes' % (limit, n), key)
        if limit >= K:
            mon.check(conv and n == K and np.allclose(out['sol'].y, ref['sol'].y, rtol=1e-9, atol=1e-9), 'limit-ample',
                      'max_nodes=%d is enough for the %d nodes needed but the answer differs' % (limit, K), key)
        else:
            mon.check(not conv, 'limit-short', 'max_nodes=%d is below the %d nodes needed but the problem is flagged as solved' % (limit, K), key)


def steps(case, mon, rng):
    """The iteration limit of shooting bounds its work, and cuts off only what needs more."""
    from beluga.numeric.bvp_solvers import Shooting
    p = None
    while p is None:
        p = linear(rng, True, R(rng, [0, 0, 1]))
    cub = float(rng.uniform(0.3, 1.0))
    calls = [0]

    def warp(v):
        # monotone, so the solution stays unique while Newton needs several steps
        v = np.asarray(v, float)
        return v + cub * v**3

    if p.nq:
        def bc(y0, q0, yf, qf, par, npar, k):
            calls[0] += 1
            return warp(p.bc(y0, q0, yf, qf, par, npar, k))
    else:
        def bc(y0, yf, par, npar, k):
            calls[0] += 1
            return warp(p.bc(y0, yf, par, npar, k))
    arcs = int(rng.integers(1, 4))
    g = guess(p, rng)
    m = p.n * arcs + p.nq + p.nd + p.nn

    def solve(**kw):
        s = Shooting(algorithm='Armijo', num_arcs=arcs, tolerance=1e-6, ivp_args={'abstol': 1e-9, 'reltol': 1e-9}, **kw)
        s.set_derivative_function(p.f)
        s.set_quadrature_function(p.fq)
        s.set_boundarycondition_function(bc)
        calls[0] = 0
        out = mon.under(s.solve, copy.deepcopy(g))
        return out, calls[0]
    ref, _ = solve(max_error=1e12)
    K = ref['niter']
    mon.check(bool(ref['sol'].converged) and 1 <= K <= 101, 'limit-solved', 'a benign problem was not solved', ('limits', 'shooting', 'ref'))
    for limit in (K, K + 3, max(1, K - 2), 1):
        out, n = solve(max_iterations=limit, max_error=1e12)
        conv = bool(out['sol'].converged)
        key = ('limits', 'shooting', arcs, p.nq, 'ample' if limit >= K else 'short' if limit < K - 1 else 'edge', conv)
        mon.check(n <= (limit + 2) * (3 * m + 12), 'limit-work', 'max_iterations=%d but %d residuals were evaluated' % (limit, n), key)
        mon.check(out['niter'] <= limit + 1, 'limit-iterations', 'max_iterations=%d but %d were made' % (limit, out['niter']), key)
        if limit >= K:
            mon.check(conv and np.allclose(out['sol'].y, ref['sol'].y, rtol=1e-9, atol=1e-9), 'limit-ample',
                      'max_iterations=%d is enough for the %d needed but the answer differs' % (limit, K), key)
        elif limit < K - 1:
            mon.check(not conv, 'limit-short', 'flagged as solved after fewer iterations than needed', key)
    # a residual above max_error after a step stops the search
    out, n = solve(max_error=1e-7)
    mon.check(not out['sol'].converged or out['niter'] <= 1, 'limit-error', 'the search went on although the residual exceeded max_error', ('limits', 'shooting', 'max-error'))
