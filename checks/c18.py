"""C18: solving is repeatable, and leaves what it was given alone."""
import copy
import json
import os
import subprocess
import sys
import numpy as np
from vlib import ocp, loadprobe, buildprobe
from vlib.signals import Undecided

LEVEL = 'exploration'
RULE = ('random problems, guesses (auto, ones, static), continuation strategies and solvers are solved twice with the very same objects, '
        'with fresh objects, with a precompiled problem, and with another logging level, and the results compared bit for bit; fingerprints of '
        'every input object (problem, options, guess, constants) are compared before and after; memory shared between returned trajectories '
        'is looked for by writing into them; one Problem is put through all formulations in random order and compared with fresh ones; '
        'problems are compiled by fresh interpreters with different hash seeds and their values compared; distinct = (group, guess, strategy, '
        'solver, formulation)')
ASSUMPTIONS = ['repeated runs happen on the same machine with the same library versions']


def cases(tier, seed):
    n = {'quick': 32, 'thorough': 500}[tier]
    out = []
    for i in range(n):
        out.append({'group': 'repeat', 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 60, 'cost': 8})
        out.append({'group': 'formulations', 'mode': 'nojit', 'seed': seed * 100003 + 20000 + i, 'timeout': 100, 'cost': 5})
    for i in range(max(4, n // 4)):
        out.append({'group': 'hashes', 'mode': 'nojit', 'seed': seed * 100003 + 40000 + i, 'timeout': 200, 'cost': 12})
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    return {'repeat': repeat, 'formulations': formulations, 'hashes': hashes}[case['group']](case, rng, mon)


def fingerprint(p):
    """Everything a problem states, as text."""
    skip = {'local_compiler', 'sym', 'sym_func', 'func', 'table', 'functional_problem'}

    def fp(o, depth=0):
        if depth > 6:
            return '...'
        if callable(o) and not isinstance(o, type):
            return 'callable'
        if isinstance(o, dict):
            return {str(k): fp(v, depth + 1) for k, v in sorted(o.items(), key=lambda a: str(a[0])) if str(k) not in skip}
        if isinstance(o, (list, tuple)):
            return [fp(a, depth + 1) for a in o]
        if hasattr(o, '__dict__') and type(o).__module__.startswith('beluga'):
            return {'class': type(o).__name__, **fp(vars(o), depth + 1)}
        if isinstance(o, np.ndarray):
            return o.tolist()
        s = repr(o)
        return type(o).__name__ if ' at 0x' in s else s
    return fp(p)


def problem(k, m, drag):
    import beluga
    p = beluga.Problem('again')
    p.independent('t', 's')
    p.state('x', 'v', 'm')
    p.state('v', 'a - k*v' if not drag else 'a - k*dr', 'm/s')
    if drag:
        p.quantity('dr', 'v*w1')
        p.quantity('w1', '1 + 0.1*v**2')
    p.control('a', 'm/s**2')
    for n, v, u in (('k', k, '1/s'), ('x_0', 0.0, 'm'), ('v_0', 0.0, 'm/s'), ('x_f', 0.2, 'm'), ('v_f', 0.0, 'm/s'), ('t_f', 1.0, 's')):
        p.constant(n, v, u)
    p.path_cost('a**2', 'm**2/s**4')
    if m:
        p.path_constraint('a', 'm/s**2', lower='-20', upper='15', activator='ep', method='epstrig')
        p.constant('ep', 1e-3, '1')
    for n, u in (('x - x_0', 'm'), ('v - v_0', 'm/s'), ('t', 's')):
        p.initial_constraint(n, u)
    for n, u in (('x - x_f', 'm'), ('v - v_f', 'm/s'), ('t - t_f', 's')):
        p.terminal_constraint(n, u)
    p.scale(m='x + x_f', s=1)
    return p


def repeat(case, rng, mon):
    import beluga
    from beluga.numeric.data_classes import Trajectory
    k, xf, vf = float(rng.uniform(0.2, 1.0)), float(rng.uniform(0.4, 1.5)), float(rng.uniform(-0.3, 0.3))
    method = R(rng, ['traditional', 'traditional', 'diffyg'])
    cm = R(rng, ['differential', 'algebraic'])
    drag = method == 'traditional' and cm == 'differential' and bool(rng.integers(2))
    gk = R(rng, ['auto', 'ones', 'static'])
    m = method == 'traditional' and cm == 'differential' and bool(rng.random() < 0.25)
    sk = R(rng, ['none', 'bisection', 'manual', 'product', 'two', 'product-reuse'])
    algo = R(rng, ['spbvp', 'Shooting', 'Shooting3'])
    auto = bool(rng.integers(2))
    helper = bool(rng.integers(2)) and gk != 'static'
    if gk == 'ones' or m:
        algo = 'spbvp'

    def solver():
        return beluga.bvp_algorithm('Shooting', num_arcs=3) if algo == 'Shooting3' else beluga.bvp_algorithm(algo)

    def steps():
        if sk == 'none':
            return None
        s = beluga.init_continuation()
        if sk in ('bisection', 'two'):
            s.add_step('bisection', int(3)).const('x_f', xf).const('v_f', vf)
        if sk == 'two':
            s.add_step('bisection').num_cases(2).const('k', 0.1)
        if sk == 'manual':
            s.add_step('manual').num_cases(3).const('x_f', xf)
        if sk.startswith('product'):
            s.add_step('productspace').num_subdivisions(2).const('x_f', xf).const('v_f', vf)
        return s

    N = 6

    def static():
        t = np.linspace(0, 1, N)
        g = Trajectory(t, np.column_stack((xf * 0.1 * t, 0.1 * np.sin(3 * t))), np.array([]), 0.1 * np.cos(t)[:, None])
        g.q = np.zeros((N, 0))
        g.dual = np.column_stack((0.1 * np.ones(N), 0.1 * (1 - t)))
        g.dual_t = np.zeros(N)
        g.dynamical_parameters = np.array([])
        g.nondynamical_parameters = np.array([])
        g.const = np.array([k, 0., 0., 0.2, 0., 1.0] + ([1e-3] if m else []))
        return g

    st = static()

    kept = dict(start=R(rng, [[0., 0.], np.zeros(2)]), costate_guess=R(rng, [0.1, [0.1, 0.2], np.array([0.1, 0.2])]), control_guess=R(rng, [[0.1], np.array([0.1])]))

    def gen():
        if gk == 'static':
            return beluga.guess_generator('static', solinit=st)
        kw = dict(kept, time_integrate=1.0)
        return beluga.guess_generator(gk, **kw)

    opts = {} if cm == 'differential' and rng.random() < 0.5 else {'control_method': cm}
    A = {'p': problem(k, m, drag), 's': steps(), 'g': gen(), 'b': solver(), 'o': opts}
    before = {'problem': fingerprint(A['p']), 'static guess': loadprobe.traj(st), 'options': repr(opts), 'lists': repr(kept)}

    def go(a, **kw):
        return mon.under(beluga.solve, ocp=a['p'], method=method, optim_options=a['o'], bvp_algorithm=a['b'], steps=a['s'], guess_generator=a['g'],
                         autoscale=auto, initial_helper=helper, save_sols=False, **kw)

    try:
        first = beluga.solve(ocp=A['p'], method=method, optim_options=A['o'], bvp_algorithm=A['b'], steps=A['s'], guess_generator=A['g'], autoscale=auto,
                             initial_helper=helper, save_sols=False)
    except RuntimeError as e:
        raise Undecided('no convergence: %s' % e)
    key = (gk, sk, algo, method, cm, auto, helper)
    w1 = loadprobe.sols(first)
    for what, f in (('problem', lambda: fingerprint(A['p'])), ('static guess', lambda: loadprobe.traj(st)), ('options', lambda: repr(opts)),
                    ('lists', lambda: repr(kept))):
        now = f()
        mon.check(now == before[what], 'inputs', lambda: 'solve changed the %s it was given: %s' % (what, diff(before[what], now)), key + (what,))
    if mon.viol:
        return
    # returned trajectories own their data
    flat = [s for st_ in first for s in st_]
    for i, s in enumerate(flat):
        own = [loadprobe.traj(o) for o in flat]
        for f in loadprobe.FIELDS:
            a = getattr(s, f)
            if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
                a += 1.0
        now = [loadprobe.traj(o) for o in flat]
        mon.check(all(x == y for j, (x, y) in enumerate(zip(own, now)) if j != i), 'aliasing', 'writing into one returned trajectory changes another', key + ('alias',))
    mon.check(loadprobe.traj(st) == before['static guess'] and fingerprint(A['p']) == before['problem'], 'aliasing', 'returned trajectories share memory with the guess', key)
    # the same objects again
    w2 = loadprobe.sols(go(A))
    mon.check(w2 == w1, 'repeat', lambda: 'solving again with the same objects gives another result: %s' % diff(w1, w2), key + ('same objects',))
    # fresh objects, possibly another logging level or a problem compiled beforehand
    B = {'p': problem(k, m, drag), 's': steps(), 'g': gen(), 'b': solver(), 'o': dict(opts)}
    how = R(rng, ['fresh', 'compiled', 'logging'])
    if how == 'compiled':
        bvp = mon.under(ocp.to_bvp, problem(k, m, drag), method=method, **opts)
        w3 = loadprobe.sols(go(B, bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol))
    elif how == 'logging':
        import logging
        from beluga.utils.logging import logger
        old = logger.level, logger.handlers, getattr(logger, 'display_level_', None)
        logging.disable(logging.NOTSET)
        err = sys.stderr
        sys.stderr = open(os.devnull, 'w')
        try:
            beluga.add_logger(display_level=logging.DEBUG, file_level=logging.DEBUG, filename='x.log')
            w3 = loadprobe.sols(go(B))
        finally:
            sys.stderr = err
            for h in logger.handlers:
                h.close()
            logger.handlers = old[1]
            logger.setLevel(old[0])
            if old[2] is not None:
                logger.display_level_ = old[2]
            logging.disable(logging.CRITICAL)
    else:
        w3 = loadprobe.sols(go(B))
    mon.check(w3 == w1, 'repeat', lambda: 'solving with equal objects (%s) gives another result: %s' % (how, diff(w1, w3)), key + (how,))
    mon.sample = {'guess': gk, 'strategy': sk, 'solver': algo, 'solutions': [len(a) for a in first], 'converged': [bool(s.converged) for s in flat]}


def diff(a, b, path=''):
    if type(a) is not type(b):
        return '%s: %s vs %s' % (path, str(a)[:100], str(b)[:100])
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if a.get(k) != b.get(k):
                return diff(a.get(k), b.get(k), path + '.' + str(k))
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: %d vs %d entries' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + '[%d]' % i)
    return '%s: %r vs %r' % (path, str(a)[:100], str(b)[:100])


FORMS = [{}, {'method': 'diffyg'}, {'analytical_jacobian': True}, {'do_normalize_time': False},
         {'control_method': 'algebraic'}, {'method': 'diffyg', 'control_method': 'algebraic'}]


def points(rng, bvp, n=3):
    ns = len(bvp.states)
    return [{'y': rng.uniform(0.1, 1.2, ns).tolist(), 'ya': rng.uniform(0.1, 1.2, ns).tolist(), 'yb': rng.uniform(0.1, 1.2, ns).tolist(),
             'p': rng.uniform(0.5, 2, len(bvp.parameters)).tolist(), 'nd': rng.normal(size=len(bvp.constraint_parameters)).tolist(),
             'k': (ocp.const_values(bvp) * rng.uniform(0.9, 1.1, len(bvp.constants))).tolist(), 'q': rng.normal(size=len(bvp.quads)).tolist()}
            for _ in range(n)]


def decorate(rng, spec):
    """Named components and bounds on top of a random problem."""
    x = spec['states'][0][0]
    if rng.random() < 0.5:
        spec['quantities'] = [['qq', '2*%s + qr' % x], ['qr', 'cos(%s)' % x]]
        spec['states'][-1][1] += ' + 0.1*qq'
    if rng.random() < 0.4:
        spec['switches'] = [['sw', ['1.5*%s' % x, '%s**2' % x], [['%s - 0.4' % x], ['0.4 - %s' % x]], 'tolsw']]
        spec['constants'].append(['tolsw', 0.1, '1'])
        spec['cost']['path'] += ' + sw'
    if rng.random() < 0.3:
        spec['path'] = [[spec['states'][0][0], 'm', dict(lower='-6', upper='7', activator='ee', method='utm')]]
        spec['constants'].append(['ee', 0.1, 'm'])
    return spec


def formulations(case, rng, mon):
    affine = bool(rng.integers(2))
    spec = decorate(rng, ocp.random_spec(rng, affine=affine, n_states=int(rng.integers(1, 3)), n_controls=1, max_terms=2))
    forms = [f for f in FORMS if affine or f.get('control_method') != 'algebraic']
    if any('sw' in str(spec.get(a)) for a in ('switches',)):
        forms = [f for f in forms if f.get('control_method') != 'algebraic']
    forms = [forms[i] for i in rng.permutation(len(forms))[:3]]
    p = ocp.build_problem(spec)
    before = fingerprint(p)
    for j, f in enumerate(forms):
        shared = mon.under(ocp.to_bvp, p, **f)
        fresh = mon.under(ocp.to_bvp, ocp.build_problem(spec), **f)
        now = fingerprint(p)
        key = ('formulations', j, str(sorted(f.items())), 'path' in spec, 'switches' in spec, 'quantities' in spec)
        mon.check(now == before, 'inputs', lambda: 'compiling (%s) changed the problem: %s' % (f, diff(before, now)), key)
        a, b = loadprobe.structure(shared), loadprobe.structure(fresh)
        if not mon.check(a == b, 'repeat', lambda: 'a problem used before compiles differently (%s): %s' % (f, diff(b, a)), key + ('structure',)):
            return
        pts = points(rng, fresh)
        va, vb = mon.under(loadprobe.evaluate, shared, pts), mon.under(loadprobe.evaluate, fresh, pts)
        mon.check(same(va, vb), 'repeat', lambda: 'a problem used before computes %s instead of %s (%s)' % (va, vb, f), key + ('values',))
    mon.sample = {'forms': [str(f) for f in forms]}


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and a and isinstance(a[0], (list, dict)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    x, y = np.asarray(a, float), np.asarray(b, float)
    if x.shape != y.shape:
        return False
    ok = np.isclose(x, y, rtol=1e-7, atol=1e-9 * (1 + (np.nanmax(np.abs(x[np.isfinite(x)])) if np.isfinite(x).any() else 0)), equal_nan=True)
    return bool(np.all(ok | ~np.isfinite(x) & ~np.isfinite(y)))


def hashes(case, rng, mon):
    specs, pts = [], []
    for j in range(3):
        affine = bool(rng.integers(2))
        spec = decorate(rng, ocp.random_spec(rng, affine=affine, n_states=int(rng.integers(1, 4)), n_controls=1 if affine else None, max_terms=2))
        forms = [f for f in FORMS if affine and 'switches' not in spec or f.get('control_method') != 'algebraic']
        f = R(rng, forms)
        bvp = mon.under(ocp.to_bvp, ocp.build_problem(spec), **f)
        specs.append([spec, f, points(rng, bvp)])
    res = {}
    for h in ('0', '1', '12345'):
        r = subprocess.run([sys.executable, buildprobe.__file__], input=json.dumps({'specs': specs}), capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=h), timeout=180)
        line = r.stdout.strip().splitlines()
        if not line:
            mon.fail('process', 'compiling process died: rc %s %s' % (r.returncode, r.stderr[-400:]))
            return
        res[h] = json.loads(line[-1])
        if not mon.check('ok' in res[h], 'hash', lambda: 'compiling under hash seed %s failed: %s' % (h, res[h]['error']), ('hash', h)):
            return
    for h in ('1', '12345'):
        for j, (a, b) in enumerate(zip(res['0']['ok'], res[h]['ok'])):
            key = ('hash', str(sorted(specs[j][1].items())), len(specs[j][0]['states']))
            mon.check(a['structure'] == b['structure'] and a['nd'] == b['nd'], 'hash', lambda: 'the compiled problem depends on the hash seed: %s' % diff(a, b), key + ('structure',))
            mon.check(same(a['values'], b['values']), 'hash', lambda: 'values depend on the hash seed: %s vs %s' % (a['values'], b['values']), key + ('values',))
    mon.sample = {'problems': len(specs), 'hash seeds': 3}
