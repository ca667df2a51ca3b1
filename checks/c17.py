"""C17: what is saved is what is loaded, in another process too."""
import copy
import json
import os
import subprocess
import sys
import numpy as np
from vlib import ocp
from vlib import loadprobe

LEVEL = 'exploration'
RULE = ('random solution sets (ragged nesting, empty, single-node and large arrays, infinities and NaN, several interpolation kinds) are '
        'saved over older, longer files and loaded by a fresh interpreter with another hash seed, field by field and bit for bit; random '
        'problems (named components, inequality constraints, symmetries, all formulations, interpreted and compiled) are saved with their '
        'compiled form and the loaded functions, maps and recompiled problem compared with the live ones; files written by solve are '
        'compared with what solve returned and used to start again; distinct = (group, contents, shapes / formulation)')
ASSUMPTIONS = ['the file is loaded with the same versions of beluga and its libraries']


def cases(tier, seed):
    n = {'quick': 10, 'thorough': 150}[tier]
    out = []
    for i in range(n * 4):
        out.append({'group': 'solutions', 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 60, 'cost': 2})
    for i in range(n * 3):
        out.append({'group': 'problem', 'mode': 'nojit', 'seed': seed * 100003 + 50000 + i, 'timeout': 90, 'cost': 4})
    for i in range(max(3, n // 4)):
        out.append({'group': 'problem', 'mode': 'jit', 'seed': seed * 100003 + 60000 + i, 'timeout': 240, 'cost': 15})
    for i in range(2 * n):
        out.append({'group': 'solve', 'mode': 'nojit', 'seed': seed * 100003 + 70000 + i, 'timeout': 150, 'cost': 8})
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def probe(path, req, hashseed=7):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    r = subprocess.run([sys.executable, loadprobe.__file__, path], input=json.dumps(req), capture_output=True, text=True, env=env, timeout=200)
    line = r.stdout.strip().splitlines()
    if not line:
        return {'error': 'loading process died: rc %s %s' % (r.returncode, r.stderr[-500:])}
    return json.loads(line[-1])


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    return {'solutions': solutions, 'problem': problem, 'solve': solve}[case['group']](case, rng, mon)


def random_traj(rng):
    from beluga.numeric.data_classes import Trajectory
    N = R(rng, [0, 1, 2, 7, 40, 400])
    kind = R(rng, ['linear', 'linear', 'cubic'])
    arr = lambda d: np.array([]) if d == 0 else rng.normal(size=(N, d)) if rng.random() < 0.8 else rng.normal(size=N)
    t = np.cumsum(rng.uniform(0.01, 1, N)) if N else np.array([])
    s = Trajectory(t, arr(R(rng, [1, 2, 5])), arr(R(rng, [0, 1, 3])), arr(R(rng, [0, 1, 2])), interpolation_type=kind)
    s.dual, s.dual_t, s.dual_u = arr(R(rng, [0, 2, 5])), arr(R(rng, [0, 1])), arr(R(rng, [0, 1, 2]))
    s.dynamical_parameters, s.nondynamical_parameters, s.const = (rng.normal(size=R(rng, [0, 1, 6])) for _ in range(3))
    s.converged = bool(rng.integers(2))
    s.cost = R(rng, [float(rng.normal()), np.nan, np.inf, 0.0])
    if s.const.size and rng.random() < 0.3:
        s.const[0] = R(rng, [np.inf, np.nan, 5e-324, -0.0, 1e308])
    return s


def solutions(case, rng, mon):
    from beluga.utils import save, load
    shape = R(rng, ['one', 'flat', 'ragged', 'empty', 'shared'])
    if shape == 'one':
        data = random_traj(rng)
    elif shape == 'flat':
        data = [random_traj(rng) for _ in range(3)]
    elif shape == 'empty':
        data = R(rng, [[], [[]]])
    elif shape == 'shared':
        a = random_traj(rng)
        data = [[a, a], [copy.deepcopy(a)]]
    else:
        data = [[random_traj(rng) for _ in range(int(rng.integers(0, 4)))] for _ in range(int(rng.integers(1, 4)))]
    want = loadprobe.sols(data)
    name = R(rng, ['data.beluga', 'a b.dat', os.path.join('sub dir', 'x'), os.path.abspath('abs.beluga')])
    os.makedirs('sub dir', exist_ok=True)
    older = bool(rng.integers(2))
    if older:
        with open(name, 'wb') as f:
            f.write(os.urandom(200000))
    others = set(os.listdir('.'))
    with_ocp = bool(rng.integers(2))
    p = ocp.build_problem(ocp.random_spec(rng)) if with_ocp else None
    mon.under(save, data, p, filename=name)
    mon.check(loadprobe.sols(data) == want, 'altered', 'saving changed the solutions')
    # what is in memory may change afterwards
    flat = data
    while isinstance(flat, list) and flat:
        flat = flat[0]
    if not isinstance(flat, list):
        flat.const = np.array([-99.0])
    live = mon.under(load, name)
    got = probe(name, {})
    key = (shape, older, with_ocp, os.path.basename(name))
    if mon.check('error' not in got, 'load', lambda: 'loading in a fresh process failed: %s' % got['error'], key):
        mon.check(got['keys'] == sorted(['solutions'] + (['ocp'] if with_ocp else [])), 'keys', lambda: 'the file holds %s' % got['keys'])
        mon.check(got.get('solutions') == want, 'contents', lambda: 'loaded solutions differ from the saved ones: %s' % diff(want, got.get('solutions')), key + ('fresh',))
    mon.check(loadprobe.sols(live.get('solutions')) == want, 'contents', lambda: 'loaded solutions differ: %s' % diff(want, loadprobe.sols(live.get('solutions'))), key + ('live',))
    mon.check(set(os.listdir('.')) <= others | {name, os.path.basename(name)}, 'files', 'saving left other files behind')
    os.remove(name)
    mon.sample = {'shape': shape, 'file': os.path.basename(name)}


def diff(a, b, path=''):
    if type(a) is not type(b):
        return '%s: %s vs %s' % (path, type(a).__name__, type(b).__name__)
    if isinstance(a, dict):
        for k in a:
            if a[k] != b.get(k):
                return diff(a[k], b.get(k), path + '.' + str(k))
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: %d vs %d entries' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + '[%d]' % i)
    return '%s: %r vs %r' % (path, str(a)[:80], str(b)[:80])


def close(a, b):
    if isinstance(a, (dict,)):
        return isinstance(b, dict) and a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list) and a and isinstance(a[0], (list, dict)):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    x, y = np.asarray(a, float), np.asarray(b, float)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True)


def problem(case, rng, mon):
    c = float(rng.uniform(0.2, 0.8))

    def user_fun(a):
        return a ** 2 * c + a
    from beluga.utils import save, load
    kind = R(rng, ['plain', 'plain', 'algebraic', 'diffyg', 'jacobian', 'named', 'bounded', 'reduced'])
    opts = {}
    spec = ocp.random_spec(rng, affine=kind == 'algebraic', n_states=int(rng.integers(1, 4)), n_controls=1 if kind == 'algebraic' else None)
    if kind == 'algebraic':
        opts['control_method'] = 'algebraic'
    elif kind == 'diffyg':
        opts['method'] = 'diffyg'
    elif kind == 'jacobian':
        opts['analytical_jacobian'] = True
    elif kind == 'named':
        x = spec['states'][0][0]
        u = spec['controls'][0][0]
        spec['quantities'] = [['qq', '2*%s + qr' % x], ['qr', 'cos(%s)' % x]]
        spec['states'][0][1] += ' + 0.1*qq'
        spec['switches'] = [['sw', ['1.5*%s' % x, '%s**2' % x], [['%s - 0.4' % x], ['0.4 - %s' % x]], 'tolsw']]
        spec['constants'].append(['tolsw', 0.1, '1'])
        spec['cost']['path'] += ' + sw'
        spec['functions'] = [['fun', user_fun, '1', ['1']]]
        spec['tables'] = [['tab', '1d_spline', (np.linspace(0, 5, 9) ** 2).tolist(), np.linspace(0, 5, 9).tolist(), '1', ['1']]]
        spec['states'][-1][1] += ' + fun(%s) + tab(1 + 0.1*%s**2)' % (x, x)
        if rng.random() < 0.6:
            def user_two(a, b):
                return a * a * b * c + b * b - a
            spec['functions'].append(['ftwo', user_two, '1', ['1', '1']])
            spec['cost']['path'] += ' + 0.1*ftwo(%s, 0.5*%s)' % (x, spec['states'][-1][0])
            opts['analytical_jacobian'] = True
    elif kind == 'bounded':
        u = spec['controls'][0][0]
        spec['path'] = [[u, 'rad', dict(lower='-6', upper='7', activator='ee', method='utm')]]
        spec['constants'].append(['ee', 0.1, 'rad'])
    elif kind == 'reduced':
        spec['states'].append(['cyc', spec['states'][0][0], 'm'])
        spec['symmetries'] = [[['0'] * (len(spec['states']) - 1) + ['1'], 'm']]
        spec['initial'].append(['cyc', 'm'])
        opts.update(method='diffyg', reduction=True)
    p = ocp.build_problem(spec)
    bvp = mon.under(ocp.to_bvp, p, **opts)
    n = len(bvp.states)
    pts = []
    for _ in range(3):
        pts.append({'y': rng.uniform(0.1, 1.2, n).tolist(), 'ya': rng.uniform(0.1, 1.2, n).tolist(), 'yb': rng.uniform(0.1, 1.2, n).tolist(),
                    'p': rng.uniform(0.5, 2, len(bvp.parameters)).tolist(), 'nd': rng.normal(size=len(bvp.constraint_parameters)).tolist(),
                    'k': (ocp.const_values(bvp) * rng.uniform(0.9, 1.1, len(bvp.constants))).tolist(), 'q': rng.normal(size=len(bvp.quads)).tolist()})
    want = mon.under(loadprobe.evaluate, bvp, pts)
    N = 5
    S = {'t': np.linspace(0, 1.3, N).tolist(), 'y': rng.uniform(0.1, 1, (N, len(spec['states']))).tolist(), 'dual': rng.normal(size=(N, len(spec['states']))).tolist(),
         'u': rng.uniform(0.1, 1, (N, len(spec['controls']))).tolist(), 'q': [], 'dual_t': rng.normal(size=N).tolist(), 'const': pts[0]['k']}
    from beluga.numeric.data_classes import Trajectory

    def mapped(b):
        s = Trajectory()
        for f, v in S.items():
            setattr(s, f, np.array(v, float))
        s.q = np.zeros((N, 0))
        m = b.map_sol(s)
        d = loadprobe.traj(m)
        return d, loadprobe.traj(b.inv_map_sol(m))
    wm, wb = mon.under(mapped, bvp)
    before = loadprobe.structure(p)
    mon.under(save, None, p, bvp, 'prob.beluga')
    mon.check(loadprobe.structure(p) == before, 'altered', 'saving changed the problem')
    again = mon.under(loadprobe.evaluate, bvp, pts)
    mon.check(again == want or close(again, want), 'altered', 'saving changed what the compiled problem computes')
    got = probe('prob.beluga', {'points': pts, 'map': S, 'recompile': opts if case['mode'] == 'nojit' else None}, hashseed=0)
    os.remove('prob.beluga')
    key = (case['group'], case['mode'], kind, len(spec['states']), len(spec['controls']))
    if not mon.check('error' not in got, 'load', lambda: 'loading in a fresh process failed: %s' % got['error'], key):
        return
    mon.check(got['keys'] == ['bvp', 'ocp'], 'keys', lambda: 'the file holds %s' % got['keys'])
    mon.check(got['ocp'] == before and got['bvp'] == loadprobe.structure(bvp), 'structure', lambda: 'loaded problem differs: %s %s' % (diff(before, got['ocp']), diff(loadprobe.structure(bvp), got['bvp'])), key + ('structure',))
    mon.check(close(got['values'], want), 'functions', lambda: 'loaded functions return %s instead of %s' % (got['values'], want), key + ('functions',))
    for what, a, b in (('mapped', got['mapped'], wm), ('mapped back', got['back'], wb)):
        mon.check(same_traj(a, b), 'maps', lambda: 'the loaded maps give another %s trajectory: %s' % (what, diff(b, a)), key + (what,))
    if 'recompiled' in got:
        mon.check(close(got['recompiled'], want), 'recompiled', lambda: 'the loaded problem compiles to functions returning %s instead of %s' % (got['recompiled'], want), key + ('recompiled',))
    mon.sample = {'kind': kind, 'states': bvp.states.__len__(), 'opts': {k: str(v) for k, v in opts.items()}}


def same_traj(a, b):
    if a.keys() != b.keys():
        return False
    for f in loadprobe.FIELDS:
        if a[f].get('shape') != b[f].get('shape'):
            return False
        if 'hex' in a[f]:
            x, y = (np.frombuffer(bytes.fromhex(v['hex']), v['dtype']) for v in (a[f], b[f]))
            if not np.allclose(np.asarray(x, complex), np.asarray(y, complex), rtol=1e-9, atol=1e-9, equal_nan=True):
                return False
    return True


def solve(case, rng, mon):
    import beluga
    k, xf = float(rng.uniform(0.2, 1.0)), float(rng.uniform(0.5, 2))
    p = beluga.Problem('saved')
    p.independent('t', 's')
    p.state('x', 'v', 'm')
    p.state('v', 'a - k*v', 'm/s')
    p.control('a', 'm/s**2')
    p.constant('k', k, '1/s')
    p.constant('x_f', 0.2, 'm')
    p.path_cost('a**2', 'm**2/s**4')
    for n, u in (('x', 'm'), ('v', 'm/s'), ('t', 's')):
        p.initial_constraint(n, u)
    p.terminal_constraint('x - x_f', 'm')
    p.terminal_constraint('v', 'm/s')
    p.terminal_constraint('t - 1', 's')
    p.scale(m='x + x_f', s=1)
    steps = beluga.init_continuation()
    steps.add_step('bisection', 3).const('x_f', xf)
    if rng.integers(2):
        steps.add_step('bisection', 2).const('k', 0.1)
    cm = R(rng, ['differential', 'algebraic'])
    algo = R(rng, ['spbvp', 'Shooting'])
    ss = R(rng, [True, 'sub.beluga', 'other name', False])
    method, gk = R(rng, ['traditional', 'indirect', 'diffyg']), R(rng, ['auto', 'auto', 'ones'])
    for f in os.listdir('.'):
        if f.endswith('.beluga') or f == 'other name':
            os.remove(f)
    before = set(os.listdir('.'))
    out = mon.under(beluga.solve, ocp=p, method=method, optim_options={'control_method': cm}, bvp_algorithm=beluga.bvp_algorithm(algo),
                    steps=steps, guess_generator=beluga.guess_generator(gk, start=[0., 0.], costate_guess=0.1, control_guess=[0.1], time_integrate=1.0),
                    autoscale=bool(rng.integers(2)), save_sols=ss)
    new = set(os.listdir('.')) - before - {'beluga.log'}
    name = None if ss is False else 'data.beluga' if ss is True else ss
    key = ('solve', cm, algo, str(ss), method, gk)
    mon.check(new == ({name} if name else set()), 'files', lambda: 'save_sols=%r wrote %s' % (ss, sorted(new)), key)
    if name is None or mon.viol:
        return
    tq = np.linspace(0.05, 0.95, 7).tolist()
    got = probe(name, {'at': tq})
    if not mon.check('error' not in got, 'load', lambda: 'loading in a fresh process failed: %s' % got['error'], key):
        return
    mon.check(got['keys'] == ['bvp', 'ocp', 'solutions'], 'keys', lambda: 'the file holds %s' % got['keys'])
    mon.check(got['solutions'] == loadprobe.sols(out), 'contents', lambda: 'the file holds other solutions than solve returned: %s' % diff(loadprobe.sols(out), got['solutions']), key)
    mon.check(got['interp'] == [loadprobe.enc(a) for a in out[-1][-1](tq)], 'contents', 'the loaded solution interpolates differently', key)
    mon.check(got['ocp'] == loadprobe.structure(p), 'structure', lambda: 'saved problem %s' % got['ocp'], key)
    # start again from the file
    d = mon.under(beluga.utils.load, name)
    os.remove(name)
    s0 = d['solutions'][-1][-1]
    for turn in range(2):
        again = mon.under(beluga.solve, ocp=d['ocp'], method=method, optim_options={'control_method': cm}, bvp_algorithm=beluga.bvp_algorithm(algo), steps=None,
                          guess_generator=beluga.guess_generator('static', solinit=copy.deepcopy(s0)), autoscale=bool(turn), save_sols=False)[-1][-1]
        mon.check(bool(again.converged) and abs(again.cost - out[-1][-1].cost) < 1e-2 * (1 + abs(again.cost)) and np.allclose(again.const, out[-1][-1].const), 'restart',
                  lambda: 'starting again from the file: converged %s cost %r instead of %r' % (again.converged, again.cost, out[-1][-1].cost), key + (turn,))
        s0 = again
    mon.sample = {'file': name, 'solutions': [len(a) for a in out]}
