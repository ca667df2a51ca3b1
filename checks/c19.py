"""C19: shooting with a pool of processes answers as shooting without one."""
import copy
import os
import numpy as np
from vlib import loadprobe, counter
from vlib.runner import load_check

LEVEL = 'exploration'
RULE = ('random linear and nonlinear boundary-value problems (1-4 states, quadratures, parameters, multipliers) are solved by shooting '
        'with 1-6 arcs and several root finders, without a pool, with hostile stand-in pools (tasks run in any order, on serialised copies of '
        'function and arguments, results copied back, inputs scribbled over afterwards) and with real process pools whose workers are delayed '
        'at random; results are compared bit for bit and task accounting (every arc propagated exactly once per call, results in arc order, '
        'errors of workers reported) is checked; whole solves with n_cpus 1, 2 and 3 compared; distinct = (pool, family, algorithm, arcs, '
        'quadratures)')
ASSUMPTIONS = ['the pool returns results in the order of the tasks, as multiprocessing pools promise']


def cases(tier, seed):
    n = {'quick': 40, 'thorough': 1500}[tier]
    out = []
    for i in range(n):
        out.append({'group': 'standin', 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 60, 'cost': 1.5})
    for i in range(n // 4):
        out.append({'group': 'processes', 'mode': 'nojit', 'seed': seed * 100003 + 30000 + i, 'timeout': 120, 'cost': 6})
    for i in range(2 * n):
        out.append({'group': 'error', 'mode': 'nojit', 'seed': seed * 100003 + 40000 + i, 'timeout': 60, 'cost': 2})
    for i in range(max(4, n // 10)):
        out.append({'group': 'solve', 'mode': 'nojit', 'seed': seed * 100003 + 50000 + i, 'timeout': 150, 'cost': 12})
    for i in range(max(1, n // 40)):
        out.append({'group': 'solve', 'mode': 'jit', 'seed': seed * 100003 + 60000 + i, 'timeout': 300, 'cost': 30})
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


class StandIn:
    """A pool in one process that does to its tasks what a pool of processes may do."""
    def __init__(self, rng, log):
        self.rng, self.log = rng, log

    def map(self, fn, tasks, *a, **k):
        import dill
        tasks = list(tasks)
        out = [None] * len(tasks)
        blob = dill.dumps(fn)
        # the arguments are serialised when the tasks are sent, before any of them runs
        sent = [dill.dumps(t) for t in tasks]
        self.log.append(len(tasks))
        for i in self.rng.permutation(len(tasks)):
            res = dill.loads(blob)(dill.loads(sent[i]))
            out[i] = dill.loads(dill.dumps(res))
        return out

    # the other ways a pool can be asked for the same work
    def starmap(self, fn, tasks, *a, **k):
        return self.map(lambda t: fn(*t), tasks)

    def imap(self, fn, tasks, *a, **k):
        return iter(self.map(fn, tasks))

    def imap_unordered(self, fn, tasks, *a, **k):
        out = self.map(fn, tasks)
        return iter([out[i] for i in self.rng.permutation(len(out))])

    def map_async(self, fn, tasks, *a, **k):
        return Later(lambda: self.map(fn, tasks))

    def starmap_async(self, fn, tasks, *a, **k):
        return Later(lambda: self.starmap(fn, tasks))

    def apply(self, fn, args=(), kwds=None):
        return self.map(lambda t: fn(*t, **(kwds or {})), [args])[0]

    def apply_async(self, fn, args=(), kwds=None, *a, **k):
        return Later(lambda: self.apply(fn, args, kwds))


class Later:
    def __init__(self, fn):
        self.fn = fn

    def get(self, timeout=None):
        if self.fn is not None:
            self.val, self.fn = self.fn(), None
        return self.val

    def wait(self, timeout=None):
        self.get()

    def ready(self):
        return True

    def successful(self):
        self.get()
        return True


def build(rng):
    c04 = load_check('C04')
    fam = R(rng, ['linear', 'linear', 'nonlinear'])
    p = None
    while p is None:
        p = c04.linear(rng, True, quads=R(rng, [None, 0])) if fam == 'linear' else c04.nonlinear(rng)
    alg = R(rng, ['Armijo', 'Armijo', 'Armijo', 'hybr', 'fsolve', 'lm'])
    if alg == 'lm' and p.nn:
        alg = 'Armijo'
    arcs = int(rng.integers(1, 7))
    g = c04.guess(p, rng)
    return p, fam, alg, arcs, g


def solver(p, alg, arcs):
    from beluga.numeric.bvp_solvers import Shooting
    s = Shooting(algorithm=alg, num_arcs=arcs, tolerance=1e-5, ivp_args={'abstol': 1e-8, 'reltol': 1e-8})
    s.set_derivative_function(p.f)
    s.set_quadrature_function(p.fq)
    s.set_boundarycondition_function(p.bc)
    return s


def attempt(s, g, **kw):
    try:
        r = s.solve(copy.deepcopy(g), **kw)
        return 'ok', r
    except Exception as e:
        return 'raised', type(e).__name__


def same(mon, a, b, key, what):
    if not mon.check(a[0] == b[0], 'differs', lambda: 'serial: %s, %s: %s' % (a if a[0] != 'ok' else 'answers', what, b if b[0] != 'ok' else 'answers'), key):
        return
    if a[0] != 'ok':
        return
    ra, rb = a[1], b[1]
    x, y = loadprobe.traj(ra['sol']), loadprobe.traj(rb['sol'])
    bad = [f for f in x if x[f] != y[f]]
    mon.check(not bad, 'differs', lambda: '%s gives another %s: %s instead of %s' % (what, bad, [getattr(rb['sol'], f) for f in bad[:2]], [getattr(ra['sol'], f) for f in bad[:2]]),
              key + ('sol',))
    mon.check(ra['niter'] == rb['niter'] and bool(ra['success']) == bool(rb['success']) and ra['message'] == rb['message'], 'differs',
              lambda: '%s reports %s' % (what, (rb['niter'], rb['success'], rb['message'])), key + ('report',))


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case['group'] == 'solve':
        return solve(case, rng, mon)
    p, fam, alg, arcs, g = build(rng)
    key = (case['group'], fam, alg, arcs, p.nq, p.nd)
    before = loadprobe.traj(g)
    serial = attempt(solver(p, alg, arcs), g)
    if case['group'] == 'standin':
        log = []
        f0 = p.f

        def counted(y, par, k):
            counter.bump(np.array(y, float))
            return f0(y, par, k)
        p.f = counted
        counter.reset()
        serial2 = attempt(solver(p, alg, arcs), g)
        alone = dict(counter.SEEN)
        counter.reset()
        par = attempt(solver(p, alg, arcs), g, pool=StandIn(rng, log))
        pooled = dict(counter.SEEN)
        p.f = f0
        same(mon, serial, serial2, key, 'a watched solver')
        same(mon, serial, par, key, 'a pool')
        mon.check(len(log) > 0, 'tasks', 'nothing was sent to the pool', key + ('tasks',))
        mon.check(alone == pooled, 'once', lambda: 'the arcs are not propagated exactly once: %d rate evaluations with a pool, %d without; %d points differ' % (
            sum(pooled.values()), sum(alone.values()), len(set(alone.items()) ^ set(pooled.items()))), key + ('once',))
        mon.count('rate evaluations compared', sum(alone.values()))
        # the same solver object with and without a pool, alternating
        s = solver(p, alg, arcs)
        a1 = attempt(s, g, pool=StandIn(rng, []))
        same(mon, serial, a1, key, 'a pool')
        a2 = attempt(s, g)
        same(mon, serial, a2, key, 'the same solver without a pool')
        mon.check(loadprobe.traj(g) == before, 'guess', 'the guess was changed')
        mon.count('pool calls', len(log))
        mon.sample = {'family': fam, 'algorithm': alg, 'arcs': arcs, 'pool calls': len(log), 'converged': bool(serial[1]['sol'].converged) if serial[0] == 'ok' else serial}
        return
    if case['group'] == 'error':
        # a worker that fails must not be mistaken for an answer
        calls = {'n': 0}
        if rng.random() < 0.25:
            class Broken(StandIn):
                def map(self, fn, tasks, *a, **k):
                    tasks = list(tasks)
                    calls['n'] += 1
                    if calls['n'] >= 2:
                        raise RuntimeError('worker died')
                    return super().map(fn, tasks)
            r = attempt(solver(p, alg, arcs), g, pool=Broken(rng, []))
            mon.check(r[0] == 'raised' and r[1] == 'RuntimeError', 'error', lambda: 'a failing pool was answered with %s' % (r,), key)
            return
        kind = R(rng, sorted(counter.KINDS))
        f0 = p.f

        def breaks(y, par, k):
            counter.bump(np.array(y, float))
            return f0(y, par, k)
        p.f = breaks
        trip = (int(rng.integers(1, 40)), kind)
        counter.reset(trip)
        a = attempt(solver(p, alg, arcs), g)
        counter.reset(trip)
        real = rng.random() < 0.3
        if real:
            import pathos
            pool = pathos.multiprocessing.Pool(processes=2)
        else:
            pool = StandIn(rng, [])
        try:
            b = attempt(solver(p, alg, arcs), g, pool=pool)
        finally:
            counter.reset()
            if real:
                pool.terminate()
                pool.join()
        mon.check(a[0] == 'raised' and a == b, 'error', lambda: 'an arc that fails with %s is answered with %s by a pool, %s without' % (kind, b, a), key + (kind, real))
        return
    import pathos
    import time
    f0 = p.f
    delays = rng.uniform(0, 0.003, 8)
    state = {'n': 0}

    def slow(y, par, k):
        state['n'] += 1
        if state['n'] % 97 == 0:
            time.sleep(delays[state['n'] % 8])
        return f0(y, par, k)
    pool = pathos.multiprocessing.Pool(processes=int(rng.integers(2, 4)))
    try:
        p.f = slow
        s = solver(p, alg, arcs)
        p.f = f0
        par = attempt(s, g, pool=pool)
    finally:
        pool.terminate()
        pool.join()
    same(mon, serial, par, key, 'a pool of processes')
    mon.sample = {'family': fam, 'algorithm': alg, 'arcs': arcs}


def solve(case, rng, mon):
    import beluga
    k, xf = float(rng.uniform(0.2, 1.0)), float(rng.uniform(0.4, 1.5))
    cm = R(rng, ['differential', 'algebraic'])
    arcs = int(rng.integers(2, 5))
    auto = bool(rng.integers(2))
    outs = []
    for n in (1, R(rng, [2, 3])):
        p = beluga.Problem('par')
        p.independent('t', 's')
        p.state('x', 'v', 'm')
        p.state('v', 'a - k*v', 'm/s')
        p.control('a', 'm/s**2')
        for c, v, u in (('k', k, '1/s'), ('x_f', 0.2, 'm')):
            p.constant(c, v, u)
        p.path_cost('a**2 + 0.1*x**2', 'm**2/s**4')
        for c, u in (('x', 'm'), ('v', 'm/s'), ('t', 's')):
            p.initial_constraint(c, u)
        for c, u in (('x - x_f', 'm'), ('v', 'm/s'), ('t - 1', 's')):
            p.terminal_constraint(c, u)
        p.scale(m='x + x_f', s=1)
        steps = beluga.init_continuation()
        steps.add_step('bisection', 3).const('x_f', xf)
        out = mon.under(beluga.solve, ocp=p, method='traditional', optim_options={'control_method': cm},
                        bvp_algorithm=beluga.bvp_algorithm('Shooting', num_arcs=arcs), steps=steps, n_cpus=n,
                        guess_generator=beluga.guess_generator('auto', start=[0., 0.], costate_guess=0.1, control_guess=[0.1], time_integrate=1.0),
                        autoscale=auto, save_sols=False)
        outs.append(loadprobe.sols(out))
    mon.check(outs[0] == outs[1], 'differs', 'solve with several processes gives another result than with one', (case['group'], case['mode'], cm, arcs, auto))
    mon.sample = {'arcs': arcs, 'control': cm}
