"""C06: every continuation case starts from the nearest converged solution, results are handed on and recorded, nothing leaks."""
import copy
import numpy as np
from vlib import cont
from vlib.runner import load_check

LEVEL = 'exploration'
RULE = ('random chains of continuation steps driven by a scripted solver that marks every trajectory it returns, converges or fails '
        'by several policies, and (hostile mode) scribbles over the guesses it was given and the solutions it returned; a trace '
        'checker follows which trajectory every guess came from; distinct = (strategies, hostile, failures, source of guess)')
ASSUMPTIONS = ['nearest = smallest sum of absolute differences of the constants; any of several equally near ones is accepted']


def cases(tier, seed):
    n = {'quick': 1800, 'thorough': 15000}[tier]
    return [{'group': ['line', 'product', 'chain', 'hostile', 'single'][i % 5], 'mode': 'nojit', 'seed': seed * 100003 + i,
             'timeout': 40, 'cost': 0.2, 'autoscale': i % 3 == 0, 'solve': i % 4 == 1} for i in range(n)]


def run(case, mon):
    import beluga
    C5 = load_check('C05')
    rng = np.random.default_rng(case['seed'])
    g = case['group']
    hostile = g == 'hostile'
    auto = case['autoscale'] and not hostile
    cur = np.array([dict((c[0], c[1]) for c in cont.CONSTS)[n] for n in cont.kidx()])
    guess = cont.start_guess(rng, cur)
    guess.y[0, 0] = 77.0
    before = copy.deepcopy(guess)
    log = []
    run_set = cont.run_solve if case.get('solve') else cont.run_set
    seen_as = (lambda s: cont.bvp().inv_map_sol(copy.deepcopy(s))) if case.get('solve') else (lambda s: s)
    flag = [bool, np.bool_][case['seed'] % 2]
    if g == 'single':
        ok = bool(rng.random() < 0.5)
        sols = mon.under(run_set, None, guess, cont.make_solver(lambda i, k: ok, log, flag=flag), auto)
        mon.check(len(log) == 1 and log[0]['mark'] == 77.0 and np.array_equal(log[0]['const'], cur), 'guess',
                  'without steps the solver must be called once with the guess', ('single', ok, auto))
        mon.check(len(sols) == 1 and len(sols[0]) == 1 and sols[0][0].y[0, 0] == 1000.0 and bool(sols[0][0].converged) == ok, 'record',
                  'without steps the one solution must be returned')
        return
    kinds = {'line': ['manual', 'bisection'][int(rng.integers(2)):][:1], 'product': [C5.R(rng, ['product', 'sparse'])]}.get(g) or \
        [C5.R(rng, ['manual', 'bisection', 'bisection', 'product', 'sparse']) for _ in range(int(rng.integers(2, 4)))]
    steps, x, specs = beluga.init_continuation(), cur.copy(), []
    for kind in kinds:
        s = C5.draw_step(rng, kind, x)
        if s['kind'] in ('product', 'sparse'):
            s['target'] = dict(list(s['target'].items())[:2])
            if s['kind'] == 'sparse':
                s['major'], s['minor'] = s['major'][:len(s['target'])], s['minor'][:len(s['target'])]
        C5.add(steps, s)
        specs.append(s)
        C5.advance(x, s)
    policy = C5.bounded(C5.policy_for(rng, kinds[0]))
    solver = cont.make_solver(policy, log, hostile=hostile, limit=2000, flag=flag)
    sols, raised = None, None
    try:
        sols = run_set(steps, guess, solver, auto)
    except RuntimeError as e:
        raised = e
    mon.check(np.array_equal(guess.y, before.y) and np.array_equal(guess.const, before.const), 'guess', 'the initial guess of the caller was modified')
    # which attempts belong to which step
    bounds, start, at = [], cur.copy(), 0
    for si, s in enumerate(specs):
        recs = log[at:at + len(sols[si])] if sols is not None else C5.split(s, start, log, at, 'RuntimeError', si == len(specs) - 1)[0]
        bounds.append((at, at + len(recs)))
        at += len(recs)
        if not recs:
            break
        start = recs[-1]['const']
    mon.check(at == len(log), 'record', '%d solver calls are not recorded in the solution set' % (len(log) - at))
    handed = 77.0
    tol = 1e-9 if auto else 0.0
    for si, (a, b) in enumerate(bounds):
        for i in range(a, b):
            r = log[i]
            src = r['mark']
            conv = [j for j in range(a, i) if log[j]['ok']]
            key = (specs[si]['kind'], hostile, auto, min(sum(not q['ok'] for q in log[a:i]), 3), si)
            if not conv:
                mon.check(abs(src - handed) <= tol * abs(handed), 'hand-off', 'the first case of step %d starts from trajectory %s instead of %s' % (si, src, handed), key)
                continue
            d = [np.abs(log[j]['const'] - r['const']).sum() for j in conv]
            best = min(d)
            j = int(round(src - 1000.0))
            ok = abs(src - 1000.0 - j) <= 1e-6 and j in conv and d[conv.index(j)] <= best * (1 + 1e-9) + 1e-12
            mon.check(ok, 'warm-start', lambda: 'case %d of step %d starts from trajectory %s; the nearest converged ones are %s' % (
                i - a, si, src, [1000 + q for q, dd in zip(conv, d) if dd <= best * (1 + 1e-9) + 1e-12]), key + ('warm',))
        if b > a:
            handed = 1000.0 + b - 1
        if mon.viol:
            return
    if sols is not None:
        mon.check(len(sols) == len(specs), 'record', 'the solution set has another number of steps')
        for si, (a, b) in enumerate(bounds):
            for k, sol in enumerate(sols[si]):
                r = seen_as(log[a + k]['returned'])
                # with scaling the recorded solution is the returned one in the user's units: the constants are those of the schedule
                mon.check(bool(sol.converged) == bool(r.converged), 'record', 'the recorded convergence flag is not the one the solver returned')
                mon.check(np.allclose(sol.const, r.const, rtol=max(tol, 1e-14), atol=1e-14) and np.allclose(sol.y, r.y, rtol=max(tol, 1e-14), atol=1e-14),
                          'record', lambda: 'recorded solution %d of step %d is not what the solver returned: %s' % (k, si, sol.y[0, 0]),
                          ('recorded', specs[si]['kind'], hostile, auto))
    mon.count('attempts', len(log))
    mon.sample = {'steps': [s['kind'] for s in specs], 'attempts': len(log), 'raised': str(raised)}
