"""C05: continuation walks exactly the promised schedule from the current constants to the targets, and never ends silently short."""
import copy
import itertools
import numpy as np
from vlib import cont
from vlib.signals import Done

LEVEL = 'exploration'
RULE = ('random chains of continuation steps (manual linear/logarithmic, bisection with 2-4 divisions, product space, sparse product; '
        '1-6 of 11 constants of sizes 1e-16 to 1e8, 1-60 cases; the same step objects used again in one list or from other constants) driven by a scripted solver with random, wall, reach-limited and always-good convergence; the '
        'sequence of constants the solver was asked for is compared with an independent model of the schedule, over first and '
        'repeated runs; distinct = (strategies, variables, outcome, failures, divisions)')
ASSUMPTIONS = ['a step of n cases has its first case at the constants it starts from (n >= 2 reaches the target)',
               'bisection may perform max_divisions or max_divisions + 1 consecutive divisions before it gives up']


def cases(tier, seed):
    n = {'quick': 2100, 'thorough': 15000}[tier]
    return [{'group': ['manual', 'bisection', 'bisection', 'product', 'sparse', 'chain', 'reuse'][i % 7], 'mode': 'nojit',
             'seed': seed * 100003 + i, 'timeout': 40, 'cost': 0.2} for i in range(n)]


def R(rng, a):
    return a[int(rng.integers(len(a)))]


def draw_step(rng, kind, cur):
    names = [str(a) for a in rng.permutation(cont.NAMES)]
    ki = cont.kidx()
    if kind in ('manual', 'bisection'):
        nv = R(rng, [1, 1, 2, 2, 3, 3, 4, 6])
        spacing = R(rng, ['linear', 'linear', 'log'])
        tgt = {}
        for v in names[:nv]:
            c = cur[ki[v]]
            if spacing == 'log' and c <= 0:
                continue
            tgt[v] = float(abs(rng.normal()) + 0.1) * R(rng, [1, 1, 1, c]) if spacing == 'log' else R(rng, [
                float(rng.normal() * 3), float(c) * 0.5, float(c) * rng.normal(), float(c) + 1.0, int(rng.integers(-9, 10)), 0])
        if not tgt:
            spacing, tgt = 'linear', {names[0]: 2.5}
        st = {'kind': kind, 'spacing': spacing, 'target': tgt, 'n': R(rng, list(range(2, 13)) * 3 + [1, 1, 25, 60]), 'div': R(rng, [2, 2, 3, 4, 6]),
              'maxdiv': int(rng.integers(1, 6))}
        return st
    nv = int(rng.integers(1, 5))
    tgt = {v: R(rng, [float(rng.normal() * 3), float(rng.normal() * 3), float(rng.normal() * cur[ki[v]])]) for v in names[:nv]}
    if rng.random() < 0.25:
        tgt = dict.fromkeys(tgt, 0.0)
    tgt = {v: a if a != cur[ki[v]] else 1.5 for v, a in tgt.items()}
    if kind == 'product':
        return {'kind': kind, 'target': tgt, 'n': int(rng.integers(2, 5 if nv < 3 else 4 if nv < 4 else 3))}
    return {'kind': 'sparse', 'target': tgt, 'major': [int(rng.integers(2, 4)) for _ in tgt], 'minor': [int(rng.integers(0, 4)) for _ in tgt]}


def advance(x, s):
    """Where the step leaves the constants (a single case stays at the start)."""
    if s.get('n') != 1:
        for v, t in s['target'].items():
            x[cont.kidx()[v]] = t


def add(steps, s, alt=0):
    """Through the method chain, or (alt) through constructor arguments or a ready-made strategy object."""
    from beluga.continuation.continuation import ManualStrategy, BisectionStrategy, ProductStrategy, SparseProductStrategy
    log = s.get('spacing') == 'log'
    if s['kind'] == 'manual':
        if log or alt == 0:
            st = steps.add_step('manual').num_cases(s['n'], **({'spacing': 'log'} if log else {}))
        else:
            st = steps.add_step('manual', num_cases=s['n']) if alt == 1 else steps.add_step(ManualStrategy(num_cases=s['n']))
    elif s['kind'] == 'bisection':
        if log or alt == 0:
            st = steps.add_step('bisection', max_divisions=s['maxdiv'], num_divisions=s['div'])
            st = st.num_cases(s['n'], **({'spacing': 'log'} if log else {}))
        else:
            kw = dict(initial_num_cases=s['n'], max_divisions=s['maxdiv'], num_divisions=s['div'])
            st = steps.add_step('bisection', **kw) if alt == 1 else steps.add_step(BisectionStrategy(**kw))
    elif s['kind'] == 'product':
        st = (steps.add_step('productspace').num_subdivisions(s['n']) if alt == 0 else steps.add_step('productspace', num_subdivisions=s['n'])
              if alt == 1 else steps.add_step(ProductStrategy(num_subdivisions=s['n'])))
    else:
        sub = (tuple(s['major']), tuple(s['minor']))
        st = (steps.add_step('sparse_product').num_subdivisions(sub) if alt == 0 else steps.add_step('sparse_product', num_subdivisions=sub)
              if alt == 1 else steps.add_step(SparseProductStrategy(num_subdivisions=sub)))
    for v, t in s['target'].items():
        (st.constant if alt == 1 else st.const)(v, t)
    return st


def between(a, b, w, spacing):
    return a + (b - a) * w if spacing == 'linear' else a * (b / a)**w


class Model:
    """The schedule of one step, in words of the specification: yields points, is told whether they converged."""

    def __init__(self, s, start):
        self.s, self.start = s, np.array(start)
        self.ki = cont.kidx()
        self.vars = list(s['target'])

    def point(self, w):
        p = self.start.copy()
        for v in self.vars:
            i = self.ki[v]
            p[i] = between(self.start[i], self.s['target'][v], w, self.s['spacing'])
        return p


def close(a, b, scale):
    return np.all(np.abs(a - b) <= 1e-9 * np.maximum(scale, np.abs(b)))


def sizes(s, start, vs=None):
    """What is small for each constant: the larger of where it starts and where it goes."""
    ki = cont.kidx()
    sc = np.abs(np.array(start, float))
    for v, t in s['target'].items():
        sc[ki[v]] = max(sc[ki[v]], abs(t))
    return sc if vs is None else np.array([sc[ki[v]] for v in vs])


def verify_line(mon, s, start, recs, outcome, key):
    """manual / bisection. recs: attempts of this step. outcome: 'done' or exception type name. Returns end constants or None."""
    m = Model(s, start)
    sc = sizes(s, start)
    plan = list(np.linspace(0, 1, s['n']))
    i, div, k = 0, 0, 0
    while True:
        if i == len(plan):
            mon.check(k == len(recs), 'extra', 'the solver was asked for %d points after the target was reached' % (len(recs) - k))
            mon.check(outcome == 'done', 'raised', 'every point converged up to the target and yet the run raised ' + outcome)
            if recs:
                tgt = m.point(plan[-1])
                mon.check(close(recs[-1]['const'], tgt, sc) and recs[-1]['ok'], 'target', 'the step ended away from its target', key)
            return recs[-1]['const'].copy() if recs else None
        if k == len(recs):
            # no further attempt although the target is not reached
            mon.check(outcome != 'done', 'silent-stop', 'the step ended before its target without an error (%d of %d cases)' % (i, len(plan)))
            return None
        want = m.point(plan[i])
        mon.check(close(recs[k]['const'], want, sc), 'schedule', lambda: 'attempt %d of %s asks for %s, the schedule says %s' % (
            k, s, recs[k]['const'], want), key)
        if mon.viol:
            raise Done()
        ok = recs[k]['ok']
        k += 1
        if ok:
            i, div = i + 1, 0
            continue
        if s['kind'] == 'manual' or i == 0:
            mon.check(outcome == 'RuntimeError' and k == len(recs), 'failure', lambda: 'a %s failure must stop the run with an error, '
                      'got %s after %d further attempts' % ('first' if i == 0 else 'manual', outcome, len(recs) - k), key + ('fail',))
            return None
        if k == len(recs) and outcome == 'RuntimeError':
            mon.check(div in (s['maxdiv'], s['maxdiv'] + 1), 'divisions', 'gave up after %d consecutive divisions, max_divisions is %d' % (div, s['maxdiv']),
                      key + ('exhausted',))
            return None
        div += 1
        mon.check(div <= s['maxdiv'] + 1, 'divisions', 'still dividing after %d divisions, max_divisions is %d' % (div, s['maxdiv']))
        if mon.viol:
            raise Done()
        new = list(np.linspace(plan[i - 1], plan[i], s['div'] + 1)[1:-1])
        plan[i:i] = new


def verify_product(mon, s, start, recs, outcome, key):
    ki = cont.kidx()
    vs = list(s['target'])
    sc = sizes(s, start, vs)
    first_failed = bool(recs) and not recs[0]['ok']
    mon.check(bool(recs) and close(recs[0]['const'], start, sizes(s, start)), 'schedule', 'a product step starts away from the current constants', key)
    if first_failed:
        mon.check(outcome == 'RuntimeError' and len(recs) == 1, 'failure', 'a first failure must stop the run with an error')
        return None
    mon.check(outcome == 'done', 'raised', 'a product step raised %s' % outcome)
    if s['kind'] == 'product':
        axes = [np.linspace(start[ki[v]], s['target'][v], s['n']) for v in vs]
        want = [np.array(p) for p in itertools.product(*axes)]
        got = [np.array([r['const'][ki[v]] for v in vs]) for r in recs]
        mon.check(len(got) == len(want), 'schedule', 'the product space has %d points, %d were visited' % (len(want), len(got)))
        left = list(got)
        for w in want:
            j = next((j for j, g in enumerate(left) if close(g, w, sc)), None)
            mon.check(j is not None, 'schedule', 'point %s of the product space was not visited' % w)
            if j is not None:
                left.pop(j)
        mon.check(close(got[-1], np.array([s['target'][v] for v in vs]), sc), 'target', 'the last point of a product space is not its target')
    else:
        axes = [np.linspace(start[ki[v]], s['target'][v], a) for v, a in zip(vs, s['major'])]
        got = [np.array([r['const'][ki[v]] for v in vs]) for r in recs]
        majors = [np.array(p) for p in itertools.product(*axes)]
        n_minor = 0
        for w in majors:
            c = sum(close(g, w, sc) for g in got)
            mon.check(c == 1, 'schedule', 'corner %s of the sparse grid visited %d times' % (w, c))
        rest = [g for g in got if not any(close(g, w, sc) for w in majors)]
        # between grid points: evenly spaced points on grid lines, a step away from a point that was visited before
        for g in rest:
            on = []
            for n, ax in enumerate(axes):
                fine = [a + (b - a) * j / (s['minor'][n] + 1) for a, b in zip(ax[:-1], ax[1:]) for j in range(1, s['minor'][n] + 1)]
                others = all(np.any(np.abs(axes[q] - g[q]) <= 1e-9 * sc[q]) for q in range(len(axes)) if q != n)
                on.append(others and any(abs(g[n] - f) <= 1e-9 * sc[n] for f in fine))
            mon.check(any(on), 'schedule', 'intermediate point %s of the sparse grid lies on no grid line' % g)
        want_minor = 0
        corners = 1
        for n, ax in enumerate(axes):
            want_minor += corners * (len(ax) - 1) * s['minor'][n]
            corners *= len(ax)
        mon.check(len(rest) == want_minor, 'schedule', '%d intermediate points instead of %d' % (len(rest), want_minor))
    for r in recs:
        for n, i in ki.items():
            if n not in vs:
                mon.check(r['const'][i] == start[i], 'other-constant', 'constant %s changed although it is not continued' % n)
    return recs[-1]['const']


def policy_for(rng, kind):
    r = R(rng, ['good', 'good', 'random', 'random', 'wall', 'reach'])
    if r == 'good':
        return lambda i, k: True
    if r == 'random':
        q = float(rng.uniform(0.3, 0.95))
        st = int(rng.integers(1 << 30))
        return lambda i, k: i == 0 or i > 150 or np.random.default_rng(st + i).random() < q
    if r == 'wall':
        # beyond some distance from the first point nothing converges
        d = float(rng.uniform(0.2, 4.0))
        mem = {}

        def wall(i, k):
            if i == 0:
                mem['k'] = np.array(k)
            return np.abs(k - mem['k']).sum() <= d or i == 0
        return wall
    h = float(rng.uniform(0.2, 1.5))
    mem = {'good': []}

    def reach(i, k):
        ok = i == 0 or min(np.abs(np.array(k) - g).sum() for g in mem['good']) <= h
        if ok:
            mem['good'].append(np.array(k))
        return ok
    return reach


def bounded(policy):
    return lambda i, k: bool(policy(i, k)) or 250 < i <= 1000


def run(case, mon):
    import beluga
    rng = np.random.default_rng(case['seed'])
    g = case['group']
    kinds = {'manual': ['manual'], 'bisection': ['bisection'], 'product': ['product'], 'sparse': ['sparse']}.get(g)
    if kinds is None:
        kinds = [R(rng, ['manual', 'bisection', 'bisection', 'product', 'sparse']) for _ in range(int(rng.integers(2, 4)))]
    cur = np.array([c[1] for c in cont.CONSTS])
    cur = np.array([dict((c[0], c[1]) for c in cont.CONSTS)[n] for n in cont.kidx()])
    if rng.random() < 0.25:
        # constants of very different sizes
        cur = cur * 10.0**rng.integers(-14, 7, len(cur))
    specs, x = [], cur.copy()
    for kind in kinds:
        s = draw_step(rng, kind, x)
        if s['kind'] in ('product', 'sparse') and len(kinds) > 1:
            s['target'] = dict(list(s['target'].items())[:2])
            if s['kind'] == 'sparse':
                s['major'], s['minor'] = s['major'][:len(s['target'])], s['minor'][:len(s['target'])]
        specs.append(s)
        advance(x, s)
    steps = beluga.init_continuation()
    for s in specs:
        mon.under(add, steps, s, int(rng.integers(3)))
    mon.check(len(steps) == len(specs), 'list', 'the list of steps has another length')
    if g == 'reuse' and rng.random() < 0.5 and specs[0].get('spacing') != 'log' and specs[0]['kind'] != 'sparse':
        # the same step objects once more in the same list
        steps.add_step(steps[0])
        specs.append(specs[0])
    repeats = 2 if g in ('reuse', 'chain') else 1
    base = cur
    for rep in range(repeats):
        if rep and rng.random() < 0.5:
            # again, from other constants
            cur = base * rng.uniform(0.3, 2, len(base))
        policy = bounded(policy_for(rng, kinds[0]))
        log = []
        solver = cont.make_solver(policy, log, limit=2000)
        guess = cont.start_guess(rng, cur)
        before = copy.deepcopy(guess)
        outcome, sols = 'done', None
        try:
            sols = cont.run_set(steps, guess, solver)
        except cont.TooMany:
            mon.fail('unbounded', 'more than 2000 attempts')
            return
        except Exception as e:
            outcome = type(e).__name__
        mon.check(np.array_equal(guess.const, before.const) and np.array_equal(guess.y, before.y), 'guess', 'the initial guess was modified')
        key = (tuple(s['kind'] for s in specs), tuple(len(s['target']) for s in specs), cur is base, outcome, rep)
        # attribute attempts to steps
        start, at = cur.copy(), 0
        for si, s in enumerate(specs):
            if sols is not None:
                nrec = len(sols[si])
                recs = log[at:at + nrec]
                out = 'done'
            else:
                # the run raised: the model consumes what belongs to this step; earlier steps are complete
                recs, out = None, None
            if recs is None:
                recs, out = split(s, start, log, at, outcome, last=si == len(specs) - 1)
            at += len(recs)
            nfail = sum(not r['ok'] for r in recs)
            kk = key + (s['kind'], s.get('spacing'), min(nfail, 4), s.get('div'))
            end = (verify_line if s['kind'] in ('manual', 'bisection') else verify_product)(mon, s, start, recs, out, kk)
            if s['kind'] in ('manual', 'bisection'):
                ki = cont.kidx()
                for r in recs:
                    for n, i in ki.items():
                        if n not in s['target']:
                            mon.check(r['const'][i] == start[i], 'other-constant', 'constant %s changed although it is not continued' % n)
            if mon.viol:
                return
            if end is None:
                break
            start = np.array(end)
        mon.check(at == len(log), 'extra', lambda: '%d attempts belong to no step' % (len(log) - at))
        mon.count('attempts', len(log))
        mon.count('failed_attempts', sum(not r['ok'] for r in log))
    mon.sample = {'steps': specs, 'outcome': outcome, 'attempts': len(log)}


def split(s, start, log, at, outcome, last):
    """Number of attempts the schedule of step s would consume from log[at:] (used when the run raised)."""
    recs = log[at:]
    if s['kind'] in ('manual', 'bisection'):
        plan, i, k, div = list(np.linspace(0, 1, s['n'])), 0, 0, 0
        while k < len(recs) and i < len(plan):
            ok = recs[k]['ok']
            k += 1
            if ok:
                i, div = i + 1, 0
            elif s['kind'] == 'manual' or i == 0:
                return recs[:k], outcome
            else:
                if k == len(recs):
                    return recs, outcome
                div += 1
                plan[i:i] = list(np.linspace(plan[i - 1], plan[i], s['div'] + 1)[1:-1])
        return recs[:k], ('done' if i == len(plan) else outcome)
    if recs and not recs[0]['ok']:
        return recs[:1], outcome
    if s['kind'] == 'product':
        n = s['n']**len(s['target'])
    else:
        n, corners = 1, 1
        for a, b in zip(s['major'], s['minor']):
            n += corners * (a - 1) * (b + 1)
            corners *= a
    return recs[:n], ('done' if len(recs) >= n else outcome)
