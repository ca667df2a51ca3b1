"""Coordinator for one property check.

    python vlib/runner.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--only GROUP] [-v]

Asks checks/<id>.py for its workload (a list of JSON cases), runs the cases in
worker processes which import the code under test from /repo's working tree,
collects what the monitors observed, and decides:

  exit 0   the property held on everything observed
  exit 1   VIOLATION property=<id> replay=<path>
  exit 2   inconclusive: the monitors did not observe enough (never "held")
"""
import argparse
import importlib.util
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)


def load_check(pid):
    path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [e for e in data['findings'] if e['property'] == pid and e['status'] == 'known']


def worker_env(mode, scratch):
    env = {
        'HOME': scratch, 'LANG': 'C.UTF-8', 'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
        'PYTHONPATH': REPO + os.pathsep + VERIF, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
        'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': scratch, 'NUMBA_CACHE_DIR': scratch,
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '1', 'NUMEXPR_NUM_THREADS': '1',
        'TMPDIR': scratch, 'VERIF_REPO': REPO,
    }
    if mode == 'nojit':
        env['NUMBA_DISABLE_JIT'] = '1'
    elif mode == 'bounds':
        env['NUMBA_BOUNDSCHECK'] = '1'
    elif mode.startswith('hash'):       # vary the interpreter's hash seed (set/dict iteration order of strings)
        env['NUMBA_DISABLE_JIT'] = '1'
        env['PYTHONHASHSEED'] = mode[4:]
    elif mode != 'jit':
        raise ValueError(mode)
    return env


class Worker:
    def __init__(self, pid, mode, scratch):
        self.mode = mode
        self.cwd = tempfile.mkdtemp(prefix='w_', dir=scratch)
        self.err = open(os.path.join(self.cwd, 'stderr'), 'w+')
        self.p = subprocess.Popen([PYTHON, os.path.join(HERE, 'worker.py'), pid], cwd=self.cwd,
                                  env=worker_env(mode, self.cwd), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, text=True, start_new_session=True)

    def run(self, case, hard_timeout):
        timer = threading.Timer(hard_timeout, self.kill)
        timer.start()
        try:
            self.p.stdin.write(json.dumps(case) + '\n')
            self.p.stdin.flush()
            while True:
                line = self.p.stdout.readline()
                if not line:
                    return None
                if line.startswith('@@RESULT '):
                    return json.loads(line[9:])
        except (BrokenPipeError, OSError):
            return None
        finally:
            timer.cancel()

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            pass
        self.kill()
        self.p.wait()
        self.err.close()
        shutil.rmtree(self.cwd, ignore_errors=True)

    def tail(self):
        self.err.flush()
        with open(self.err.name) as f:
            return f.read()[-1500:]


def known_hit(known, c, v):
    return next((e for e in known if v['kind'] in (e['kind'] if isinstance(e['kind'], list) else [e['kind']]) and
                 all(c.get(k) == val for k, val in e.get('case', {}).items()) and e.get('contains', '') in v['msg']), None)


def run_cases(pid, cases, nproc, scratch, deadline, verbose=False, stop_after=3, known=()):
    results = [None] * len(cases)
    by_mode = {}
    for i, c in enumerate(cases):
        by_mode.setdefault(c.get('mode', 'nojit'), []).append(i)
    # one queue per mode; threads are split over modes in proportion to the estimated cost
    cost = {m: sum(cases[i].get('cost', 1.0) for i in ix) for m, ix in by_mode.items()}
    total = sum(cost.values())
    queues, plan = {}, []
    for m, ix in by_mode.items():
        q = queue.Queue()
        for i in sorted(ix, key=lambda i: -cases[i].get('cost', 1.0)):
            q.put(i)
        queues[m] = q
        plan += [m] * max(1, min(len(ix), round(nproc * cost[m] / total)))
    lock = threading.Lock()
    nviol = [0]

    def loop(mode):
        w = None
        while True:
            with lock:
                if nviol[0] >= stop_after or time.time() > deadline:
                    break
            try:
                i = queues[mode].get_nowait()
            except queue.Empty:
                # help the other modes
                rest = [m for m in queues if not queues[m].empty()]
                if not rest:
                    break
                mode = rest[0]
                if w is not None:
                    w.close()
                    w = None
                continue
            case = cases[i]
            tmo = case.get('timeout', 60)
            res = None
            for attempt in (0, 1):
                if w is None:
                    w = Worker(pid, mode, scratch)
                t0 = time.time()
                res = w.run(case, tmo * 2 + 30)
                if res is not None:
                    break
                tail = w.tail()
                w.close()
                w = None
                took = time.time() - t0
                if took >= tmo * 2 + 29:
                    res = {'status': 'timeout', 'obs': 0, 'keys': [], 'viol': [], 'info': 'hard timeout'}
                    break
                # the worker process died: repeat once in a fresh process before believing it
                res = {'status': 'crash', 'obs': 0, 'keys': [], 'info': tail,
                       'viol': [{'kind': 'process-death', 'msg': 'worker process died: ' + tail[-400:]}]}
                if attempt == 1:
                    break
            results[i] = res
            if verbose:
                print('case', i, json.dumps(case)[:160], res['status'], res.get('obs'), '%.1fs' % res.get('wall', 0),
                      [v['kind'] + ': ' + v['msg'][:300] for v in res['viol']][:3], res.get('info', '')[-600:],
                      flush=True)
            if any(known_hit(known, case, v) is None for v in res['viol']):
                with lock:
                    nviol[0] += 1
        if w is not None:
            w.close()

    threads = [threading.Thread(target=loop, args=(m,)) for m in plan]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    pid = a.pid.upper()
    t0 = time.time()
    mod = load_check(pid)
    known = load_known(pid)
    if a.replay:
        with open(a.replay) as f:
            cases = [json.load(f)['case']]
    else:
        cases = list(mod.cases(a.tier, a.seed))
        if a.only:
            cases = [c for c in cases if c.get('group') == a.only]
    budget = {'quick': 800, 'thorough': 6 * 3600}[a.tier]
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='verif_' + pid + '_')
    try:
        results = run_cases(pid, cases, a.j, scratch, t0 + budget, a.v, known=known)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    done = [(c, r) for c, r in zip(cases, results) if r is not None]
    ok = [(c, r) for c, r in done if r['status'] == 'ok']
    obs = sum(r['obs'] for _, r in done)
    keys = set()
    groups = {}
    counters = {}
    for c, r in done:
        keys.update(r['keys'])
        g = groups.setdefault(c.get('group', '-'), {'cases': 0, 'completed': 0, 'observations': 0, 'undecided': 0})
        g['cases'] += 1
        g['completed'] += r['status'] == 'ok'
        g['undecided'] += r['status'] in ('timeout', 'undecided')
        g['observations'] += r['obs']
        for k, v in r.get('counters', {}).items():
            counters[k] = counters.get(k, 0) + v
    errors = [(c, r) for c, r in done if r['status'] == 'error']
    undecided = [(c, r) for c, r in done if r['status'] in ('timeout', 'undecided')]

    new, seen_known = [], {}
    for c, r in done:
        for v in r['viol']:
            hit = known_hit(known, c, v)
            if hit is not None:
                seen_known[hit['what']] = hit
            else:
                new.append((c, v))

    for what in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))

    samples = []
    for c, r in ok[:200]:
        if r.get('sample') and len(samples) < 4 and c.get('group') not in [s.get('group') for s in samples]:
            samples.append({'group': c.get('group'), 'case': {k: v for k, v in c.items() if k not in ('cost', 'timeout')},
                            'observed': r['sample'], 'observations': r['obs']})
    if not samples:
        samples = [{'case': c, 'observations': r['obs']} for c, r in done[:2]]
    ev = {
        'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed,
        'level': mod.LEVEL,
        'coverage': {
            'evaluations': len(done), 'distinct_nontrivial': len(keys), 'rule': mod.RULE, 'samples': samples,
            'monitor_observations': obs, 'groups': groups, 'counters': counters,
            'undecided_cases': len(undecided), 'harness_errors': len(errors),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    if not a.replay:
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)

    if new:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for n, (c, v) in enumerate(new[:3]):
            path = a.replay or os.path.join(rdir, '%s_%s_%d.json' % (pid, a.tier, n))
            if not a.replay:
                with open(path, 'w') as f:
                    json.dump({'property': pid, 'case': c, 'violation': v}, f, indent=1)
            print('  %s: %s' % (v['kind'], v['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1

    for c, r in errors[:3]:
        print('HARNESS-ERROR', json.dumps(c)[:200], r.get('info', '')[-1500:])
    print('%s %s seed=%d: %d/%d cases, %d observations, %d distinct, %d undecided, %d errors, %.1fs'
          % (pid, a.tier, a.seed, len(done), len(cases), obs, len(keys), len(undecided), len(errors), ev['wall_s']))
    if a.replay:
        return 0 if ok else 2
    if errors:
        print('INCONCLUSIVE: harness errors')
        return 2
    if not a.only:
        for g in sorted(set(c.get('group', '-') for c in cases)):
            gi = groups.get(g)
            n = sum(c.get('group', '-') == g for c in cases)
            need = getattr(mod, 'MIN_OK', {}).get(g, 0.5)
            if gi is None or gi['observations'] == 0 or gi['completed'] < need * n:
                print('INCONCLUSIVE: group %s observed too little: %s of %d cases' % (g, gi, n))
                return 2
    print('HELD property=%s on what was observed' % pid)
    return 0


if __name__ == '__main__':
    sys.exit(main())
