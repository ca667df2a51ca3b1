"""C26: what is logged goes where it was asked to go, once, and never influences what is computed."""
import io
import logging
import os
import shutil
import sys
import tempfile
import numpy as np

LEVEL = 'exploration'
RULE = ('sequences of logging set-ups (display level and file level drawn from every standard level, odd levels between them and "no file"; '
        'the same or another file; any level and handler on the root logger of the process) with messages of every level in between: what '
        'arrives on the standard output and in each file is compared with what was asked for; solves with continuation under different '
        'set-ups, every message the library emits recorded at its source and followed to its destinations, the returned arrays compared '
        'bit by bit; distinct = (display level, file level, set-up number, entry point, root level)')
ASSUMPTIONS = ['messages are written by the logger the package offers', 'progress bars are not messages']
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]


def cases(tier, seed):
    n = {'quick': 300, 'thorough': 6000}[tier]
    out = [{'group': 'levels', 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 20, 'cost': 0.05} for i in range(n)]
    out += [{'group': 'solve', 'mode': 'nojit', 'seed': seed * 100003 + 50000 + i, 'timeout': 60, 'cost': 3} for i in range(max(10, n // 10))]
    return out


def R(rng, a):
    return a[int(rng.integers(len(a)))]


class Quiet:
    """Everything the check changes in the process is put back."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='c26_')
        self.cwd, self.out, self.disabled = os.getcwd(), sys.stdout, logging.root.manager.disable
        self.root = logging.getLogger()
        self.root_level, self.root_handlers = self.root.level, list(self.root.handlers)
        os.chdir(self.dir)
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *_):
        logging.disable(self.disabled)
        for h in list(logging.getLogger('beluga').handlers):
            h.close()
        self.root.setLevel(self.root_level)
        self.root.handlers = self.root_handlers
        sys.stdout = self.out
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)


class Keep(logging.Handler):
    def __init__(self):
        super().__init__(level=1)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


def read(name):
    return open(name).read() if os.path.exists(name) else ''


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    with Quiet():
        (levels if case['group'] == 'levels' else solve)(case, rng, mon)


def configure(rng, mon, display, file_level, name, entry):
    import beluga
    fn = beluga.add_logger if entry == 'add_logger' else beluga.init_logging
    kw = dict(display_level=display, file_level=file_level)
    if name != 'beluga.log' or rng.random() < 0.5:
        kw['filename'] = name
    mon.under(fn, **kw)


def draw(rng):
    lv = lambda: R(rng, LEVELS) if rng.random() < 0.85 else int(rng.integers(1, 50))
    display, file_level = lv(), (lv() if rng.random() < 0.65 else logging.NOTSET)
    return display, file_level


def levels(case, rng, mon):
    from beluga.utils import logger
    root = logging.getLogger()
    rl = R(rng, [logging.DEBUG, logging.WARNING, logging.WARNING, logging.CRITICAL, logging.NOTSET])
    root.setLevel(rl)
    spy = Keep()
    root.handlers = [spy]
    n = 0
    files = {}
    for k in range(int(rng.integers(1, 5))):
        display, file_level = draw(rng)
        name = R(rng, ['beluga.log', 'other.log', 'beluga.log'])
        entry = R(rng, ['add_logger', 'init_logging'])
        sink = io.StringIO()
        sys.stdout = sink
        configure(rng, mon, display, file_level, name, entry)
        before = {f: read(f) for f in ('beluga.log', 'other.log')}
        sent = []
        for _ in range(int(rng.integers(3, 12))):
            n += 1
            lvl = R(rng, LEVELS) if rng.random() < 0.85 else int(rng.integers(1, 50))
            text = 'token<%d> of level %d%s' % (n, lvl, R(rng, ['', '', ' 100%', '\nsecond line']))
            short = {logging.DEBUG: logger.debug, logging.INFO: logger.info, logging.WARNING: logger.warning,
                     logging.ERROR: logger.error, logging.CRITICAL: logger.critical}
            if lvl in short and rng.random() < 0.7:
                mon.under(short[lvl], text)
            else:
                mon.under(logger.log, lvl, text)
            sent.append((lvl, text))
        for h in logger.handlers:
            h.flush()
        key = (display, file_level, k, entry, rl)
        shown = sink.getvalue()
        for lvl, text in sent:
            c = shown.count(': ' + text + '\n')
            mon.check(c == (lvl >= display), 'display', lambda: 'a message of level %d is displayed %d times at display level %d (file level %d, root level %d)' % (
                lvl, c, display, file_level, rl), key)
        pos = [shown.index(': ' + x + '\n') for lvl, x in sent if lvl >= display and ': ' + x + '\n' in shown]
        mon.check(pos == sorted(pos), 'display', 'messages are displayed out of order')
        now = {f: read(f) for f in before}
        wanted = [x for lvl, x in sent if file_level > logging.NOTSET and lvl >= file_level]
        for f in before:
            if f == name and wanted:
                for lvl, text in sent:
                    c = now[f].count(': ' + text + '\n')
                    mon.check(c == (lvl >= file_level), 'file', lambda: 'a message of level %d is in the log file %d times at file level %d' % (lvl, c, file_level), key)
                mon.check(now[f].count('token<') == len(wanted), 'file', 'the log file holds messages from before this set-up', key)
            else:
                mon.check(now[f] == before[f], 'file', lambda: 'the file %s changed though no message was to go there' % f, key)
        if file_level == logging.NOTSET:
            mon.check(set(os.listdir('.')) <= set(files), 'file', lambda: 'files %s appeared without a file level' % os.listdir('.'), key)
        files.update({f: 1 for f in os.listdir('.')})
        mon.check(not spy.got, 'root', lambda: 'messages reach the handlers of the root logger as well: %s' % spy.got[:3], key)
    mon.sample = {'messages': n, 'files': sorted(files)}


def problem():
    import beluga
    p = beluga.Problem('log')
    p.independent('t', 's')
    p.state('x', 'v', 'm'); p.state('v', 'a', 'm/s')
    p.control('a', 'm/s**2')
    p.constant('x_f', 0.5, 'm'); p.constant('t_f', 1.5, 's')
    p.path_cost('a**2', 'm**2/s**4')
    for n, u in (('x', 'm'), ('v', 'm/s'), ('t', 's')):
        p.initial_constraint(n, u)
    p.terminal_constraint('x - x_f', 'm'); p.terminal_constraint('v', 'm/s'); p.terminal_constraint('t - t_f', 's')
    p.scale(m='x + x_f', s='t_f')
    return p


def solve(case, rng, mon):
    import beluga
    from beluga.utils import logger
    algo = R(rng, ['spbvp', 'Shooting', 'Shooting'])
    cm = R(rng, ['differential', 'algebraic'])
    target, auto, strategy = round(float(rng.uniform(0.6, 2)), 2), bool(rng.integers(2)), R(rng, ['bisection', 'manual', 'productspace', None])
    sent = []

    def once():
        steps = None
        if strategy:
            steps = beluga.init_continuation()
            steps.add_step(strategy).num_cases(3).const('x_f', target)
        g = beluga.guess_generator('auto', start=[0., 0.], costate_guess=0.1, control_guess=[0.1], time_integrate=1.5)
        out = mon.under(beluga.solve, ocp=problem(), bvp_algorithm=beluga.bvp_algorithm(algo), steps=steps, guess_generator=g, autoscale=auto,
                        optim_options={'control_method': cm}, save_sols=False)
        return [[np.asarray(getattr(s, a), float).copy() for a in ('t', 'y', 'u', 'dual', 'dynamical_parameters', 'nondynamical_parameters', 'const', 'cost')] +
                [bool(s.converged)] for step in out for s in step]
    names = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50}

    def spy(name):
        orig = getattr(logger, name)

        def f(msg, *args, **kw):
            sent.append((names[name], str(msg) % args if args else str(msg)))
            return orig(msg, *args, **kw)
        return f
    sys.stdout = io.StringIO()
    configure(rng, mon, logging.CRITICAL, logging.NOTSET, 'beluga.log', 'add_logger')
    ref = once()
    confs = [(logging.DEBUG, logging.NOTSET), (logging.INFO, logging.DEBUG), draw(rng), draw(rng)]
    for display, file_level in [confs[i] for i in rng.permutation(4)[:3]]:
        sink = io.StringIO()
        sys.stdout = sink
        configure(rng, mon, display, file_level, 'run.log', 'add_logger')
        del sent[:]
        for n in names:
            setattr(logger, n, spy(n))
        try:
            got = once()
        finally:
            for n in names:
                delattr(logger, n)
        for h in logger.handlers:
            h.flush()
        key = (display, file_level, algo, cm, strategy)
        same = len(got) == len(ref) and all(np.shape(x) == np.shape(y) and np.array_equal(x, y, equal_nan=True) for a, b in zip(ref, got) for x, y in zip(a, b))
        mon.check(same, 'result', lambda: 'with display level %d and file level %d the solve returns other numbers' % (display, file_level), key)
        for what, text, lim in (('display', sink.getvalue(), display), ('file', read('run.log') if file_level else '', file_level or 1000)):
            for lvl, msg in set(sent):
                if len(msg.strip()) < 8:
                    continue
                want = sum(1 for a, b in sent if b == msg and a >= lim)
                c = text.count(': ' + msg + '\n')
                mon.check(c == want, what, lambda: 'the message %r (level %d) of a solve appears %d times, %d expected at level %d' % (msg[:60], lvl, c, want, lim), key + (what, lvl))
        if os.path.exists('run.log'):
            for h in logger.handlers:
                h.close()
            os.remove('run.log')
        mon.count('messages', len(sent))
    mon.sample = {'messages of a solve': len(sent), 'solutions': len(ref)}
