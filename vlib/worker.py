"""Runs the cases of one check, one JSON line at a time, against the code in /repo."""
import json
import os
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ['VERIF_REPO']
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# the editable-install hook of the virtual environment must not win over /repo's working tree
sys.meta_path[:] = [m for m in sys.meta_path if '_editable_skbc' not in type(m).__module__]
sys.path.insert(0, REPO)
sys.path.insert(1, VERIF)


from vlib.signals import CaseTimeout, Done, Undecided  # noqa: E402


class Monitor:
    def __init__(self):
        self.obs = 0
        self.keys = set()
        self.viol = []
        self.sample = None
        self.counters = {}

    def seen(self, key=None, n=1):
        """The monitor decided n observations (of the kind named by key)."""
        self.obs += n
        if key is not None:
            self.keys.add(str(key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fail(self, kind, msg):
        self.viol.append({'kind': kind, 'msg': str(msg)[:2000]})

    def under(self, fn, *args, **kw):
        """Call into the code under test (possibly compiled, so without Python frames): any exception is a violation."""
        try:
            return fn(*args, **kw)
        except (Undecided, Done):
            raise
        except Exception as e:
            self.fail('exception', '%s: %s | %s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-900:]))
            raise Done() from None

    def check(self, cond, kind, msg, key=None):
        self.seen(key)
        if not cond:
            self.fail(kind, msg() if callable(msg) else msg)
        return bool(cond)


def main():
    pid = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w')
    devnull = open(os.devnull, 'w')
    os.dup2(devnull.fileno(), 1)
    sys.stdout = devnull
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    boot_error = None
    mod = None
    try:
        from vlib.runner import load_check
        import beluga
        assert os.path.abspath(beluga.__file__).startswith(os.path.abspath(REPO) + os.sep), beluga.__file__
        mod = load_check(pid)
        if hasattr(mod, 'setup'):
            mod.setup()
    except Exception:
        boot_error = traceback.format_exc()

    def on_alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    for line in sys.stdin:
        case = json.loads(line)
        mon = Monitor()
        t0 = time.time()
        status, info = 'ok', ''
        if boot_error:
            status, info = 'error', boot_error
            if REPO + '/' in boot_error:
                mon.fail('import', 'the package does not import: ' + boot_error[-800:])
        else:
            try:
                signal.alarm(int(case.get('timeout', 60)) + 1)
                mod.run(case, mon)
                signal.alarm(0)
            except CaseTimeout:
                status = 'timeout'
            except Done:
                pass
            except Undecided as e:
                status, info = 'undecided', str(e)
            except Exception as e:
                signal.alarm(0)
                info = traceback.format_exc()
                frames = traceback.extract_tb(e.__traceback__)
                last_repo = max([i for i, f in enumerate(frames) if f.filename.startswith(REPO + '/')
                                 or f.filename.startswith('<lambdifygenerated')], default=-1)
                last_verif = max([i for i, f in enumerate(frames) if f.filename.startswith(VERIF + '/')], default=-1)
                if last_repo > last_verif:
                    status = 'ok'
                    mon.fail('exception', '%s: %s | %s' % (type(e).__name__, str(e)[:300], info[-900:]))
                else:
                    status = 'error'
            finally:
                signal.alarm(0)
        res = {'status': status, 'obs': mon.obs, 'keys': sorted(mon.keys), 'viol': mon.viol[:20], 'info': info[-3000:],
               'sample': mon.sample, 'counters': mon.counters, 'wall': time.time() - t0}
        out.write('@@RESULT ' + json.dumps(res, default=str) + '\n')
        out.flush()


if __name__ == '__main__':
    # the check modules import Monitor helpers from here under one module name
    sys.modules['vlib.worker'] = sys.modules['__main__']
    main()
