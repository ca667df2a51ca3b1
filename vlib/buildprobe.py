"""Runs in a fresh process: compiles problems from plain data and reports structure and values.
A JSON request {specs: [[spec, opts, points], ...]} on standard input; one JSON line on the standard output."""
import json
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


def main():
    sys.meta_path[:] = [m for m in sys.meta_path if '_editable_skbc' not in type(m).__module__]
    sys.path.insert(0, REPO)
    sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    req = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    res = []
    try:
        import beluga
        assert os.path.abspath(beluga.__file__).startswith(os.path.abspath(REPO) + os.sep)
        from vlib import ocp, loadprobe
        for spec, opts, points in req['specs']:
            b = ocp.to_bvp(ocp.build_problem(spec), **opts)
            d = {'structure': loadprobe.structure(b), 'nd': [str(c.name) for c in b.constraint_parameters]}
            if points is not None:
                d['values'] = loadprobe.evaluate(b, points)
            res.append(d)
        res = {'ok': res}
    except Exception as e:
        import traceback
        res = {'error': '%s: %s | %s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:])}
    out.write(json.dumps(res) + '\n')
    out.flush()


if __name__ == '__main__':
    main()
