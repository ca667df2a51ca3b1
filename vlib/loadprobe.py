"""Runs in a fresh process: loads a saved file and reports what it holds and what the loaded objects compute.
usage: loadprobe.py FILE  (a JSON request on standard input; one JSON line on the standard output)"""
import json
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')

FIELDS = ('t', 'dual_t', 'y', 'dual', 'q', 'u', 'dual_u', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def enc(a):
    import numpy as np
    a = np.asarray(a)
    if a.dtype == object:
        return {'object': repr(a)}
    return {'dtype': str(a.dtype), 'shape': list(a.shape), 'hex': np.ascontiguousarray(a).tobytes().hex()}


def traj(s):
    d = {f: enc(getattr(s, f)) for f in FIELDS}
    d['converged'] = repr(s.converged)
    d['cost'] = repr(float(s.cost)) if not isinstance(s.cost, complex) else repr(s.cost)
    d['type'] = type(s).__name__
    d['extra'] = sorted(k for k in s.__dict__ if k not in FIELDS + ('converged', 'cost'))
    d['interpolation_type'] = s.interpolation_type
    return d


def sols(s):
    if isinstance(s, (list, tuple)):
        return [sols(a) for a in s]
    return traj(s)


def evaluate(bvp, points):
    """What the compiled functions of a problem return at given points."""
    import numpy as np
    f = bvp.functional_problem
    out = []
    for p in points:
        y, pp, nd, k, ya, yb, q = (np.array(p[a], float) for a in ('y', 'p', 'nd', 'k', 'ya', 'yb', 'q'))
        r = {'rates': np.asarray(f.deriv_func(y, pp, k), float).ravel().tolist()}
        if len(bvp.quads):
            r['quad'] = np.asarray(f.quad_func(y, pp, k), float).ravel().tolist()
            r['bc'] = np.asarray(f.bc_func(ya, q, yb, q, pp, nd, k), float).ravel().tolist()
        else:
            r['bc'] = np.asarray(f.bc_func(ya, yb, pp, nd, k), float).ravel().tolist()
        if f.compute_u is not None:
            r['u'] = np.asarray(f.compute_u(y, pp, k), float).ravel().tolist()
        if f.deriv_func_jac is not None:
            r['jac'] = [np.asarray(j, float).ravel().tolist() for j in f.deriv_func_jac(y, pp, k)]
        out.append(r)
    return out


def structure(prob):
    names = lambda a: [str(s.name) for s in a]
    d = {}
    for f in ('states', 'controls', 'constants', 'parameters', 'quads', 'costates', 'symmetries', 'quantities', 'custom_functions', 'tables', 'switches'):
        if hasattr(prob, f):
            v = getattr(prob, f)
            try:
                d[f] = [str(getattr(s, 'name', type(s).__name__)) for s in v]
            except TypeError:
                d[f] = str(v)
    d['defaults'] = [float(c.default_val) for c in prob.constants]
    d['name'] = str(prob.name)
    text = lambda a: None if a is None else [text(b) for b in a] if isinstance(a, (list, tuple)) else {k: text(v) for k, v in a.items()} if isinstance(a, dict) else str(a)
    d['expressions'] = {'rates': [str(s.eom) for s in list(prob.states) + list(prob.quads)],
                        'constraints': text({k: [c.expr for c in v] for k, v in prob.constraints.items()}),
                        'cost': text([prob.cost.initial, prob.cost.path, prob.cost.terminal]),
                        'jacobians': text([getattr(prob, a, None) for a in ('func_jac', 'bc_jac')])}
    return d


def main():
    sys.meta_path[:] = [m for m in sys.meta_path if '_editable_skbc' not in type(m).__module__]
    sys.path.insert(0, REPO)
    sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    req = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    res = {}
    try:
        import beluga
        assert os.path.abspath(beluga.__file__).startswith(os.path.abspath(REPO) + os.sep)
        d = beluga.utils.load(sys.argv[1])
        res['keys'] = sorted(d)
        if 'solutions' in d:
            res['solutions'] = sols(d['solutions'])
            if 'at' in req:
                flat = d['solutions']
                while isinstance(flat, list):
                    flat = flat[-1]
                res['interp'] = [enc(a) for a in flat(req['at'])]
        if 'ocp' in d:
            res['ocp'] = structure(d['ocp'])
            if req.get('recompile'):
                from vlib import ocp
                res['recompiled'] = evaluate(ocp.to_bvp(d['ocp'], **req['recompile']), req['points'])
        if 'bvp' in d:
            res['bvp'] = structure(d['bvp'])
            if 'points' in req:
                res['values'] = evaluate(d['bvp'], req['points'])
            if 'map' in req:
                import numpy as np
                from beluga.numeric.data_classes import Trajectory
                s = Trajectory()
                for f, v in req['map'].items():
                    setattr(s, f, np.array(v, float))
                s.q = np.array(s.q).reshape(len(s.t), -1)
                m = d['bvp'].map_sol(s)
                res['mapped'] = traj(m)
                res['back'] = traj(d['bvp'].inv_map_sol(m))
    except Exception as e:
        import traceback
        res['error'] = '%s: %s | %s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:])
    out.write(json.dumps(res) + '\n')
    out.flush()


if __name__ == '__main__':
    main()
