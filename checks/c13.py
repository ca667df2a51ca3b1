"""C13: trajectories interpolate and index their own data."""
import copy
import numpy as np

LEVEL = 'exploration'
RULE = ('random trajectories (1-60 nodes on uneven grids, 1-5 states, 0-3 quadratures, 0-3 controls, vector or column data, whole-number times and values, '
        'several interpolation kinds, increasing and decreasing time) evaluated at nodes, between nodes, at arrays of times, '
        'by index and by slice, before and after their data is replaced; distinct = (shape, kind, operation) combinations')
ASSUMPTIONS = ['numpy.interp and scipy.interpolate are the reference interpolants']


def cases(tier, seed):
    n = {'quick': 1200, 'thorough': 20000}[tier]
    return [{'group': ['linear', 'kinds', 'index'][i % 3], 'mode': 'nojit', 'seed': seed * 100003 + i, 'timeout': 20, 'cost': 0.1}
            for i in range(n)]


def make(rng, kind='linear', low=2):
    from beluga.numeric.data_classes import Trajectory
    N = low if low < 2 and rng.random() < 0.15 else int(rng.integers(max(low, 2) if kind == 'linear' else 5, 60))
    t = np.cumsum(rng.uniform(0.01, 1.0, N)) + rng.normal() * 3
    whole = rng.random() < 0.2
    if whole:
        t = np.cumsum(rng.integers(1, 4, N)) - 3
    if rng.random() < 0.2:
        t = -t if rng.random() < 0.5 else t[::-1].copy()
    dims = [int(rng.integers(1, 6)), int(rng.integers(0, 4)), int(rng.integers(0, 4))]
    data = []
    for d in dims:
        if d == 0:
            data.append(np.array([]))
        elif d == 1 and rng.random() < 0.5:
            data.append(rng.normal(size=N))
        else:
            data.append(rng.normal(size=(N, d)))
        if whole and d and rng.random() < 0.6:
            data[-1] = np.round(3 * data[-1]).astype(int)
    kw = {} if kind == 'linear' and rng.random() < 0.5 else {'interpolation_type': kind}
    k = 4 if (data[1].size or data[2].size) else 2
    return Trajectory(t, *data[:k - 1] if k == 2 else data, **kw), t, data, dims, N


def ref(t, col, tq, kind):
    if kind == 'linear':
        o = np.argsort(t)
        return np.interp(tq, t[o], col[o])
    import scipy.interpolate as si
    if kind == 'cubic':
        o = np.argsort(t)
        return si.make_interp_spline(t[o], col[o], k=3)(tq)
    if kind == 'quadratic':
        o = np.argsort(t)
        return si.make_interp_spline(t[o], col[o], k=2)(tq)
    if kind == 'previous':
        o = np.argsort(t)
        i = np.searchsorted(t[o], tq, side='right') - 1
        return col[o][np.clip(i, 0, len(t) - 1)]
    raise ValueError(kind)


def cols(a):
    if a.size == 0:
        return []
    return [a] if a.ndim == 1 else list(a.T)


def run(case, mon):
    rng = np.random.default_rng(case['seed'])
    kind = 'linear' if case['group'] != 'kinds' else ['cubic', 'quadratic', 'previous', 'linear'][int(rng.integers(4))]
    tr, t, data, dims, N = make(rng, kind, 1 if case['group'] == 'index' else 2)
    key0 = (kind, tuple(dims), tuple(d.ndim for d in data), bool(t[0] > t[-1]), t.dtype.kind + data[0].dtype.kind)

    def compare(tr, data, tq, what):
        out = mon.under(tr, tq)
        for name, d, o in zip('yqu', data, out):
            o = np.asarray(o, float)
            exp = [ref(t, c, np.asarray(tq, float), kind) for c in cols(d)]
            if not exp:
                mon.check(o.size == 0, 'shape', lambda: '%s of a trajectory without %s is %r' % (what, name, o))
                continue
            e = np.array(exp).T
            if np.ndim(tq) == 0:
                ok = o.shape == (len(exp),)
            else:
                ok = o.reshape(-1).shape == e.reshape(-1).shape and (len(exp) == 1 or o.shape == e.shape)
            if mon.check(ok, 'shape', lambda: '%s: %s has shape %s for %d components at %s times' % (
                    what, name, o.shape, len(exp), np.shape(tq)), key0 + (what, name)):
                err = np.abs(o.reshape(-1) - e.reshape(-1)).max()
                mon.check(err <= 1e-8 * (1 + np.abs(e).max()), 'value',
                          lambda: '%s: %s differs from the interpolant of its own data by %g' % (what, name, err), key0 + (what, name))

    if case['group'] == 'index':
        mon.check(len(tr) == N, 'length', 'len %d for %d nodes' % (len(tr), N), key0 + ('len',))
        items = [0, -1, int(rng.integers(N)), -int(rng.integers(1, N + 1)), slice(None), slice(0, N // 2), slice(None, None, 2),
                 slice(int(rng.integers(N)), None), slice(None, None, -1)]
        for it in items:
            out = mon.under(tr.__getitem__, it)
            mon.check(len(out) == 4, 'index', 'indexing returned %d items' % len(out))
            for name, d, o in zip('tyqu', [t] + data, out):
                e = d[it] if d.size else np.array([])
                mon.check(np.array_equal(np.asarray(o), np.asarray(e)), 'index',
                          lambda: '[%s].%s is %r, data has %r' % (it, name, o, e), key0 + (type(it).__name__, name))
        from beluga.numeric.data_classes import Trajectory
        e = Trajectory()
        out = mon.under(e, 0.0)
        mon.check(len(e) == 0 and all(np.size(o) == 0 for o in out), 'empty', 'an empty trajectory returns data: %r' % (out,), 'empty')
        mon.check(e.converged is False or not e.converged, 'empty', 'a new trajectory claims convergence', 'empty')
        return
    if kind == 'cubic' and N < 5:
        return
    lo, hi = min(t), max(t)
    for i in {0, N - 1, int(rng.integers(N))}:
        compare(tr, data, float(t[i]), 'node')
    for _ in range(4):
        compare(tr, data, float(rng.uniform(lo, hi)), 'scalar')
    compare(tr, data, np.sort(rng.uniform(lo, hi, int(rng.integers(1, 9)))), 'array')
    compare(tr, data, list(rng.uniform(lo, hi, 3)), 'list')
    # a copy is independent and complete
    cp = copy.deepcopy(tr)
    compare(cp, data, float(rng.uniform(lo, hi)), 'copy')
    # interpolation always uses the current data
    new = [d + 1.5 if d.size else d for d in data]
    tr.y = new[0]
    if data[1].size:
        tr.q = new[1]
    if data[2].size:
        tr.u = new[2]
    compare(tr, new, float(rng.uniform(lo, hi)), 'replaced')
    compare(cp, data, float(rng.uniform(lo, hi)), 'copy-after')
    # outside the data there is no answer
    for tq in (hi + 0.5, lo - 0.5):
        try:
            out = tr(tq)
        except ValueError:
            mon.seen(key0 + ('outside',))
        else:
            mon.fail('outside', 'evaluated outside its time span without complaint: %r' % (out[0],))
    if kind == 'linear' and rng.random() < 0.3:
        tr.set_interpolate_function(lambda a, b: (lambda x: 7.0 + 0 * np.asarray(x)))
        mon.check(np.all(np.asarray(tr(float(t[0]))[0]) == 7.0), 'custom', 'the user-set interpolation function is not used', 'custom')
    if mon.sample is None:
        mon.sample = {'nodes': N, 'kind': kind, 'dims': dims}
