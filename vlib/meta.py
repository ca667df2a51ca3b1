"""Comparison of two compiled boundary-value problems by the names of their components (order is free)."""
import numpy as np
from vlib import ocp


def flat(a):
    return np.asarray(a, dtype=float).ravel()


def close(a, b, tol):
    a, b = flat(a), flat(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


class Named:
    def __init__(self, bvp):
        self.fp = bvp.functional_problem
        self.s, self.p, self.n, self.k, self.q, self.u = [ocp.names(c) for c in (
            bvp.states, bvp.parameters, bvp.constraint_parameters, bvp.constants, bvp.quads, bvp.controls)]

    def arr(self, names, v):
        return np.array([v[a] for a in names], dtype=float)


def values(N, rng, consts, scale=1.0):
    v = {a: float(rng.normal()) * scale for a in N.s + N.q + N.n + N.u}
    v.update({a: float(rng.uniform(0.4, 1.6)) for a in N.p})
    v.update({a: float(consts[a]) * float(rng.uniform(0.85, 1.15)) for a in N.k})
    return v


def rates(N, v, mon):
    r = {}
    y, p, k = N.arr(N.s, v), N.arr(N.p, v), N.arr(N.k, v)
    r.update(zip(N.s, flat(mon.under(N.fp.deriv_func, y, p, k))))
    if N.q:
        r.update(zip(N.q, flat(mon.under(N.fp.quad_func, y, p, k))))
    if N.fp.compute_u is not None:
        r.update(zip(N.u, flat(mon.under(N.fp.compute_u, y, p, k))))
    r['(path cost)'] = float(flat(mon.under(N.fp.path_cost_func, y, p, k))[0])
    return r


def boundary(N, v0, vf, mon):
    a = [N.arr(N.s, v0)] + ([N.arr(N.q, v0)] if N.q else []) + [N.arr(N.s, vf)] + ([N.arr(N.q, vf)] if N.q else [])
    return flat(mon.under(N.fp.bc_func, *a, N.arr(N.p, v0), N.arr(N.n, v0), N.arr(N.k, v0)))


def compare(A, B, rng, mon, consts, key, tol=1e-7, pts=4, scale=1.0, what='the hand-written problem', extra=None, drop=()):
    """A is judged, B is the reference. Returns the number of points compared."""
    a, b = Named(A), Named(B)
    for x, y, n in ((a.s, b.s, 'states'), (a.p, b.p, 'parameters'), (a.n, b.n, 'multipliers'), (a.q, b.q, 'quadratures')):
        if not mon.check(sorted(x) == sorted(y), 'unknowns', lambda: '%s are %s, in %s %s' % (n, x, what, y)):
            return 0
    done = 0
    for _ in range(pts):
        v = values(a, rng, consts, scale)
        v.update({k: val for k, val in zip(b.k, [consts[k] for k in b.k]) if k not in v})
        rb = rates(b, v, mon)
        if not all(np.isfinite(list(rb.values()))):
            continue
        ra = rates(a, v, mon)
        for n in rb:
            if n in ra and n not in drop:
                mon.check(abs(ra[n] - rb[n]) <= tol * (1 + abs(rb[n])), 'rates',
                          lambda: 'rate of %s is %r, in %s %r' % (n, ra[n], what, rb[n]), key)
        done += 1
    ea, eb = [], []
    for _ in range(3):
        v0, vf = values(a, rng, consts, scale), values(a, rng, consts, scale)
        for n in a.p + a.n + a.k:
            vf[n] = v0[n]
        for n in b.k:
            v0.setdefault(n, consts[n])
            vf.setdefault(n, consts[n])
        eb.append(boundary(b, v0, vf, mon))
        ea.append(boundary(a, v0, vf, mon))
    if np.all(np.isfinite(np.array(eb))):
        miss, ex = ocp.match_up_to_sign(np.array(eb).T, np.array(ea).T, tol)
        mon.seen(key, len(eb[0]))
        if miss or ex:
            mon.fail('boundary', 'boundary conditions differ from %s: missing %s unexpected %s' % (
                what, [list(np.array(eb).T[i]) for i in miss], [list(np.array(ea).T[i]) for i in ex]))
    return done
