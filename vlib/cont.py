"""A scripted boundary-value solver and the harness that drives continuation through the real strategies."""
import copy
import numpy as np
from vlib import ocp

_BVP = {}
CONSTS = [['ka', 1.0, 'm'], ['kb', 2.0, 'm/s'], ['kc', -1.5, 's'], ['kd', 0.3, 'kg'], ['ke', 5.0, '1'],
          ['kf', 120.0, 'm'], ['kl', 3, '1'], ['kh', -7, 'm/s'], ['ki', 0.002, 's'], ['kj', 1, 'kg'], ['kk', 60, '1']]
NAMES = [c[0] for c in CONSTS]


def bvp():
    """A small real compiled problem with many constants."""
    if 'b' not in _BVP:
        spec = {'ind': 't', 'states': [['x', 'ka*v', 'm'], ['v', 'kb*u + kc*x*ke', 'm/s']], 'controls': [['u', 'm/s**2']],
                'constants': CONSTS, 'cost': {'path': 'u**2 + kd*x**2 + kj*x*v', 'units': '1'},
                'initial': [['x', 'm'], ['v', 'm/s'], ['t', 's']], 'terminal': [['x - ka', 'm'], ['v - kb', 'm/s'], ['t - 1', 's']]}
        rng = np.random.default_rng(5)
        spec['constants'] = [list(CONSTS[i]) for i in rng.permutation(len(CONSTS))]
        _BVP['p'] = ocp.build_problem(spec)
        _BVP['b'] = ocp.to_bvp(_BVP['p'])
    return _BVP['b']


def start_guess(rng, consts=None):
    from beluga.numeric.data_classes import Trajectory
    b = bvp()
    n = len(b.states)
    g = Trajectory(np.linspace(0, 1, 4), rng.normal(size=(4, n)), np.array([]), np.zeros((4, 0)))
    g.dynamical_parameters = np.ones(len(b.parameters))
    g.nondynamical_parameters = np.ones(len(b.constraint_parameters))
    g.const = np.array(consts if consts is not None else [c.default_val for c in b.constants], dtype=float)
    return g


class TooMany(Exception):
    pass


def make_solver(policy, log, hostile=False, limit=600, rng=None, flag=bool):
    """policy(attempt_index, const) -> bool. log collects one record per solve call.
    The trajectory of attempt i is marked with y[0,0] = 1000 + i. hostile: the solver scribbles over what it was
    given and over what it returned earlier (a correct caller keeps its own copies). flag: the type of the
    convergence flag (comparisons of arrays give NumPy's own booleans, and some of the real root finders hand those on)."""
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm, BVPResult

    class Scripted(BaseAlgorithm):
        def solve(self, solinit, **kw):
            i = len(log)
            if i >= limit:
                raise TooMany()
            rec = {'const': np.array(solinit.const, float).copy(), 'mark': float(solinit.y[0, 0]), 'y': np.array(solinit.y).copy(),
                   'kw': dict(kw)}
            ok = bool(policy(i, rec['const']))
            rec['ok'] = ok
            sol = copy.deepcopy(solinit)
            sol.y = np.array(sol.y)
            sol.y[0, 0] = 1000.0 + i
            sol.y[-1, -1] = float(np.sum(rec['const']))
            sol.converged = flag(ok)
            rec['returned'] = copy.deepcopy(sol)
            if hostile:
                solinit.y[:] = -7.0
                solinit.const[:] = -7.0
                solinit.converged = True
                if log and 'ref' in log[-1]:
                    old = log[-1]['ref']
                    old.y[:] = -9.0
                    old.const[:] = -9.0
                    old.converged = True
                rec['ref'] = sol
            log.append(rec)
            return BVPResult(sol=sol, success=flag(ok), message='', niter=1)
    return Scripted()


def run_set(steps, guess, solver, autoscale=False):
    from beluga.continuation import run_continuation_set
    return run_continuation_set(solver, steps, guess, bvp(), None, autoscale)


def run_solve(steps, guess, solver, autoscale=False):
    """The same through beluga.solve; the solutions come back in the variables of the user."""
    import beluga
    b = bvp()

    class Given:
        def generate(self, *args, **kw):
            return copy.deepcopy(guess)
    return beluga.solve(ocp=_BVP['p'], bvp=b, ocp_map=b.map_sol, ocp_map_inverse=b.inv_map_sol, bvp_algorithm=solver, steps=steps,
                        guess_generator=Given(), autoscale=autoscale, save_sols=False)


def kidx():
    return {n: i for i, n in enumerate(ocp.names(bvp().constants))}
