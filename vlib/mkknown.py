"""Writes known_findings.json (run by hand when a finding is added; never by a check)."""
import json, os, subprocess
log = dict((l.split(' ', 1)[1], l.split(' ', 1)[0]) for l in subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())


def commit(start):
    return next(h for s, h in log.items() if s.startswith('fix: ' + start))


FIXED = [
    ('C03', 'control adjoints are', 'the diffyg guess map put the control adjoints in front of the costates and failed for two controls'),
    ('C04', 'shooting judges', 'shooting with fsolve / SciPy root methods judged convergence at the guess instead of the returned point and crashed for COBYLA'),
    ('C19', 'parallel shooting passes', 'shooting with a pool called the propagator with the wrong number of arguments'),
    ('C12', 'quick quadrature', 'quick quadrature reconstruction raised TypeError'),
    ('C15', 'tables convert', 'every table raised AttributeError (np.float) with current numpy'),
    ('C15', 'tables never index', 'a table read outside its data at and beyond the last node and used the wrong cubic before the first node'),
    ('C14', 'numerical derivatives', 'numerical derivatives of functions of several arguments raised or were wrong'),
    ('C11', 'custom functions', 'custom functions and tables lost derivatives with respect to scaled, repeated or substituted arguments'),
    ('C05', 'a continuation step that was bisected', 'a bisected continuation step kept its grown number of cases when it was started again'),
    ('C05', 'product continuation', 'a product continuation step that was started again replayed the points of its first run'),
    ('C01', 'adjoints of free parameters', 'the adjoints of free parameters were not scaled with the duration when time is normalised'),
    ('C12', 'fixed-step propagation', 'fixed-step propagation backwards in time raised'),
    ('C12', 'the Radau stepper', 'the Radau stepper could not be selected by any spelling'),
    ('C04', 'collocation accepts', 'collocation with analytical Jacobians raised for problems without parameters'),
    ('C04', 'collocation uses', 'collocation with analytical Jacobians raised for problems with quadratures'),
    ('C16', 'symmetry reduction substitutes', 'algebraic control laws of a symmetry-reduced problem still named the removed states'),
    ('C16', 'units that name a reduced state', 'units defined by a state that reduction removes raised'),
    ('C16', 'time is no symmetry of a path cost', 'the adjoint of time was listed as a constant of motion when only the path cost depends on time'),
    ('C17', 'expressions with custom functions', 'a saved problem with a custom function or a table could not be loaded in another process'),
    ('C17', 'control adjoints of an earlier', 'a solution returned by a differential-geometric solve could not be used as the next guess when the mesh had changed'),
    ('C18', 'a static guess is copied', 'solve altered the static guess it was given, so a second use of it failed'),
    ('C19', 'parallel shooting hands', 'parallel shooting failed now and then with NameError in the workers and was slower by a factor of twenty'),
    ('C20', 'total derivatives', 'total_derivative with dependent variables raised AttributeError'),
    ('C23', 'problems with free parameters', 'solve raised for every problem with a free parameter: a guess without adjoint quadratures failed in the boundary conditions and the cost of the answer could not be evaluated'),
    ('C20', 'the symmetry of a quantity', 'noether raised IndexError for a quantity that depends on the states alone'),
    ('C24', 'a missing activator', 'a control constraint without activator raised an unrelated error'),
    ('C06', 'continuation recognises', 'a solution whose convergence flag is a NumPy False was taken for converged'),
    ('C25', 'normalising time scales', 'stated quadratures were not scaled with the duration when time is normalised'),
    ('C25', 'analytical Jacobians of problems', 'analytical Jacobians raised for problems without free parameters'),
    ('C22', 'static guesses may hold', 'a static guess held in arrays of integers lost the fractions of its times, controls and adjoints'),
    ('C12', 'fixed steps that fit the span', 'fixed-step propagation over spans that the step divides, such as [1, 1.3] by 0.1, raised ValueError or left a sliver of a step'),
    ('C26', 'messages at the display level', 'without a log file the logger took its level from the root logger, so informational messages were never displayed'),
]
KNOWN = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'meta', 'known.json')))
out = [dict(k, status='known') for k in KNOWN]
for p, c, w in FIXED:
    out.append({'property': p, 'status': 'fixed', 'commit': commit(c), 'text': 'fixed: property=%s %s %s' % (p, commit(c), w)})
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
json.dump({'findings': out}, open(path, 'w'), indent=1)
