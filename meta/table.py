SETUP = '/opt/venv/bin/python -c "import numba, numpy, scipy, sympy"'
NOTES = ('All checks run the real code of /repo from its working tree in worker processes; nothing is built or cached. '
         'No hooks were added to /repo. See DESIGN.md.')
NOT_APPLICABLE = []
MAP = 'beluga/symbolic/data_classes/mapping_functions.py'
NUM = 'beluga/numeric/data_classes/NumericProblem.py'
TM = 'beluga/numeric/data_classes/trajectory_mappers.py'
SHOOT = 'beluga/numeric/bvp_solvers/Shooting.py'
SP = 'beluga/numeric/bvp_solvers/SPBVP.py'
CONT = 'beluga/continuation/continuation.py'
GUESS = 'beluga/continuation/guess_generators.py'
TOP = 'beluga/beluga.py'
PROB = 'beluga/symbolic/data_classes/symbolic_problem.py'
COMP = 'beluga/symbolic/data_classes/components_structures.py'
IVP = 'beluga/numeric/ivp_solvers/ivpsol.py'

PROPERTIES = [
 dict(id='C01', title='The boundary-value problem is exactly the first-order necessary conditions',
  statement='For every smooth optimal control problem a user states, the boundary-value problem handed to the solvers consists of exactly the first-order necessary conditions of that problem: the state rates, the costate rates (minus the gradient of the Hamiltonian), a control that keeps the Hamiltonian stationary (and minimal among the stationary candidates), the stated boundary constraints, and the transversality conditions with one multiplier per constraint. This holds for the traditional and the differential-geometric formulation, for algebraic and differential control laws, with or without time as an explicit state and with or without normalised time. The system is square: as many conditions as unknowns.',
  over=['inputs', 'configurations'], quant='every smooth problem (any number of states, controls, constants, boundary constraints, cost terms, explicit time) and every formulation option',
  why='the tests solve a few fixed problems; a sign or a missing term in one transversality condition only shows for problems that have that term',
  files=[MAP, 'beluga/symbolic/differential_geometry/differential_geometry.py', NUM],
  mech=[('dualisation', MAP + ':Dualize'), ('control laws', MAP + ':AlgebraicControlLaw, DifferentialControlLaw'), ('time', MAP + ':MomentumShift, NormalizeTime')],
  observe='rates and boundary residuals returned by the compiled problem at random points',
  technique='runtime monitoring: reference-model oracle (independent Pontryagin derivation) over compiled rate and boundary functions on random problems',
  note='random problems x formulations, probed at random points; trusts sympy differentiation'),
 dict(id='C12', title='Propagation solves the initial-value problem; quadratures are integrals',
  statement='A propagated trajectory starts exactly at the given state and time, ends exactly at the requested time, advances monotonically (forwards or backwards) with no step above the requested maximum (exactly that step when a fixed step is requested, the last one being what is left of the span), and follows the solution of the stated differential equation to the requested tolerance with every stepper. Quadratures along it, fully reconstructed or quick, are the integrals of their rates added to the given initial value, over any sub-span.',
  over=['inputs', 'configurations'], quant='every smooth system, span (either direction), tolerance, stepper, step mode and quadrature mode',
  why='tests propagate a few systems with default settings',
  files=[IVP], mech=[('propagator', IVP + ':Propagator'), ('quadrature', IVP + ':integrate_quads, reconstruct')],
  observe='trajectories returned by Propagator and integrate_quads',
  technique='runtime monitoring: propagation outputs checked online against closed-form solutions and grid invariants',
  note='random linear/nonlinear systems with closed-form solutions'),
 dict(id='C13', title='Trajectories interpolate and index their own data',
  statement='Evaluating a trajectory at one of its own times returns the stored row; between nodes it returns the interpolant of the two neighbouring rows (of the selected interpolation kind); evaluation at arrays, indexing and slicing return exactly the stored rows for time, states, quadratures and controls, with empty arrays for absent components; replacing the data is reflected by the next evaluation.',
  over=['inputs', 'histories'], quant='every grid (uneven, increasing, decreasing), number of states, quadratures and controls, and interpolation kind',
  why='tests index a handful of small trajectories', files=['beluga/numeric/data_classes/Trajectory.py'],
  mech=[('trajectory', 'beluga/numeric/data_classes/Trajectory.py:Trajectory')], observe='values returned by calling and indexing trajectories',
  technique='runtime monitoring: reference-model oracle (numpy/scipy interpolation) over random trajectories and operations',
  note='random trajectories and operation sequences'),
 dict(id='C14', title='Numerical derivatives approximate the true derivatives',
  statement='Numerical derivatives generated for a user function (central, forward, backward or complex step; any total order up to three, mixed over several arguments) approximate the exact derivative at every point to the accuracy of the scheme, plain and compiled.',
  over=['inputs', 'configurations'], quant='every smooth function, point, order and scheme',
  why='tests sample one function and one order', files=['beluga/numeric/numerical_derivatives/finite_diff.py', 'beluga/numeric/numerical_derivatives/complex_step.py'],
  mech=[('schemes', 'beluga/numeric/numerical_derivatives/finite_diff.py')], observe='values returned by the generated derivative functions',
  technique='runtime monitoring: derivative values checked against exact symbolic derivatives',
  note='random functions, orders and schemes; tolerances separate the accuracy classes'),
 dict(id='C15', title='Tables are natural cubic splines and never read outside their data',
  statement='A table stated by the user evaluates to the natural cubic spline through its data at every point inside the data (at the nodes exactly the data), extends continuously beyond both ends, and its derivatives (used for costates and Jacobians) are the derivatives of that spline. No lookup ever reads outside the table arrays, compiled or not.',
  over=['inputs', 'memory safety'], quant='every table and argument value, inside, at and beyond the ends of the data',
  why='tests look up one table at interior points; an out-of-bounds read in compiled code is silent',
  files=['beluga/symbolic/special_functions/tables.py', PROB], mech=[('table', 'beluga/symbolic/special_functions/tables.py:TableSpline1D')],
  observe='table values and problem rates; compiled code under the run-time bounds sanitizer',
  technique='runtime monitoring: spline reference oracle plus compiled-code array-bounds sanitizer (NUMBA_BOUNDSCHECK)',
  note='random tables, arguments and problems; bounds sanitizer on compiled lookups'),
 dict(id='C03', title='Solution maps between user problem and BVP lose and invent nothing',
  statement='The map that turns a user-level guess into a boundary-value-problem guess and the map that turns a solution back are inverse to each other on everything the user sees: time, states, costates, dual of time, controls, free parameters, multipliers given with a guess and constants each arrive under their own name, whatever the formulation (traditional or differential-geometric, differential or algebraic control, time state or not, normalised time or not, bounded controls). Normalised time carries the duration as a parameter. With algebraic control the returned control is, at the returned states and costates, the stationary one with the least Hamiltonian.',
  over=['inputs', 'configurations'], quant='every problem shape, formulation and trajectory',
  why='a permuted column or a lost offset only shows for problems with several controls, parameters or a nonzero start time',
  files=[TM, MAP, PROB], mech=[('mappers', TM), ('map chain', PROB + ':Problem.map_sol')],
  observe='trajectories returned by the forward and inverse solution maps of the compiled problem',
  technique='runtime monitoring: round-trip and by-name transport monitors on the solution maps',
  note='random problems x formulations x random trajectories, both directions'),
 dict(id='C04', title='Boundary-value solvers never claim a solution that is not one',
  statement='A trajectory flagged as converged by shooting (any root finder, any number of arcs) or collocation covers the requested span, follows the differential equation (and quadratures) on every interval without jumps between arcs, and satisfies the boundary conditions to the tolerance, for the constants it was given. Infeasible problems are never flagged as converged. Benign problems are solved, to their unique solution, with or without analytical Jacobians. Limits the caller sets (nodes, iterations, largest residual) bound the work, and cut off only what needs more. The caller guess is not modified, and a solver object can be reused for other problems.',
  over=['inputs', 'configurations', 'histories'], quant='every boundary-value problem, solver, root finder, number of arcs, tolerance and guess',
  why='tests check that solvable problems are solved; false claims of convergence need problems that are not solved',
  files=[SHOOT, SP], mech=[('shooting', SHOOT + ':Shooting.solve'), ('collocation', SP + ':SPBVP.solve')],
  observe='results returned by the solvers, re-integrated independently',
  technique='runtime monitoring: every returned trajectory re-integrated interval by interval and its boundary residual recomputed',
  note='random linear/nonlinear/infeasible problems with known solutions x all root finders'),
 dict(id='C05', title='Continuation walks exactly the promised schedule to its targets',
  statement='A continuation step moves the named constants from the values the previous step ended with to their targets through exactly the promised points (linearly or logarithmically spaced cases, the first at the current values and, of two or more, the last at the targets; every point of the product grid once; every corner and intermediate point of the sparse grid) and leaves all other constants alone. When a case fails, a manual step stops with an error; a bisection step goes back to the last converged point and retries a fraction of the way (the promised number of divisions), walks through all inserted points up to the target, and gives up with an error after max_divisions consecutive divisions. A first case that fails stops with an error. A run never ends short of its target without an error, and running the same steps again repeats the same schedule.',
  over=['inputs', 'histories', 'faults'], quant='every chain of steps, number of cases, targets, and every pattern of converging and failing cases',
  why='tests run continuations that converge at every case; the failure patterns are what bisection exists for',
  files=[CONT], mech=[('strategies', CONT + ':ManualStrategy, BisectionStrategy, ProductStrategy, SparseProductStrategy'), ('loop', CONT + ':run_continuation_set')],
  observe='the sequence of constants the solver is asked to solve for',
  technique='runtime monitoring: trace checker of the solver-call sequence against an independent schedule model, with injected convergence failures',
  note='random step chains x failure patterns through a scripted solver'),
 dict(id='C06', title='Continuation warm-starts from the nearest solution and records everything',
  statement='Every continuation case is started from the converged solution of the same step whose constants are nearest to the requested ones; the first case of a step is started from the last solution of the previous step (or the initial guess). Exactly the solutions the solver returned, in order, converged or not, with their own constants and flags, are recorded in the result (and returned by solve). Nothing leaks: the initial guess of the caller is not modified, and a solver that later modifies a guess it was given or a trajectory it returned cannot change recorded or reused solutions.',
  over=['inputs', 'histories', 'faults'], quant='every chain of steps and every pattern of converging and failing cases',
  why='tests see only final solutions of converging chains; using a failed or a farther solution as a guess usually still converges',
  files=[CONT], mech=[('nearest solution', CONT + ':ContinuationStrategy.get_closest_gamma'), ('loop', CONT + ':run_continuation_set')],
  observe='the guesses handed to the solver and the returned solution set',
  technique='runtime monitoring: provenance trace of marked trajectories through the continuation loop, hostile solver faults injected',
  note='random step chains x failure patterns, hostile mutations by the solver'),
 dict(id='C07', title='Automatic scaling is an exact, invertible change of units',
  statement='With autoscale every quantity is divided by the factor its stated units give (the scale of each base unit evaluated at the largest magnitude of the guess), undoing the scaling restores the trajectory exactly, and for a dimensionally consistent problem the scaled problem is the same problem: rates, quadrature rates, control law and boundary conditions of the compiled problem (free parameters included) are homogeneous under the factors. A continuation run with scaling hands the solver the scaled guess of each case and returns solutions and constants in the units of the user, the same as without scaling.',
  over=['inputs', 'configurations'], quant='every dimensionally consistent problem, choice of scales, formulation and trajectory',
  why='a wrong unit on one costate or multiplier only changes the conditioning of the solves that tests run',
  files=[NUM, CONT, MAP, COMP], mech=[('scaling', NUM + ':NumericProblem.compile_scaling'), ('loop', CONT + ':run_continuation_set')],
  observe='scaled trajectories, compiled functions at scaled points, solver inputs and results of scaled continuations',
  technique='runtime monitoring: homogeneity and inverse monitors on the compiled scaling, differential scaled/unscaled continuation traces',
  note='random dimensionally consistent problems'),
 dict(id='C02', title='solve() returns solutions of the problem the user stated',
  statement='Whatever formulation, control method, solver, scaling, Jacobian option, guess, initial helper and continuation the user selects, every solution beluga.solve returns as converged satisfies the stated problem and its first-order optimality conditions: initial and terminal constraints, dynamics, costate equations, stationarity and transversality, on the time span it reports, with the constants the continuation ended with. Benign problems (linear-quadratic, minimum time-energy, brachistochrone, with and without free parameters) are solved, to their unique closed-form optimum, with the reported cost equal to the optimal cost.',
  over=['inputs', 'configurations', 'histories'], quant='every problem, formulation, solver, scaling and continuation',
  why='tests solve a fixed list of examples and compare a few numbers; each combination of options takes a different path through the code',
  files=[TOP, MAP, SHOOT, SP, CONT, GUESS, NUM], mech=[('pipeline', TOP + ':solve')],
  observe='the solution set returned by beluga.solve',
  technique='runtime monitoring: end-to-end solves checked against closed-form optima and independently derived optimality conditions',
  note='closed-form families across all option combinations plus random nonlinear problems judged by necessary conditions'),
 dict(id='C11', title='Quantities, switches, functions and tables mean what they stand for',
  statement='A problem stated with named quantities (nested, declared in any order), smooth switches, user-written functions and tables is the same problem as the one with everything written out by hand: the boundary-value problem has the same unknowns, rates, costs and boundary conditions, wherever the names appear (dynamics, path, initial and terminal cost, boundary constraints, arguments of functions, branches and conditions of switches), including every derivative the formulation takes of them. No name is left unresolved.',
  over=['inputs', 'configurations'], quant='every problem and every nesting and declaration order of named components',
  why='tests use one or two quantities in one place; a stale or missing substitution needs nesting or an unusual place',
  files=[MAP, COMP, PROB, 'beluga/symbolic/special_functions/custom_functions.py', 'beluga/symbolic/special_functions/tables.py'],
  mech=[('quantities', MAP + ':ApplyQuantities'), ('switches', COMP + ':SwitchStruct'), ('functions', 'beluga/symbolic/special_functions/custom_functions.py')],
  observe='rates and boundary residuals of the compiled problem',
  technique='runtime monitoring: metamorphic differential monitor (named problem against written-out problem) plus independent necessary-condition oracle',
  note='random nesting, order and use of every kind of named component'),
 dict(id='C09', title='Analytical Jacobians are the derivatives of the functions they belong to',
  statement='When analytical Jacobians are requested, every block (rates with respect to states and parameters; boundary conditions with respect to initial and final states, quadratures, parameters and multipliers) equals the derivative of the corresponding compiled function at every point, for every formulation that offers them, with normalised time or not, with free parameters or none; formulations for which they are not available (algebraic control) offer none. The Jacobians the collocation solver hands on are the derivatives of the functions it hands on.',
  over=['inputs', 'configurations'], quant='every problem, formulation and evaluation point',
  why='solvers usually still converge with a wrong Jacobian entry, only slower, or fail on other problems',
  files=[MAP, NUM, SP], mech=[('Jacobians', MAP + ':ComputeAnalyticalJacobians'), ('compilation', NUM + ':NumericProblem.compile_bc_jac_func'), ('collocation', SP + ':SPBVP.solve')],
  observe='Jacobians returned by the compiled problem and those intercepted at the SciPy solver interface',
  technique='runtime monitoring: Jacobian evaluations (direct and intercepted in real solves) checked against extrapolated differences of the monitored functions',
  note='random problems x formulations; solver interface intercepted'),
 dict(id='C08', title='Compiled functions compute the expressions they were compiled from',
  statement='A function compiled from symbolic expressions (a scalar, a vector, a nested list or matrix, or nothing; over scalar and grouped arguments; real or complex; with user functions among the locals) returns the values of those expressions in the same structure, whether it was just-in-time compiled, interpreted, or could not be compiled and fell back to plain Python; names the problem declares always mean those symbols when text is parsed, the last declaration of a name counts, and functions given for one compilation take precedence. Among several candidate controls the compiled control is the one with the least Hamiltonian. Compiled code never reads outside its arrays.',
  over=['inputs', 'configurations', 'memory safety'], quant='every expression, argument grouping, output structure and compilation mode',
  why='tests only compile the functions of a few example problems',
  files=['beluga/numeric/compilation/LocalCompiler.py', 'beluga/numeric/compilation/jit.py', 'beluga/numeric/compilation/component_compilation.py'],
  mech=[('compilation', 'beluga/numeric/compilation/jit.py'), ('locals', 'beluga/numeric/compilation/LocalCompiler.py'), ('control selection', 'beluga/numeric/compilation/component_compilation.py:compile_control')],
  observe='values returned by compiled functions',
  technique='runtime monitoring: arbitrary-precision reference oracle over compiled functions, in three execution modes including the array-bounds sanitizer',
  note='random expression trees and argument groupings in interpreted, compiled and bounds-checked modes'),
 dict(id='C10', title='Inequality constraints become exactly their penalties and are respected',
  statement='A problem with two-sided inequality constraints is turned into exactly the regularised problem: a bounded control u is replaced everywhere (dynamics, costs, other constraints) by its trigonometrisation between its bounds with the error cost -eps*cos, and every secant-penalised initial, path or terminal expression adds eps*(sec(pi/2*(2e - upper - lower)/(upper - lower)) - 1) to the initial, path or terminal cost and is removed from the constraint list, however many there are, in whatever order they were stated, with constant or varying bounds. Controls handed back to the user for a bounded control lie within the bounds for every trajectory, and solved problems respect their bounds and minimise the penalised cost.',
  over=['inputs', 'configurations'], quant='every problem, number, order and kind of inequality constraints, bounds and trajectory',
  why='tests solve a handful of problems with one constraint each; interactions of several constraints and orders are not run',
  files=[MAP, COMP, TM], mech=[('trigonometrisation', MAP + ':EpsTrig'), ('penalties', MAP + ':UTM'), ('control map', TM + ':EpsTrigMapper')],
  observe='rates, boundary residuals and mapped controls of the compiled problem; solutions returned by solve',
  technique='runtime monitoring: metamorphic differential monitor against the written-out problem, bound monitor on mapped controls, minimiser oracle on solves',
  note='random sets and orders of constraints; solved convex cases'),
 dict(id='C16', title='Symmetries give conserved quantities; reduced problems equal the original',
  statement='For a problem with stated symmetries in the differential-geometric formulation, the list of constants of motion contains the Hamiltonian, the momentum of every stated symmetry, and the adjoint of time when nothing depends on time, and every listed quantity has zero rate along the compiled vector field at every stationary point. With reduction requested, the reduced problem has two states fewer per symmetry, its rates, quadrature rates and boundary conditions agree with the unreduced problem at corresponding points, user trajectories survive the map into the reduced problem and back, and solving with and without reduction gives the same optimum, for any number, order and position of the symmetries and for both control methods.',
  over=['inputs', 'configurations'], quant='every problem with translation (reduction) or translation and rotation (conservation) symmetries, every point and trajectory',
  why='tests reduce one fixed problem; a wrong sign, index or a missed substitution for another number or position of symmetries goes unseen',
  files=[MAP, TM, 'beluga/symbolic/differential_geometry/differential_geometry.py'],
  mech=[('reduction', MAP + ':MishchenkoFomenko'), ('solution maps', TM + ':MF'), ('constants of motion', 'beluga/symbolic/differential_geometry/differential_geometry.py:noether')],
  observe='listed constants of motion, compiled rates, quadratures and boundary residuals, mapped trajectories, solutions',
  technique='runtime monitoring: conservation monitor on the compiled flow, differential monitor of reduced against unreduced problem, solve comparison',
  note='random symmetries x formulations; solves with and without reduction'),
 dict(id='C17', title='What is saved is what is loaded, also in another process',
  statement='Saving a set of solutions, a problem and its compiled form, and loading the file later, in a fresh interpreter with any hash seed, gives back the same solutions field by field and bit for bit (any nesting, empty arrays, infinities and NaN), a problem with the same components, and a compiled problem whose rate, boundary and control functions and solution maps return the same values as before; a file written by solve contains exactly what solve returned, whatever file was there before, and a loaded solution can be used as the guess that starts the next solve. Problems with custom functions and tables are included.',
  over=['inputs', 'histories'], quant='every solution set, every problem and formulation option, every earlier file content',
  why='tests never load a file in another process; a field left out of the file or an object that only loads where it was made is invisible until the user restarts',
  files=['beluga/utils/storage.py', TOP, 'beluga/symbolic/special_functions/custom_functions.py', 'beluga/symbolic/special_functions/tables.py', 'beluga/numeric/data_classes/Trajectory.py'],
  mech=[('storage', 'beluga/utils/storage.py:save, load'), ('saving of solves', TOP + ':solve')],
  observe='objects loaded by a fresh process, and their values at random points',
  technique='runtime monitoring: round-trip monitor across processes with value fingerprints of objects and functions',
  note='random solution sets, problems and solves through fresh processes'),
 dict(id='C18', title='Solving is repeatable and leaves its inputs and earlier results alone',
  statement='Solving the same problem with equal settings gives bit-identical results: with the very same objects a second time, with fresh objects, with a precompiled problem, with another logging level, and in another process with another hash seed. solve does not alter the problem, the options, the guess it is given or the constants in them; the trajectories it returns share no memory with each other or with the inputs; and one problem object can be put through any formulations in any order with the same outcome as a fresh problem object.',
  over=['inputs', 'histories', 'configurations'], quant='every problem, guess kind, continuation strategy, solver, order of uses and hash seed',
  why='each test solves once in a fresh process; state that leaks from one use to the next only shows in the second use',
  files=[TOP, GUESS, CONT, TM, MAP, PROB],
  mech=[('copies', TOP + ':solve'), ('static guess', GUESS + ':GuessGenerator.static'), ('solutions per case', CONT + ':run_continuation_set')],
  observe='returned trajectories bit by bit, fingerprints of the inputs before and after, values of problems compiled under different hash seeds',
  technique='runtime monitoring: self-differential monitor over repeated, reordered and re-seeded runs with input fingerprints and aliasing probes',
  note='repeated solves, formulation histories and hash-seeded processes'),
 dict(id='C19', title='Shooting with a pool of processes answers as shooting without one',
  statement='Given the same boundary-value problem, guess, root finder and number of arcs, shooting with a pool of processes returns bit-identical trajectories, parameters, convergence verdict and iteration count as shooting without a pool, for any number of workers and any order and timing in which they finish; every arc is propagated exactly once per evaluation with the arguments of that arc, results are joined in the order of the arcs, an error in a worker reaches the caller, and neither the guess nor earlier results change. The same holds for solve with any number of cpus.',
  over=['schedules', 'inputs'], quant='every schedule of the workers, every number of arcs, workers, states, quadratures and parameters',
  why='no test passes a pool at all',
  files=[SHOOT, IVP, TOP, 'beluga/utils/storage.py'],
  mech=[('parallel arcs', SHOOT + ':Shooting._make_gammas_parallel'), ('pool', TOP + ':solve')],
  observe='results with and without a pool bit by bit, the tasks and results that pass through the pool',
  technique='runtime monitoring: schedule injection (stand-in pools in random order, real pools with random delays) with a differential monitor and exactly-once task accounting',
  note='stand-in pools, real pools with delays, whole solves'),
 dict(id='C20', title='Geometric operators satisfy the identities of exterior calculus',
  statement='For all smooth expressions and any list of coordinates in any order: the exterior derivative of a scalar field is its gradient, that of a one-form is its antisymmetric curl (d f)_ij = d_i f_j - d_j f_i, and applying it twice gives zero; the standard symplectic form pairs state i with costate i (+1 above, -1 below); the Hamiltonian vector field X of H for a non-degenerate skew form omega satisfies omega X = -dH, so it conserves H and for the standard form is Hamilton\'s equations; is_symplectic accepts exactly square, even-dimensional, skew forms; the total derivative follows the chain rule through dependent variables; the field of a quantity and the quantity of a constant field (noether) are dual to each other. Odd, non-square or mismatched forms are refused and inputs are not altered.',
  over=['inputs'], quant='every smooth expression, coordinate list and skew form',
  why='tests evaluate one two-dimensional example of each operator',
  files=['beluga/symbolic/differential_geometry/differential_geometry.py'],
  mech=[('operators', 'beluga/symbolic/differential_geometry/differential_geometry.py:exterior_derivative, make_hamiltonian_vector_field, make_standard_symplectic_form, total_derivative, is_symplectic, pb, noether')],
  observe='the returned expressions evaluated at random points',
  technique='runtime monitoring: identity monitors on operator results against high-precision numerical differentiation',
  note='random expressions and forms in up to six coordinates'),
 dict(id='C21', title='Problem transformations compose like functions',
  statement='f * g and f << g apply g first and then f; f >> g applies f first and then g; f ** n applies f n times and f ** 0 is the identity; grouping does not matter; the identity functor changes nothing; composing never alters its operands, which keep doing what they did before; a composition can be applied any number of times; negative powers raise ValueError and non-integer powers TypeError.',
  over=['inputs'], quant='every composition tree',
  why='the pipelines exercise one fixed chain; a wrong order or a shared operand shows only in other trees',
  files=[MAP],
  mech=[('composition', MAP + ':GenericFunctor')],
  observe='the order in which instrumented steps are applied',
  technique='runtime monitoring: trace monitor of instrumented functors against an independent evaluation of the composition tree',
  note='random composition trees and regrouped chains'),
 dict(id='C22', title='The guess handed to the solver is the guess the user asked for',
  statement='With an automatic guess the solver is handed a trajectory that starts at the given states, costates (one number for all, or a list) and, for differential control laws, controls, and that follows the state, costate and control equations of the problem for the given time, forward or in reverse; with constant guesses (mode ones) every node equals the given values on an even grid; a static guess arrives unchanged in the user\'s coordinates. Constants of the guess are the problem\'s values, and the initial helper replaces exactly the constants named <state>_0, <state>_f, <time>_0, <time>_f by the end values of the guess, whatever the order of states and constants. Wrong directions, a zero integration time and unknown modes are refused with ValueError.',
  over=['inputs', 'configurations'], quant='every problem, guess setting, formulation, with and without scaling and continuation',
  why='tests only see whether a solve converged afterwards, and a solver often recovers from a wrong guess',
  files=[GUESS, TOP, TM],
  mech=[('guesses', GUESS + ':GuessGenerator'), ('initial helper', GUESS + ':match_constants_to_states'), ('use', TOP + ':solve')],
  observe='the trajectory a recording solver is handed, mapped back to the user\'s coordinates',
  technique='runtime monitoring: recording solver with a specification monitor and independent propagation of the necessary conditions',
  note='random problems x guess settings x formulations'),
dict(id='C23', title='The cost reported with a solution is the stated cost of that solution',
  statement='The cost attached to every trajectory that solve returns, of every continuation case, equals initial cost at its first node plus terminal cost at its last node plus the integral of the path cost over its own time span, evaluated on the times, states, controls, free parameters and constants of that same trajectory in the user\'s own units, to the accuracy of a quadrature on its nodes; this holds with and without scaling, for any control method and formulation, for costs with explicit time, free parameters, quantities and constants moved by the continuation. Problems with free parameters can be solved from a guess that names no adjoints of them.',
  over=['inputs', 'configurations'], quant='every problem without penalised bounds, formulation, trajectory and continuation',
  why='tests compare end states and hardly ever the cost; a cost taken in scaled units or with stale constants looks plausible',
  files=['beluga/numeric/compilation/component_compilation.py', TM, TOP],
  mech=[('cost evaluation', 'beluga/numeric/compilation/component_compilation.py:compile_cost'), ('attached to solutions', TM + ':DualizeMapper.inv_map')],
  observe='the cost field of returned trajectories',
  technique='runtime monitoring: recording solver with an independent evaluation of the stated functional on each returned trajectory',
  note='random problems x answers x continuation cases'),
dict(id='C24', title='Malformed requests are refused, and a refusal changes nothing',
  statement='Names declared twice (RuntimeWarning, whatever the kinds), unknown kinds of tables, a problem that is missing or has no states, cost units that do not fit (RuntimeWarning), unknown methods, control methods and constraint methods, epsilon-trig on an expression (NotImplementedError), constraints without their activator (the error names it), undeclared names in expressions, unknown constants of a continuation step, unknown strategies, solvers and guess modes (ValueError), fewer than one cpu, compiling without maps, num_cases set during iteration (RuntimeError), and transformation steps in the wrong order (ValueError) are refused before the solver is asked for anything. After a refusal every object involved is as if the refused call had never been made, and the corrected request works. Valid requests (fitting units in any spelling, solver names in any case) are not refused.',
  over=['inputs', 'histories'], quant='every malformed request of these kinds, on any problem, at any point of a session',
  why='tests check almost no refusal, and none what state a refused call leaves behind',
  files=[PROB, MAP, CONT, GUESS, TOP],
  mech=[('declarations', PROB + ':Problem'), ('requests', TOP + ':solve'), ('steps', CONT), ('transformations', MAP)],
  observe='exceptions raised, calls the solver receives, fingerprints of the objects before and after',
  technique='runtime monitoring: fault injection of malformed requests with state-fingerprint monitors and valid twins',
  note='random problems x kinds of malformed requests x position in the session'),
dict(id='C25', title='A boundary-value problem stated directly is solved as stated',
  statement="With method='direct' a problem without controls (states, quadratures, free parameters, constants, quantities, conditions at both ends in any order, time as a state or not, free or fixed duration, normalised time or not) is compiled to exactly its rates (scaled by the duration when time is normalised), its quadrature rates, its boundary conditions and their Jacobians, and every solution returned as converged satisfies the stated equations, quadratures and conditions on the time span it reports, by collocation or shooting.",
  over=['inputs', 'configurations'], quant='every directly stated problem, option and solver',
  why='no test solves a direct problem with quadratures, free parameters or analytical Jacobians',
  files=[MAP, NUM, TM, SP, SHOOT, TOP, PROB],
  mech=[('pipeline', TOP + ':solve'), ('direct method', PROB + ':Problem'), ('time normalisation', MAP + ':NormalizeTime')],
  observe='compiled functions and solutions returned by beluga.solve',
  technique='runtime monitoring: compiled functions compared with the statement at random points and returned solutions re-integrated independently',
  note='random direct problems x options x solvers'),
dict(id='C26', title='Messages go where they were asked to go, and logging never influences results',
  statement='After add_logger or init_logging with a display level and a file level, every message logged at or above the display level appears exactly once, in order, on the standard output, every message at or above the file level exactly once in the named file, which holds the messages of this set-up only, and no message below the level; without a file level no file is written. The last set-up alone counts, and neither the level nor the handlers of the root logger of the process matter. A solve returns the same numbers, bit for bit, whatever is logged.',
  over=['inputs', 'configurations', 'histories'], quant='every sequence of set-ups and messages, every level, every solve',
  why='no test looks at the log, and with the default set-up a level was silently taken from the root logger',
  files=['beluga/utils/logging.py', TOP, CONT],
  mech=[('set-up', 'beluga/utils/logging.py:init_logging'), ('entry', TOP + ':add_logger')],
  observe='standard output, log files and arrays returned by solve',
  technique='runtime monitoring: messages recorded at their source and followed to their destinations; solves under different set-ups compared bit by bit',
  note='random sequences of set-ups and messages; solves with continuation'),
]
