"""Writes /verif/MANIFEST.json: every property with a file mc/checks/<id>.py and an entry below is claimed, the others are listed as not applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T = {  # id: (technique, level note)
 'C01': ('exhaustive enumeration of the feature lattice on real generated solvers against an independent KKT reference model', 'all formulations with up to 2 (thorough 3) deviations from a base OCP plus combined ones; every one is generated, compiled and solved by the real code'),
 'C02': ('exhaustive fault injection (QP results, NaNs, iteration/tolerance/time limits, infeasible bounds) at every iteration, stage and function of real generated solvers against the termination rules and an independent KKT model', 'all scripts of QP results up to length 3 (thorough 4); a NaN at every iterate x stage x function; every iteration limit; every tolerance separating two rows of the residual table; every solver type'),
 'C03': ('exhaustive exploration of operation histories (solves, failing solves, resets, option changes, other instances) of real generated solvers in lockstep with freshly created solvers', 'all ordered pairs (thorough triples) of about 12 operations for 43 formulation/solver configurations, all reset flag combinations, interleavings of two solvers'),
 'C04': ('exhaustive enumeration of all fields, stages and write/read sequences of real solvers against an abstract store model', 'all settable fields times stages times layouts and invalid variants over a feature lattice of solvers; every write is followed by a full snapshot of all readable state'),
 'C22': ('exhaustive enumeration of option assignment sequences against an abstract record, and of every documented option value through real generated solvers with recorded option traffic', 'all ordered pairs of assignments of every option with valid and invalid values; every documented value of every forwarded option is compiled into a solver and compared with what reaches the C option interface and the solver plan; conflict table; thorough adds all pairs of options'),
 'C18': ('exhaustive enumeration of all single-field changes of formulations through the real dump and load functions with leafwise comparison', 'every property of every section, every array entry and expression of a family of formulations; QPs, iterates for all stage counts around changes of the zero padding; zoRO, Simulink, ROS options; solvers from loaded objects'),
 'C19': ('exhaustive enumeration of all single-field changes of stored formulations against the real reuse decision', 'every property of every section, every array entry, every symbolic expression of a family of formulations is changed by itself; tolerances; torn and foreign json files at every truncation point; reused against regenerated solvers'),
 'C25': ('exhaustive operation-sequence exploration of the real containers against an abstract model', 'all operation sequences up to the stated depth and all container shapes within bounds'),
 'C27': ('explicit-state exploration of the parameter manager against an abstract map model', 'all operation sequences up to the stated depth'),
 'C28': ('exhaustive enumeration of bounded inputs of the real helpers against their mathematical definition', 'all matrices/index vectors/shapes within the stated bounds'),
 'C17': ('exhaustive enumeration of formulations and of all elementary corruptions of their data against an independent dimension model', 'all formulations with up to 2 (thorough 3) deviations; every elementary size, range and grid corruption of each datum of 1-deviation (thorough 2) and fully featured formulations must be rejected'),
 'C20': ('exhaustive enumeration of formulations and of penalty reformulation sequences on the real classes against an independent symbolic cost model, plus equivalence of the generated solvers', 'all cost type combinations times dimension/parameter variants times reformulations; all sequences of penalty reformulations up to depth 2 (thorough 3); all supports and couplings of quadratic costs over up to 5 variables'),
 'C21': ('exhaustive enumeration of formulations and of transformation sequences on the real classes against an independent model of the original problem, plus solved control horizon problems', 'all formulations with up to 2 (thorough 3) deviations times all transformations; all lists of constraint rows up to the stated length; points inside, on and outside the bounds'),
 'C15': ('exhaustive enumeration of all splits of a horizon into phases (differential against the single-phase solver) and of all pairs of unlike phases (against an independent KKT reference model) on real generated solvers', 'all compositions of the horizon of all formulations with up to 1 (thorough 2) deviations and combined ones; pairs and triples of unlike phases with and without a change of the state dimension; every single-stage update'),
 'C07': ('exhaustive enumeration of integrator configurations, input grids and call sequences on the real compiled integrators against an independent exactly differentiated Runge-Kutta model', 'all configurations with up to 2 (thorough 3) deviations from five base models; all call sequences up to depth 2 (thorough 3) over an alphabet of inputs including NaN data, step length changes, sensitivity switches and guesses; truncated Newton iterations'),
 'C26': ('exhaustive enumeration of a bounded grammar of implicit models through the real structure detection against the original dynamics, plus compiled integrators (differential against IRK)', 'all models of the grammar up to 3 states and 2 algebraic variables with up to two terms per equation; 48 points each; every k-th model (100, thorough 600) compiled and simulated'),
 'C23': ('exhaustive enumeration of formulations on the real CasADi back end against an independent model of the problem and its KKT conditions, plus all field/stage write-read histories', 'objective, feasible set, Hessians, optimal primal and dual variables of all formulations with up to 2 (thorough 3) deviations; every field of every stage written, taken through a solver call and read back; single shooting'),
 'C24': ('exhaustive enumeration of QP structures through the real QP classes and QP solvers against an independent QP model, its KKT conditions, all field/stage write-read histories and all elementary size corruptions', 'all QPs with up to 2 (thorough 3) deviations from a base QP plus combined ones; the QPs of real solvers over several steps; stage counts around changes of the zero padding'),
 'C10': ('exhaustive enumeration of sparsity patterns, argument layouts and formulations: every block of the QP of real generated solvers against independently differentiated expressions, and all histories of parameter updates', 'all patterns of small inputs/outputs times all layouts of the external function wrappers; all formulations with up to 2 (thorough 3) deviations plus combined ones; all sequences of parameter updates up to depth 2 (thorough 3)'),
 'C30': ('exhaustive enumeration of time grid specifications and of sequences of runtime grid changes: resulting grid and every QP block of real generated solvers against an independent reference that integrates each interval over its own step', 'all grids over a small step alphabet for horizons up to 4 (thorough 5), all integrators, scalings and ways to give the grid; all sequences of runtime changes up to depth 2 (thorough 3)'),
 'C14': ('exhaustive enumeration of pairs of runtime update operations on real generated solvers with all QP blocks compared with an independent reference, and of all updated fields and options against a solver generated with the new values', 'all ordered pairs of update operations (every field of every stage, time steps, condensing horizon, resets, solves) for 14 formulations; every field group, every runtime option value; all elementary invalid updates; all updates followed by a reset of the numerical values'),
 'C16': ('bounded exhaustive enumeration of zoRO descriptions (input modes, tightened constraint sets, horizon, dimensions) and of update sequences; the generated zoRO code is executed on the real solver and compared with a reference covariance propagation', 'propagated covariances, backed-off bounds and feedback gains equal an independent recomputation from the trajectories of the real solver'),
 'C08': ('exhaustive enumeration of formulations and options up to two (thorough: three) deviations, of sensitivity call sequences, returned-field and stage subsets on the real generated solver; oracle: difference quotients of re-solved problems', 'HPIPM as shipped lacks the sensitivity entry points: the shim solves the exact KKT derivative system'),
 'C13': ('exhaustive enumeration of integer stage Hessians, regularization methods, epsilon settings and phases on the real generated solver; every regularized QP and step compared with an independent eigen-decomposition and KKT solution', 'All symmetric integer stage Hessians of small dimension times methods and options; MIRROR/PROJECT/GERSHGORIN reference matrices, definiteness of the reduced Hessian, exact primal-dual solution for the convexified QP.'),
 'C12': ('exhaustive enumeration of formulations, globalization options and starting points; every transition of the real solver trace replayed on an independent automaton of the globalization method', 'traces are those of the real solver with stored iterates; ties and QPs not solved to tolerance are counted and not replayed'),
 'C06': ('exhaustive enumeration of QP structures, block partitions, QP solvers, modes and sequences of data changes on the real QP layer; every solution judged against the KKT conditions of the original QP', 'HPIPM and OSQP are the binaries of the CasADi wheel; SPEED_ABS (no multipliers) and QPs beyond the dimension bounds are not judged'),
 'C11': ('stateless model checking of the real compiled solvers under a deterministic OpenMP runtime: all thread orders and all preemptions (bound 1 at every function entry and conflicting memory access, bound 2 at conflicting accesses), plus exhaustive histories of batch calls', 'kernels of the BLASFEO/HPIPM binaries are atomic; preemption bound 2; teams of at most 3 threads; OSQP not compared'),
 'C05': ('explicit enumeration of phase/initial-state/parameter sequences of the real compiled SQP_RTI solver (split and combined calls, advanced-step levels A-D), every reached iterate judged against a fresh solver, one SQP step and independently evaluated KKT conditions of the documented QP', 'sequence depth 3 (thorough 5); dimensions nx<=3 nu<=2 N<=4; a feedback phase only after a preparation'),
 'C09': ('exhaustive enumeration of formulations, field accesses and operation histories executed on the real library and generated code under AddressSanitizer/UndefinedBehaviorSanitizer monitors', 'BLASFEO, HPIPM and OSQP binaries not instrumented; leaks and use of undefined values judged on the uninstrumented build by heap accounting and by varying the content of fresh memory'),
 'C29': ('exhaustive enumeration of formulations, points, stages and parameters on the real evaluator and penalty functions against an independent model', 'all formulations with up to 2 deviations (thorough 3) times grids of points; all branches of the penalties on a grid of parameters; runtime parameter updates through real solvers'),
}
NA = {
 'C31': 'The generated ROS 2 packages need a ROS 2 installation (ament, rosidl message generation, rclcpp) to be built and executed; none is installed, so there are no executions of a node to explore.',
 'C32': 'The MATLAB/Octave interface and the Simulink S-functions cannot be executed here (neither MATLAB nor Octave is installed), so there is no implementation to explore or to bind a model to.',
}
exec(open(os.path.join(V, 'mc/gen/claims.py')).read()) if os.path.exists(os.path.join(V, 'mc/gen/claims.py')) else None
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T and os.path.exists(os.path.join(V, 'mc/checks', i + '.py')):
        t, note = T[i][:2]
        checks.append(dict(property=i, quick_cmd=f'VERIF_TIER=quick bin/py mc/checks/{i}.py', thorough_cmd=f'VERIF_TIER=thorough bin/py mc/checks/{i}.py', evidence_file=f'evidence/{i}.json', technique='model checking: ' + t, level=(T[i][2] if len(T[i]) > 2 else 'model_checking'), level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, 'No check has been built yet.')))
m = dict(version=1, setup_cmd='bin/py mc/acbuild.py', hooks=dict(guard='none', enable='No hooks were added to /repo: the checks build its unmodified sources; fault injection and scheduling happen in the shim library under /verif/shim.', source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
