"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
T = 'interfaces/acados_template/acados_template/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

prop('C01', 'A solve that reports success returns a KKT point of the stated OCP',
 'Whenever the OCP solver reports status 0, the states, controls, algebraic variables, slacks and multipliers that can be read back satisfy, within the solver tolerances, the first-order optimality conditions of the optimal control problem exactly as the user formulated it: discretized dynamics, scaled stage costs including slack penalties, every bound/linear/nonlinear/convex-over-nonlinear constraint, multiplier signs and complementarity. The cost value reported for that point equals the formulated objective. This holds for every combination of cost type, constraint type, slack formulation, integrator, Hessian approximation, horizon grid, QP solver and globalization.',
 ['configurations', 'inputs'], 'all formulations from the supported feature set, all initial guesses from which a solve succeeds',
 'The example scripts solve a few fixed problems and compare with stored trajectories; no test recomputes optimality conditions independently, and the product of features is never covered.',
 ['acados/ocp_nlp/ocp_nlp_common.c', 'acados/ocp_nlp/ocp_nlp_sqp.c', 'acados/ocp_nlp/ocp_nlp_cost_*.c', 'acados/ocp_nlp/ocp_nlp_constraints_*.c', 'acados/ocp_nlp/ocp_nlp_dynamics_*.c', T + 'c_templates_tera/acados_solver.in.c', T + 'acados_ocp.py', T + 'casadi_function_generation.py'],
 [('linearization and residual evaluation', 'acados/ocp_nlp/ocp_nlp_common.c'), ('problem data transfer into the solver', T + 'c_templates_tera/acados_solver.in.c')], ['AcadosOcpSolver.solve/get/get_cost/get_residuals'])

prop('C02', 'Solver status and statistics tell the truth, also when something fails',
 'If a model function returns NaN, a QP subproblem fails or the iteration limit is reached, the solver does not report success but the documented status for that event, whatever the iteration at which it happens; it reports success only if the residuals it reports are within the tolerances. The reported residuals, cost, iteration counts, per-iteration QP statuses and stored iterates describe the iterations that really happened. After a reset the same solver object solves the same problem as if the failure had never happened.',
 ['fault_sequences', 'configurations', 'histories'], 'every position of one or two injected faults (QP status, NaN evaluation, iteration limit) in a solve, per solver type',
 'Tests only exercise solves that succeed, with no way of making the QP solver fail at a chosen iteration.',
 ['acados/ocp_nlp/ocp_nlp_sqp.c', 'acados/ocp_nlp/ocp_nlp_sqp_rti.c', 'acados/ocp_nlp/ocp_nlp_ddp.c', 'acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c', T + 'acados_ocp_solver.py'],
 [('termination checks', 'acados/ocp_nlp/ocp_nlp_sqp.c check_termination'), ('statistics', 'acados/ocp_nlp/ocp_nlp_sqp.c ocp_nlp_sqp_get')], ['AcadosOcpSolver.solve', 'AcadosOcpSolver.get_stats', 'AcadosOcpSolver.get_residuals'])

prop('C03', 'Results depend on data and initial guess, never on the call history',
 'After any sequence of solves, data changes and resets, a solve with given problem data, options and initial guess gives the same result as a freshly created solver given that data, those options and that guess. A reset restores the documented initial state (zero or x0 guess, and the generated numerical values when asked for). Solver objects of the same problem do not influence each other, and creating or destroying one leaves the others unaffected.',
 ['histories'], 'all sequences of API operations up to a bounded depth, on one or two solver objects',
 'Tests use each solver object along one fixed history.',
 ['acados/ocp_nlp/ocp_nlp_common.c', T + 'c_templates_tera/acados_solver.in.c', T + 'acados_ocp_solver.py'],
 [('reset', T + 'c_templates_tera/acados_solver.in.c acados_reset')], ['AcadosOcpSolver.reset/solve/get'])

prop('C04', 'What is written into a solver is what is read back, and nothing else changes',
 'A value set for a field and stage of the iterate, parameters, cost or constraint data is returned unchanged by every getter of that field, stage-wise, flattened or as an iterate object, until it is set again; no other field or stage changes. Flattened values are the concatenation of the stage values in stage order. A value of the wrong dimension, an unknown field or an invalid stage raises an error and changes nothing.',
 ['histories', 'inputs', 'configurations'], 'all operation sequences up to a bounded depth over all fields and stages',
 'Tests set and read a handful of fields; aliasing between fields, stages and storage layouts is never excluded.',
 ['interfaces/acados_c/ocp_nlp_interface.c', T + 'acados_ocp_solver.py', T + 'acados_ocp_batch_solver.py', T + 'acados_ocp_iterate.py', 'acados/ocp_nlp/ocp_nlp_constraints_bgh.c'],
 [('C setters and getters', 'interfaces/acados_c/ocp_nlp_interface.c')], ['AcadosOcpSolver.set/get/set_flat/get_flat/cost_set/constraints_set/get_iterate/set_iterate/store_iterate/load_iterate'])

prop('C05', 'RTI preparation plus feedback is one exact real-time iteration',
 'Performing the preparation phase and then the feedback phase gives the same iterate as performing both in one call, and equals one full SQP step from the same point, also when the initial state changes between the two phases. The advanced-step levels A to D leave a solver whose feedback result satisfies the linearization they document. Calling the phases in any repeated order never corrupts later iterations.',
 ['histories', 'configurations'], 'all sequences of phases and x0 changes up to a bounded depth for all RTI option combinations',
 'Tests run one closed loop and compare the final state loosely.',
 ['acados/ocp_nlp/ocp_nlp_sqp_rti.c'], [('phases', 'acados/ocp_nlp/ocp_nlp_sqp_rti.c')], ['AcadosOcpSolver.options_set(rti_phase)/solve/get'])

prop('C06', 'Condensing, QP solver and QP scaling choices do not change the QP solution',
 'For every OCP-structured QP, solving it directly, with partial condensing to any number and size of blocks, with full condensing, with any of the QP solvers and with any warm start or scaling option yields the same primal solution, the same slacks and multipliers that satisfy the KKT conditions of the original QP including soft constraints, equality flags and constraint masks. Re-solving the same QP object gives the same answer. Residuals reported for the QP are those of the original QP.',
 ['configurations', 'inputs'], 'all horizon lengths, block partitions, bound/slack/mask patterns and QP solvers within small bounds',
 'A few fixed QPs are solved by the examples; block partitions, masks and slack index patterns are not enumerated.',
 ['acados/ocp_qp/ocp_qp_partial_condensing.c', 'acados/ocp_qp/ocp_qp_full_condensing.c', 'acados/ocp_qp/ocp_qp_hpipm.c', 'acados/ocp_qp/ocp_qp_osqp.c', 'acados/dense_qp/dense_qp_hpipm.c', 'acados/ocp_qp/ocp_qp_xcond_solver.c', 'acados/ocp_qp/ocp_qp_common.c', 'interfaces/acados_c/ocp_qp_interface.c', T + 'acados_ocp_qp_solver.py', T + 'acados_ocp_qp.py'],
 [('condensing and expansion', 'acados/ocp_qp/ocp_qp_partial_condensing.c')], ['AcadosOcpQpSolver.solve/get/get_residuals'])

prop('C07', 'Integrators return the solution of their scheme and exact sensitivities',
 'For every integrator type, number of stages and steps, collocation type and time step, the returned state and algebraic variables are those of the named Runge-Kutta scheme applied to the model, whichever formulation of the same dynamics is used. Forward, adjoint, algebraic and second-order sensitivities are the derivatives of exactly that map for any seed. The result does not depend on earlier calls beyond the given inputs.',
 ['configurations', 'inputs', 'histories'], 'all scheme settings within bounds, on a family of ODE and DAE models, all seeds from a basis',
 'Integrator tests compare one trajectory per integrator with a loose tolerance; sensitivities of all settings are not compared to derivatives.',
 ['acados/sim/sim_erk_integrator.c', 'acados/sim/sim_irk_integrator.c', 'acados/sim/sim_lifted_irk_integrator.c', 'acados/sim/sim_gnsf.c', 'acados/sim/sim_collocation_utils.c', T + 'acados_sim.py', T + 'acados_sim_solver.py', T + 'c_templates_tera/acados_sim_solver.in.c'],
 [('Butcher tables', 'acados/sim/sim_collocation_utils.c')], ['AcadosSimSolver.simulate/get/set'])

prop('C08', 'Solution and value-function sensitivities are the true derivatives',
 'At a converged solution satisfying the documented regularity conditions, forward solution sensitivities with respect to the initial state and to the parameters equal the derivatives of the computed solution, adjoint sensitivities equal their transpose applied to the seed for every seed, and value-function gradients equal the derivative of the optimal cost. This holds for every stage, every field and every QP solver setting that supports them. Evaluating sensitivities does not alter the stored solution.',
 ['configurations', 'inputs'], 'all seeds, stages and parameters of a family of regular problems, with active and inactive constraints',
 'The sensitivity examples check single derivatives visually or against one finite difference.',
 ['acados/ocp_nlp/ocp_nlp_common.c', 'interfaces/acados_c/ocp_nlp_interface.c', T + 'acados_ocp_solver.py'],
 [('sensitivity solve', 'acados/ocp_nlp/ocp_nlp_common.c ocp_nlp_common_eval_solution_sens')], ['AcadosOcpSolver.eval_solution_sensitivity', 'AcadosOcpSolver.eval_adjoint_solution_sensitivity'])

prop('C09', 'No memory error or leak for any problem dimensions and call sequence',
 'Creating, using in any order and destroying solvers, integrators and QP objects never reads or writes outside the memory they own, never uses undefined values and never leaks, for all dimensions including zero-sized states, controls, constraints, slacks and horizons of length one. Workspace and memory sizes computed up front always suffice. Destroying an object releases everything it allocated.',
 ['configurations', 'histories'], 'all dimension vectors within small bounds, all modules',
 'No test runs under a memory checker, and dimension combinations are not enumerated.',
 ['acados/ocp_nlp/*.c', 'acados/ocp_qp/*.c', 'acados/dense_qp/*.c', 'acados/sim/*.c', 'acados/utils/mem.c', 'interfaces/acados_c/*.c'],
 [('calculate_size/assign pairs', 'acados/utils/mem.c')], ['process under AddressSanitizer'])

prop('C10', 'The compiled functions compute exactly the user\'s symbolic expressions',
 'For every sparsity pattern, parameter layout and expression type, evaluating a model, cost or constraint function inside the solver gives the value and derivatives of the expression the user wrote at the current states, controls, algebraic variables, time and parameters of that stage. Changing all, some or the global parameters affects exactly the stages and entries addressed. Wrong parameter indices or sizes are rejected.',
 ['inputs', 'configurations', 'histories'], 'all sparsity patterns of small matrices, all subsets of parameters and stages',
 'Examples contain a few dense models; sparse output scattering and partial parameter updates are not enumerated.',
 ['acados/utils/external_function_generic.c', T + 'casadi_function_generation.py', T + 'c_templates_tera/acados_solver.in.c'],
 [('CasADi argument/result scatter', 'acados/utils/external_function_generic.c')], ['AcadosOcpSolver.set_params_sparse/set_p_global_and_precompute_dependencies/get_from_qp_in'])

prop('C11', 'Batch and parallel operation equals sequential operation under every schedule',
 'Solving a batch of problems in parallel, for any number of threads and any interleaving, gives for every problem exactly the result of solving it alone; statuses, iterates, parameters and sensitivities are never mixed between problems. The same holds for batch setters and getters, for integrator batches and for parallel evaluation inside one solver. Using part of a batch leaves the rest untouched.',
 ['schedules', 'configurations'], 'all assignments of batch items to threads and all interleavings at scheduling points, for small batches',
 'Tests run one schedule the OS happens to choose.',
 [T + 'acados_ocp_batch_solver.py', T + 'acados_sim_batch_solver.py', T + 'c_templates_tera/acados_solver.in.c', 'acados/ocp_nlp/ocp_nlp_common.c'],
 [('OpenMP loops', T + 'c_templates_tera/acados_solver.in.c')], ['AcadosOcpBatchSolver', 'AcadosSimBatchSolver'])

prop('C12', 'Globalization accepts exactly the steps its rules allow',
 'With fixed step the iterate moves by exactly the configured fraction of the QP step. With merit backtracking or the funnel every accepted step satisfies the documented sufficient decrease or funnel condition, step lengths follow the configured reduction factor down to the minimum, and the funnel never widens. Every solve ends with a status, and primal iterates, multipliers and slacks are all updated with the documented step length.',
 ['configurations', 'inputs'], 'all starting points of a grid, all globalization option combinations within bounds',
 'Tests check only that a solve converged.',
 ['acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c', 'acados/ocp_nlp/ocp_nlp_globalization_funnel.c', 'acados/ocp_nlp/ocp_nlp_globalization_fixed_step.c', 'acados/ocp_nlp/ocp_nlp_sqp.c'],
 [('line searches', 'acados/ocp_nlp/ocp_nlp_globalization_*.c')], ['AcadosOcpSolver.get_iterates/get_stats'])

prop('C13', 'Hessian regularization gives the documented convexity and nothing more',
 'For every stage Hessian, MIRROR and PROJECT produce a matrix with the same eigenvectors whose eigenvalues are the mirrored respectively clipped ones, bounded below by epsilon (absolute or scaled as configured), Gershgorin Levenberg-Marquardt and convexification produce positive definite stage or reduced Hessians, and a Hessian that already satisfies the bound is left unchanged. Convexification leaves the solution of equality constrained QPs and its multipliers unchanged. Levenberg-Marquardt adds exactly the configured multiple of the identity.',
 ['inputs', 'configurations'], 'all small matrices over a grid of entries, all regularization methods and options',
 'No test compares regularized matrices with their definition.',
 ['acados/ocp_nlp/ocp_nlp_reg_*.c', 'acados/utils/math.c'], [('regularization', 'acados/ocp_nlp/ocp_nlp_reg_common.c')], ['AcadosOcpSolver.get_hessian_block/get_from_qp_in'])

prop('C14', 'A runtime-updated solver equals one generated with the new values',
 'Changing numerical problem data at runtime (bounds, linear constraint matrices, weights, references, slack weights, cost scaling, time steps, parameters, condensing horizon, tolerances and step options) makes the solver behave exactly as a solver generated with those values. Documented option validity is enforced at runtime as at generation time. The order of the updates does not matter.',
 ['histories', 'configurations'], 'all updatable fields, pairs of updates in both orders, on all stage types',
 'Tests update a few fields and do not compare with a regenerated solver.',
 [T + 'acados_ocp_solver.py', 'interfaces/acados_c/ocp_nlp_interface.c', T + 'c_templates_tera/acados_solver.in.c', 'acados/ocp_nlp/ocp_nlp_common.c'],
 [('runtime setters', 'interfaces/acados_c/ocp_nlp_interface.c')], ['AcadosOcpSolver.cost_set/constraints_set/options_set/set_new_time_steps/update_qp_solver_cond_N'])

prop('C15', 'Multi-phase problems equal the single-phase problem they spell out',
 'Splitting a single-phase problem into phases at any nodes, with identical phase formulations, gives the same solution, multipliers, cost and residuals as the single-phase solver. With differing phases, every stage uses the dynamics, cost, constraints, slacks and parameters of its own phase, the first phase its initial terms and the last phase its terminal terms. Dimensions per stage are those of the phase.',
 ['configurations'], 'all partitions of small horizons into phases, phase types from a family',
 'Tests run a few multi-phase examples and do not compare against single-phase solutions for all partitions.',
 [T + 'acados_multiphase_ocp.py', T + 'c_templates_tera/acados_multi_solver.in.c'], [('phase expansion', T + 'acados_multiphase_ocp.py')], ['AcadosOcpSolver on AcadosMultiphaseOcp'])

prop('C16', 'zoRO uncertainty propagation and constraint tightening match their definition',
 'The generated zero-order robust update propagates the disturbance covariance along the trajectory with the documented recursion for every combination of feedback mode, disturbance input and additive noise option, and tightens exactly the selected bounds by the configured number of standard deviations, on every stage and only there. Repeated updates start from the nominal bounds. Input options for runtime data replace precisely the configured matrices.',
 ['configurations', 'histories', 'inputs'], 'all combinations of tightened constraint index sets and options on small problems, update sequences',
 'One example is run without comparing the tightened bounds.',
 [T + 'zoro_description.py', T + 'custom_update_templates/custom_update_function_zoro_template.in.c'], [('custom update', T + 'custom_update_templates/custom_update_function_zoro_template.in.c')], ['AcadosOcpSolver.custom_update', 'constraints_get'])

prop('C17', 'Dimensions are derived correctly and inconsistent formulations are rejected',
 'Making a formulation consistent derives every dimension from the data the user gave, fills unspecified optional data with the documented defaults, and leaves what the user specified unchanged; doing it again changes nothing. Any mismatch between dimensions of model expressions, weights, references, bounds, index vectors, slack data and grids raises an error instead of producing a solver.',
 ['configurations', 'inputs'], 'all single and pairwise perturbations of dimensions of all fields of a family of formulations',
 'Tests use consistent formulations.',
 [T + 'acados_ocp.py', T + 'acados_dims.py', T + 'acados_ocp_constraints.py', T + 'acados_ocp_cost.py', T + 'acados_sim.py', T + 'acados_model.py'],
 [('make_consistent', T + 'acados_ocp.py')], ['AcadosOcp.make_consistent', 'AcadosOcp.dims'])

prop('C18', 'Formulations survive serialization unchanged',
 'Dumping an OCP, multi-phase OCP, QP or iterate to JSON and loading it yields an object describing the same problem: same numerical data, options, dimensions, names and symbolic functions, and a solver generated from it behaves identically. Dumping the loaded object gives the same file.',
 ['configurations', 'inputs'], 'all formulations with at most two deviations from a baseline, all fields with non-default values',
 'Tests round-trip one or two problems.',
 [T + 'acados_ocp.py', T + 'acados_multiphase_ocp.py', T + 'acados_model.py', T + 'acados_ocp_qp.py', T + 'acados_ocp_iterate.py', T + 'acados_ocp_options.py', T + 'zoro_description.py'],
 [('to_dict/from_dict', T + 'acados_ocp.py')], ['dump_to_json/from_json'])

prop('C19', 'Generated code is reused only if the problem is unchanged',
 'A solver created with code reuse always behaves like one generated from the given formulation: reuse is declined whenever any datum, expression, option or dimension that influences the generated code differs from the stored problem beyond the given tolerance, and accepted when the formulation is unchanged. The default problem name distinguishes different formulations.',
 ['configurations', 'histories'], 'all single-field changes of a family of formulations',
 'Tests try one changed value.',
 [T + 'acados_ocp_solver.py', T + 'acados_sim_solver.py', T + 'utils.py'], [('comparison', T + 'utils.py compare_ocp_formulations')], ['AcadosOcpSolver.is_code_reuse_possible'])

prop('C20', 'Cost reformulations preserve the objective',
 'Translating a cost (linear or nonlinear least squares to convex-over-nonlinear or external, stage 0 copied from the path, automatic cost type detection, penalty reformulations of constraints, parametric weights and references) leaves the stage cost a function with the same value and gradient, plus exactly the documented penalty term, for all states, controls, algebraic variables and parameters. Hessian approximations supplied with a translation equal the documented ones. Other cost terms and constraints are untouched.',
 ['configurations', 'inputs'], 'all translation methods and their compositions up to a bounded length, on all cost types, evaluated on a grid',
 'Tests compare solutions of a single problem.',
 [T + 'acados_ocp.py', T + 'penalty_utils.py'], [('translations', T + 'acados_ocp.py')], ['AcadosOcp.translate_*', 'AcadosOcp.formulate_constraint_as_*'])

prop('C21', 'Constraint and model transformations preserve the feasible set and dynamics',
 'Adding linear constraints, removing initial state elimination, removing constraints, translating to a feasibility problem, detecting constraint structure, adding a time parameter, polynomial control parametrization, cost states and control horizons change the problem exactly as documented: a point is feasible for the transformed problem if and only if it is for the original one, and the dynamics are the original ones composed with the documented substitution.',
 ['configurations', 'inputs'], 'all transformations on a family of formulations, points on a grid',
 'Tests solve one example per transformation at most.',
 [T + 'acados_ocp.py', T + 'mpc_utils.py', T + 'acados_model.py'], [('transformations', T + 'mpc_utils.py')], ['AcadosOcp.add_linear_constraint etc.', 'mpc_utils'])

prop('C22', 'Options are validated, stored and forwarded faithfully',
 'Every solver, simulation, QP and code generation option accepts exactly the documented values and then reads back what was set, rejects everything else with an error leaving the old value, and its value reaches the generated solver. Derived options (grids, per-stage integrator settings, tolerances, condensing) are completed as documented and conflicting settings are rejected.',
 ['inputs', 'configurations'], 'all options times a value alphabet, all pairs of grid options',
 'Tests set options to valid values only.',
 [T + 'acados_ocp_options.py', T + 'acados_sim.py', T + 'acados_ocp.py', T + 'acados_code_gen_options.py', T + 'c_templates_tera/acados_solver.in.c'],
 [('property setters', T + 'acados_ocp_options.py')], ['AcadosOcpOptions', 'AcadosOcpSolver.options_get'])

prop('C23', 'The CasADi back end states the same NLP with the same multipliers',
 'The CasADi-based solver built from a formulation has the same objective, the same feasible set and the same dynamics as the formulation for all values of variables and parameters, with single or multiple shooting and any slack formulation. Iterates, multipliers, bounds and parameters set or read stage-wise through it have the acados ordering and sign convention, and its solutions satisfy the KKT conditions of the formulation.',
 ['configurations', 'inputs', 'histories'], 'all formulations with bounded deviations from a baseline, points on a grid, operation sequences',
 'Tests solve some problems with IPOPT and compare primal trajectories.',
 [T + 'acados_casadi_ocp.py', T + 'acados_casadi_ocp_solver.py'], [('NLP construction', T + 'acados_casadi_ocp.py')], ['AcadosCasadiOcp', 'AcadosCasadiOcpSolver'])

prop('C24', 'QP objects and the CasADi QP back end represent the same QP',
 'An OCP-QP object, its JSON form, its CasADi form and the QP read from a solver describe the same problem: same matrices, vectors, masks, slack maps and equality flags at each stage, same objective and feasible set. Solutions and multipliers read from the CasADi QP solver satisfy the KKT conditions of that QP in the acados convention, for all mask, slack and bound patterns. Values set through the QP interfaces are read back unchanged, missing masks mean active constraints, and data with inconsistent sizes or indices is rejected.',
 ['configurations', 'inputs'], 'all small QP structures: bounds, masks, slack maps, equality flags, horizon lengths',
 'Tests solve two QPs.',
 [T + 'acados_ocp_qp.py', T + 'acados_casadi_ocp_qp.py', T + 'acados_casadi_ocp_qp_solver.py'], [('QP construction', T + 'acados_casadi_ocp_qp.py')], ['AcadosOcpQp', 'AcadosCasadiOcpQpSolver'])

prop('C25', 'Iterate containers convert without loss',
 'Converting iterates between stage-wise, flattened, batch and JSON form loses, reorders or mixes nothing, comparison and arithmetic act on every field, and indexing a batch reads and writes exactly the addressed item. Conversions of iterates with empty fields and different stage dimensions are exact too.',
 ['inputs', 'histories'], 'all dimension patterns within bounds, all fields, all operation sequences up to a bounded depth',
 'No test exercises the containers by themselves.',
 [T + 'acados_ocp_iterate.py'], [('flatten/unflatten', T + 'acados_ocp_iterate.py')], ['AcadosOcpIterate', 'AcadosOcpFlattenedIterate', 'AcadosOcpFlattenedBatchIterate'])

prop('C26', 'Detected GNSF structure is equivalent to the original dynamics',
 'For every index-1 SX model without global parameters, structure detection succeeds and the generalized nonlinear static feedback model it returns has exactly the solutions of the original implicit dynamics, up to the reported permutations of states and algebraic variables, for all states, derivatives, controls and parameters. The linear output system contains every state that no nonlinear term depends on (directly or through the nonlinear subsystem), affine models are treated as fully linear, and simulating the structured model gives the states, algebraic variables and sensitivities of the original one. Unsupported models are rejected.',
 ['programs', 'inputs'], 'all implicit models of a bounded grammar, points on a grid',
 'Examples contain three or four models.',
 [T + 'gnsf.py'], [('detection', T + 'gnsf.py'), ('structured integrator', 'acados/sim/sim_gnsf.c')], ['detect_gnsf_structure', 'AcadosModel.gnsf_model', 'AcadosSimSolver with integrator_type GNSF'])

prop('C27', 'The parameter manager keeps each value at its name and stage',
 'Values set for a parameter name and stage are what is returned for that name and stage, in the stage vector at the position of the matching symbolic expression, and in the flattened horizon vector, until set again; all other entries keep their values, and stages added by changing the horizon start with the documented defaults. Invalid stages are rejected.',
 ['histories', 'inputs'], 'all sequences of set, get and horizon changes up to a bounded depth over small alphabets',
 'The only test sets one value.',
 [T + 'acados_param_manager.py'], [('AcadosParamManager', T + 'acados_param_manager.py')], ['AcadosParamManager'])

prop('C28', 'Index and matrix helpers are exact',
 'Conversions between selection matrices and index vectors, slack maps and slack counts, array normalization, weighting matrix checks and formulation comparison return the documented result for every valid input and reject every invalid one.',
 ['inputs'], 'all 0/1 matrices and index vectors up to a bounded size',
 'They are only used implicitly with a few inputs.',
 [T + 'utils.py', T + 'acados_ocp_constraints.py', T + 'acados_ocp_cost.py'], [('J_to_idx, J_to_idx_slack, ns_from_idxs_rev, casts', T + 'utils.py')], ['acados_template.utils', 'AcadosOcpConstraints J* setters'])

prop('C29', 'Penalty functions and cost evaluators compute what they document',
 'The Huber penalty functions return penalties, gradients and (convex) Hessians with the documented slopes, curvatures and limits for all parameters. The cost and constraint evaluator reports for any point, stage and parameter the path stage cost, slack cost and violations of the formulation, and for a trajectory (of a problem whose initial stage has the path cost and no slacks) the cost the solver reports.',
 ['inputs', 'configurations'], 'grids of arguments and parameters, all slack patterns',
 'Tests only plot the penalties.',
 [T + 'penalty_utils.py', T + 'mpc_utils.py'], [('penalties', T + 'penalty_utils.py')], ['penalty_utils', 'AcadosCostConstraintEvaluator'])

prop('C30', 'The time grid is one consistent grid everywhere',
 'However the grid is given (horizon length with uniform steps, time steps, or shooting nodes), shooting nodes, time steps, horizon length and default cost scaling agree with each other, the dynamics of each interval are integrated over exactly its step, path costs are scaled by exactly the documented factors (by default with the time steps), and inconsistent grid data is rejected. If both time steps and shooting nodes are given, the time steps are used; the model time starts at zero in every interval. Changing the time steps at runtime, with the same or a different horizon length, has the same effect as generating with them (path cost scaling becomes the new time steps).',
 ['configurations'], 'all grid specifications over a small alphabet of steps and horizon lengths, integrators and cost scalings',
 'Examples use uniform grids almost exclusively.',
 [T + 'acados_ocp.py', T + 'acados_ocp_options.py', T + 'acados_ocp_solver.py', T + 'c_templates_tera/acados_solver.in.c'], [('discretization', T + 'acados_ocp.py _make_consistent_discretization')], ['AcadosOcp.make_consistent', 'AcadosOcpSolver'])

prop('C31', 'ROS 2 package generation maps every signal to the right place',
 'For every formulation and ROS option set, the generated package refers to messages, fields, sizes, topics and names that exist and agree between all generated files, and topic mappings connect exactly the fields and elements the user asked for. Invalid mappings and incomplete options are rejected.',
 ['configurations', 'inputs'], 'all mapping strings over a small grammar, all option subsets',
 'The ROS example is not run.',
 [T + 'ros2/mapping_node.py', T + 'ros2/ocp_node.py', T + 'ros2/sim_node.py', T + 'ros2_templates'], [('mapping', T + 'ros2/mapping_node.py')], ['RosTopicMapper'])

prop('C32', 'MATLAB/Octave and Simulink front ends describe the same solver',
 'Formulations entered through the MATLAB/Octave classes and Simulink blocks yield the same solver and results as the equivalent Python formulation.',
 ['configurations'], 'all formulations', 'Needs MATLAB or Octave.',
 ['interfaces/acados_matlab_octave'], [('MATLAB classes', 'interfaces/acados_matlab_octave')], [])

with open(os.path.join(os.path.dirname(__file__), '..', '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
