"""What each check consists of: harness files, functions under contract, what stays unchecked."""
TECH = 'contract-based deductive verification: pre/postconditions and callee contracts on the real templates, verification conditions generated by executing /repo/src with a symbolic scalar on every path, discharged by ring normalisation and SMT (z3, cvc5)'
COMMON_ASSUMPTIONS = [
 'machine arithmetic is treated as exact real arithmetic (rounding, overflow, NaN and infinities are outside the contracts)',
 'the obligations are generated for the template instantiations listed under coverage.instantiations; the template code is the same for every size, but other sizes are not separately proved',
 'Eigen 3.4.0 expression evaluation with a user-defined scalar takes the non-vectorised paths; the vectorised double kernels are assumed to compute the same expressions',
 'code that branches on the scalar type itself (std::is_floating_point and similar) is verified for the class-type branch',
]
def qp(n): return ['qp_%s_box.cpp' % n, 'qp_%s_full.cpp' % n]
QPF = ['boxADMM::solve (with and without guess, dense and sparse)', 'boxADMM::solve_impl', 'ADMM::solve', 'ADMM::solve_impl', 'QPBase::parse_constraints_bounds', 'QPBase::constr_type_init', 'QPBase::rho_vec_update',
       'construct_kkt_matrix / construct_kkt_matrix_sparse / construct_kkt_matrix_same_pattern', 'compute_kkt_rhs', 'residuals_update, primal_residual, dual_residual', 'estimate_rho, rho_update', 'termination_criteria, eps_prim, eps_dual']
QPA = ['contract of the linear solver: solve(b) on the factorised matrix returns some vector; nothing else is assumed about it (the factorised matrix and b are the obligations)',
       'iteration induction: iterations 2 and 3 are checked from the state reached after one iteration with an unconstrained linear-solver result, which covers every state a later iteration can start from']
INST_QP = 'boxADMM and ADMM with (N,M) in {(2,1),(1,1),(1,2),(2,2); thorough: (3,2)}, dense and sparse, Lower and Upper|Lower storage'
SQPF = ['SQPBase::solve (both forms)', 'SQPBase::solve_qp', 'SQPBase::linearisation_dense_impl / linearisation_sparse_impl', 'SQPBase::update_linearisation_dense_impl / update_linearisation_sparse_impl', 'SQPBase::hessian_update_impl', 'SQPBase::step_size_selection_impl', 'SQPBase::constraints_violation_impl', 'SQPBase::max_constraints_violation_impl', 'SQPBase::termination_criteria_impl', 'SQPBase getters and setters']
SQPA = ['contract of the problem: exact values and derivatives of arbitrary smooth functions (proved as P12 and P14)', 'contract of the QP solver: returns an arbitrary primal-dual pair, status and iteration count', 'contract of the preconditioner: unscale undoes compute (proved as P05)', 'iteration induction: iterations 2 and 3 start from arbitrary iterates and Hessians, which covers every later iteration', 'lower bounds do not exceed upper bounds, and settings are valid (0 < tau, eta < 1, positive tolerances, at least one iteration and one line-search trial)']
INST_SQP = '(NX,NE,NI,NP) up to (3,1,2,0), dense and sparse; up to 3 iterations, line-search budgets 1 to 5'
OCPA = ['user functions (dynamics, costs, path constraints) are smooth; on automatic-differentiation scalars they follow the chain rule (the contract proved as P11)',
        'contract of the collocation scheme (proved as P17 for the Chebyshev basis): nodes run from +1 to -1, the differentiation matrix satisfies D(i,j) = -D(N-i,N-j), and its entries are zero only in the middle and otherwise not below 0.01 in magnitude',
        'the terminal cost is evaluated at the final time, which is node 0; a node shared by two segments belongs to the earlier one in time',
        'the six-argument Lagrangian Hessian is provided for the dense format only']
INST_OCP = '(NX,NU,NP,ND,NG) in {(2,1,1,1,1),(1,2,2,0,2),(1,1,0,1,1),(2,1,1,0,0),(1,1,1,0,1),(2,2,2,0,3),(3,1,1,1,2)}, orders 1 to 3, one to three segments, stage and/or terminal cost or neither'
OCPD = ['ContinuousOCP::cost_gradient, cost_gradient_hessian', 'ContinuousOCP::equalities_linearised, inequalities_linearised, constraints_linearised', 'ContinuousOCP::lagrangian, lagrangian_gradient (5 and 8 arguments), lagrangian_gradient_hessian (6, 9 and 10 arguments)', 'ContinuousOCP::seed_derivatives, set_time_limits']
CHECKS = {
 'P01': dict(harness=qp('post'), functions=QPF, assumptions=QPA, instantiations=INST_QP,
             note='Every path of solve() that returns SOLVED satisfies the certificate, for all data, bounds, settings and linear-solver answers; sizes fixed by the instantiation, real arithmetic.'),
 'P02': dict(harness=qp('step'), functions=QPF, assumptions=QPA, instantiations=INST_QP,
             note='Each iteration equals the documented splitting step for all data and all bound types; sizes fixed by the instantiation, real arithmetic.'),
 'P03': dict(harness=qp('storage'), functions=QPF + ['reset of solver state between calls', 'block_set_sparse, estimate_nnz, construct_kkt_matrix_same_pattern'], assumptions=QPA, instantiations=INST_QP + ', sparsity patterns with up to four structural zeros',
             note='Sparse, pattern-reusing and repeated solves are checked against the same reference step as a fresh dense solve.'),
 'P04': dict(harness=qp('budget'), functions=QPF, assumptions=QPA, instantiations=INST_QP,
             note='Status, iteration count, bound classification and step-size adaptation against the documented rules, for all data.'),

 'P05': dict(harness=['ruiz.cpp'], functions=['RuizEquilibration::compute (dense, sparse)', 'RuizEquilibration::scale / unscale', 'IdentityPreconditioner::compute / scale / unscale'],
             assumptions=['the scaling loop is checked for up to the configured number of passes used in the harness (every pass is the same code on the data left by the previous one)'],
             instantiations='(N,M) in {(1,1),(2,1),(2,2),(1,2)}, dense and sparse, rows and columns of zeros',
             note='Scaled data are the documented diagonal scalings of the original data, scalings are positive, unscale inverts scale, for all data; sizes fixed by the instantiation, real arithmetic.'),
 'P09': dict(harness=['filter.cpp'], functions=['LSFilter::add', 'LSFilter::is_acceptable', 'LSFilter::is_dominated', 'LSFilter::clear', 'LSFilter::remove_one'],
             assumptions=['constraint violations handed to the filter are nonnegative'],
             instantiations='LSFilter over symbolic reals; histories of up to four insertions (five in the thorough tier) at depth 1, 2, 3 and 4',
             note='Every query and insertion after every sequence of up to four insertions, for all pairs and margins; longer histories only reach filters of the same shape.'),
 'P10': dict(harness=['quasi_newton.cpp', 'ocp_bfgs.cpp'], functions=['BFGS_update', 'SR1_update', 'ContinuousOCP::hessian_update_impl (dense and sparse block update)'],
             assumptions=['the sparse Hessian handed to the block update has the pattern the problem creates (proved as P15)', 'decimal constants of the block update (0.2, 0.8) denote those numbers exactly', 'positive definiteness is composed from four lemmas proved separately: the update formula (on the real code), its quadratic form, Cholesky coordinates, and the Lagrange-identity argument'],
             instantiations='1 to 3 variables (formula, secant equation, symmetry), definiteness lemma for 2 and 3 variables, dynamic-size matrices; block update with (NX,NU,NP) in {(1,1,1),(2,1,0),(1,2,2)}',
             note='All matrices given by a Cholesky factor, all steps and gradient differences; sizes fixed by the instantiation, real arithmetic.'),
 'P11': dict(harness=['autodiff_first.cpp', 'autodiff_second.cpp'], functions=['every operator, comparison, constructor and function of Eigen::AutoDiffScalar (src/autodiff/AutoDiffScalar.h)'],
             assumptions=['identities listed as facts about the elementary functions'],
             instantiations='fixed and dynamic derivative vectors of length 2, nested fixed scalars for second derivatives; two active scalars and one plain number per expression',
             note='Every operation and a set of compound expressions, for all values and all incoming derivatives; pow does not compile for nested scalars and is outside.'),
 'P17': dict(harness=['chebyshev.cpp'], functions=['Chebyshev::compute_nodes', 'Chebyshev::compute_diff_matrix', 'Chebyshev::compute_int_weights', 'Chebyshev::compute_quad_weights', 'Chebyshev::compute_norm_factors', 'Chebyshev::integrate', 'Chebyshev::eval, weight', 'Projection::project, eval', 'Spline forwarding functions'],
             assumptions=[], instantiations='orders 2 to 8 (thorough: up to 12), projection orders 2 to 5 (thorough: 8)', note='All polynomials of the stated degree (symbolic coefficients) over exact algebraic nodes; orders fixed by the instantiation, real arithmetic.'),
 'P18': dict(harness=['legendre.cpp'], functions=['Legendre::compute_basis', 'Legendre::compute_nodes', 'Legendre::compute_diff_matrix', 'Legendre::compute_quad_weights / compute_int_weights', 'Legendre::compute_norm_factors', 'Legendre::integrate', 'Legendre::eval, weight', 'poly_mul, poly_diff as used by them', 'Projection over the Legendre basis'],
             assumptions=['contract of Eigen::PolynomialSolver: returns all real roots of the given polynomial in some order (the contract instance used is itself checked to return roots)'], instantiations='orders 2 to 5; projection orders 2 to 4', note='All polynomials of the stated degree (symbolic coefficients) over exact algebraic nodes; orders fixed by the instantiation, real arithmetic.'),
 'P19': dict(harness=['polynomials.cpp'], functions=['poly_mul', 'poly_diff', 'segment', 'Eigen::poly_eval on their results', 'Projection::project, eval over an arbitrary basis'],
             assumptions=['coefficients are either exactly zero or not below the machine epsilon poly_mul treats as zero'], instantiations='coefficient vectors of length 1 to 6; products up to length 4 with every pattern of zero coefficients', note='All coefficients; lengths fixed by the instantiation, real arithmetic. Exactness of projection on the library bases is proved in P17 and P18.'),
 'P20': dict(harness=['splines.cpp'], functions=['EquidistantCubicSpline::eval, floor_, accessors', 'LagrangeSpline::compute_lagrange_basis', 'LagrangeSpline::eval'],
             assumptions=['equidistant spline arguments up to two segment lengths outside the covered range', 'denominators of the Lagrange basis (products of node distances) are nonzero for distinct nodes'], instantiations='1 to 3 segments, plain, active and nested active arguments; 2 to 4 interpolation nodes, scalar and vector data, fixed and dynamic', note='All coefficients, arguments, segment lengths and node positions; sizes fixed by the instantiation, real arithmetic.'),
 'P12': dict(harness=['nlp.cpp'], functions=['ProblemBase::cost, cost_gradient, cost_gradient_hessian', 'ProblemBase::equalities, inequalities, constraints', 'ProblemBase::equalities_linearised, inequalities_linearised, constraints_linearised', 'ProblemBase::lagrangian, lagrangian_gradient (both forms), lagrangian_gradient_hessian (with and without cost scaling)', 'ProblemBase::seed_derivatives'],
             assumptions=['user functions are smooth; on automatic-differentiation scalars they follow the chain rule (the contract proved as P11)'], instantiations='(NX,NE,NI,NP) in {(2,1,1,1),(3,2,1,2),(2,0,2,0),(2,2,0,1),(2,0,0,0),(1,1,1,0)} and a problem without a cost function, dense (the sparse format is provided by the optimal control class only, see P15)',
             note='All user functions, points, parameters and multipliers; every function is checked as the first evaluation and after every other one; sizes fixed by the instantiation, real arithmetic.'),
 'P06': dict(harness=['sqp_post.cpp', 'sqp_post_shapes.cpp'], functions=SQPF, assumptions=SQPA, instantiations=INST_SQP, note='Every path of solve(), for all problem functions, QP answers, step lengths and settings; sizes fixed by the instantiation, real arithmetic.'),
 'P07': dict(harness=['sqp_model.cpp', 'sqp_model_shapes.cpp'], functions=SQPF, assumptions=SQPA, instantiations=INST_SQP, note='Every argument of every call of the QP solver and of the Hessian update, for all problem functions and histories; sizes fixed by the instantiation, real arithmetic.'),
 'P08': dict(harness=['sqp_step.cpp'], functions=SQPF, assumptions=SQPA, instantiations=INST_SQP, note='Every iterate, multiplier and step length on every path, for all problem functions, directions and settings; sizes fixed by the instantiation, real arithmetic.'),
 'P13': dict(harness=['ocp_values.cpp', 'ocp_values_shapes.cpp', 'ocp_values_chebyshev.cpp'], functions=['ContinuousOCP::ContinuousOCP', 'ContinuousOCP::set_time_limits', 'ContinuousOCP::compute_diff_matrix (composite, sparse)', 'ContinuousOCP::equalities', 'ContinuousOCP::inequalities', 'ContinuousOCP::constraints', 'ContinuousOCP::cost', 'ContinuousOCP::lagrangian (both forms)', 'POLYMPC_FORWARD_DECLARATION traits'],
             assumptions=OCPA, instantiations='(NX,NU,NP,ND,NG) in {(2,1,1,1,1),(1,2,2,0,2),(1,1,0,1,1),(2,1,1,0,0),(3,2,0,0,1)}, orders 1 to 3, one to three segments, dense and sparse, an arbitrary collocation scheme and the Chebyshev scheme of order 2',
             note='All user functions, trajectories, parameters, weights, nodes and horizons, at the default horizon and after two changes of it; sizes fixed by the instantiation, real arithmetic.'),
 'P14': dict(harness=['ocp_dense.cpp', 'ocp_dense_shapes.cpp', 'ocp_dense_sizes.cpp'], functions=[f + ' (dense)' for f in OCPD], assumptions=OCPA, instantiations=INST_OCP + ', dense',
             note='All user functions, points, multipliers and horizons; every evaluation is checked on a fresh object and after every other one; sizes fixed by the instantiation, real arithmetic.'),
 'P15': dict(harness=['ocp_sparse.cpp', 'ocp_sparse_shapes.cpp', 'ocp_sparse_sizes.cpp'], functions=[f + ' (sparse: first fill and in-place update)' for f in OCPD] + ['_equalities_linearised_sparse(_update)', '_inequalities_linearised_sparse(_update)', '_cost_grad_hess_sparse(_update)', 'block_insert_sparse and related helpers'], assumptions=OCPA, instantiations=INST_OCP + ', sparse, compressed or not between evaluations',
             note='Same contracts as the dense format (P14), for the first fill of every matrix and for every later evaluation at another point and horizon, plus the structure of the matrices; sizes fixed by the instantiation, real arithmetic.'),
 'P16': dict(harness=['mpc_setters.cpp', 'mpc_trajectory.cpp'], functions=['MPC::MPC', 'MPC::set_time_limits', 'MPC::initial_conditions (both), x_/u_ lower/upper_bound, state_bounds, state_trajectory_bounds, x_final_*, final_state_bounds, control_bounds, control_trajecotry_bounds, constraints_bounds, constraints_trajectory_bounds, parameters_bounds, set_static_parameters', 'MPC::x_guess, u_guess, p_guess, lam_guess', 'MPC::solution_x, solution_u, solution_p, solution_dual, *_reshaped, solution_x_at / solution_u_at (node and time)', 'MPC::settings, qp_settings, info, ocp, primal_norm, dual_norm, constr_violation, cost, solve'],
             assumptions=['the collocation nodes are distinct and decreasing', 'Eigen::poly_eval returns the value of the polynomial (its real code is run in P20)', 'solve() hands over to the solver (specified by P06 to P09)', 'outside the horizon the trajectory is the polynomial of the first or last segment (documented by the clipping comment)'],
             instantiations='(NX,NU,NP,ND,NG) in {(2,1,1,2,1),(1,2,0,0,0),(1,3,2,1,2)} for the setters, orders 1 to 3 with one to three segments for the trajectory, dense and sparse',
             note='Each setter from an arbitrary state of the whole optimisation problem, with a frame condition on everything else, so the contracts compose to any sequence of calls; trajectories for all node values, nodes, horizons and times; sizes fixed by the instantiation, real arithmetic.'),
 'P21': dict(harness=['collocation_ode.cpp', 'collocation_cost.cpp'], functions=['ode_collocation: both constructors, compute_diff_matrix, operator(), linearized', 'sparse_ode_collocation: both constructors, compute_diff_matrix, compute_inner_nnz, operator(), linearized (_linearized, _linearized_same_pattern)', 'cost_collocation: both constructors, operator(), value_gradient, value_gradient_hessian', 'constraint_collocation::generic_function (both)'],
             assumptions=['user functions are smooth; on automatic-differentiation scalars they follow the chain rule (the contract proved as P11)', 'parameters are data of these classes: derivatives are with respect to states and controls', 'symmetric quadrature weights (proved for the library polynomials in P17)', 'the node shared by two segments belongs to the later one, as the classes define it'],
             instantiations='(NX,NU,NP) in {(2,1,1),(1,2,0),(1,1,2),(2,2,1)}, orders 1 to 3, one to three segments, default-constructed and given functors',
             note='Each class constructed with and without the functors, then evaluated three times at unrelated points and horizons in either order; the specification is written from the definition and the derivatives of uninterpreted user functions; sizes fixed by the instantiation, real arithmetic.'),
 'P22': dict(harness=['lqr.cpp'], functions=['pinv', 'lyapunov', 'line_search_care', 'newton_ls_care', 'init_newton_care', 'care', 'lqr'],
             assumptions=['Eigen::RealSchur returns A = U T U\' with U orthogonal and T quasi upper triangular; JacobiSVD returns A = U S V\'; PartialPivLU solves its (nonsingular) system; EigenSolver returns the eigenvalue of a scalar matrix and arbitrary values otherwise; PolynomialSolver is left open: the minimum over the interval follows from the end points and the critical points (extreme value theorem)', 'orthogonal factors of the Lyapunov and pseudo-inverse cases: the identity and one rational rotation per dimension', 'singular values are zero or above the tolerance of the pseudo-inverse', 'Bass: the feedback of a shifted Lyapunov equation of a controllable pair stabilises; Kleinman: so does the symmetrised solution (checked directly for scalar systems)', 'the scalar type of the header is substituted while it is read (#define double); nothing else of it is changed'],
             instantiations='Lyapunov equations of one to four states with every arrangement of coupled blocks, pseudo-inverses of every rank up to three, Newton steps for one and two states, initial guess and gain for one and two states',
             note='All matrices with the given Schur form, all weights, all iterates; sizes fixed by the instantiation, real arithmetic.'),
}
NA = {}
NA.update({
 'P23': 'The Ipopt, OSQP, qpmad and CasADi interfaces include headers of libraries that are not installed here, so the real code cannot be compiled and no obligation can be generated from it.',
})
