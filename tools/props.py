# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms
SMALL = "The existing stable tests only exercise BoxQP on random Hessians and the control parametrizations by finite differences at a few random points; nothing else of this property is executed."

prop("S01", "State manifold: diff and integrate are inverse, Jacobians are exact",
     "For every state and tangent vector, integrating the difference of two states gives the second one back, differencing an integrated state gives the displacement back, and the reported Jacobians are the exact derivatives of those maps with respect to the selected argument under every assignment mode. Bounds set on the state are kept as given and the presence of finite bounds is reported exactly. Wrongly sized arguments are rejected.",
     ["inputs", "configurations"], "all states, tangents, destination matrices, argument selectors and assignment modes, dimension 1..4",
     SMALL, [C + "states/euclidean.hxx", C + "state-base.hxx"],
     [("diff/integrate/Jdiff/Jintegrate/JintegrateTransport/safe_*", C + "states/euclidean.hxx"), ("set_lb/set_ub/update_has_limits", C + "state-base.hxx")], observe=["StateVector API outputs"])

prop("A01", "Activations: gradient and curvature are the derivatives of the value",
     "For every activation, its parameters and every residual, the value follows its documented formula, the gradient is the exact derivative of the value and the curvature the exact (diagonal) second derivative or the documented Gauss-Newton approximation. Results depend only on the residual and the current parameters, never on which data object is used or what was evaluated before. Wrong sizes and out-of-range parameters are rejected.",
     ["inputs", "configurations", "histories"], "all residuals, weights, smoothing parameters and bounds (finite or infinite), residual dimension 1..4, fresh or reused data",
     SMALL, [C + "activations/" + f for f in ("quadratic.hpp", "weighted-quadratic.hpp", "smooth-1norm.hpp", "smooth-2norm.hpp", "2norm-barrier.hpp", "quadratic-barrier.hpp", "weighted-quadratic-barrier.hpp", "quadratic-flat-exp.hpp", "quadratic-flat-log.hpp")],
     [("calc / calcDiff of each activation", C + "activations/*.hpp")], observe=["a_value, Ar, Arr of the activation data"])

prop("A02", "Barrier bounds: ordering, shrinking and validation",
     "Bounds given to a barrier are shrunk symmetrically around their midpoint by the requested ratio, keep lower not above upper, leave unbounded sides unbounded, and keep any feasible point of the shrunk box feasible for the original one. Inverted bounds, mismatched sizes and ratios outside [0,1] are rejected.",
     ["inputs", "configurations"], "all pairs of finite or infinite bounds and all shrinking ratios, dimension 1..3",
     SMALL, [C + "activations/quadratic-barrier.hpp"],
     [("ActivationBounds constructor", C + "activations/quadratic-barrier.hpp")], observe=["lb, ub, beta of the bounds object"])

prop("R01", "Control, joint-effort and joint-acceleration residuals and Jacobians",
     "Each residual equals the difference between the quantity it names and its reference (at terminal nodes the documented terminal value), and its Jacobians are the exact derivatives of that residual with respect to state and control. Results depend only on the current inputs and reference, not on which data object is used or what was evaluated before. References of wrong size are rejected.",
     ["inputs", "configurations", "histories"], "all joint data, references and controls, fresh or reused data, 1..3 joints and controls",
     SMALL, [C + "residuals/control.hpp", C + "residuals/joint-effort.hpp", C + "residuals/joint-effort.hxx", C + "residuals/joint-acceleration.hpp", C + "residuals/joint-acceleration.hxx"],
     [("calc / calcDiff / set_reference", C + "residuals/*")], observe=["r, Rx, Ru of the residual data"])

prop("K01", "Residual cost: value, gradient and curvature follow residual and activation",
     "The cost of a residual is the activation of that residual, its gradient is the exact chain-rule derivative and its curvature is the Gauss-Newton product of the residual Jacobian and the activation curvature, for every pattern of state and control dependence. At terminal nodes only the state parts are produced. Results depend only on the inputs, whatever the data was used for before.",
     ["inputs", "configurations", "histories"], "all states, controls, residual Jacobians, activation gradients and curvatures, dependency patterns; small dimensions",
     SMALL, [C + "costs/residual.hpp", C + "costs/residual.hxx", C + "cost-base.hpp", C + "cost-base.hxx", C + "residual-base.hpp", C + "residual-base.hxx"],
     [("CostModelResidual calc / calcDiff", C + "costs/residual.hxx"), ("calcCostDiff", C + "residual-base.hxx")], observe=["cost, Lx, Lu, Lxx, Lxu, Luu of the cost data"])

prop("K02", "Cost sum: weighted sum of active costs after every edit history",
     "After any sequence of adding, removing, activating and deactivating costs, the sum's value, gradients and curvatures are exactly the weighted sums of those of the active costs, and the reported dimensions, active and inactive sets match the history. Adding under an existing name or editing an unknown name changes nothing. Wrongly sized states, controls, costs or data are rejected.",
     ["inputs", "histories", "configurations"], "all edit sequences up to 3 operations over 3 names, all weights and values of the individual costs",
     SMALL, [C + "costs/cost-sum.hpp", C + "costs/cost-sum.hxx"],
     [("addCost / removeCost / changeCostStatus / calc / calcDiff", C + "costs/cost-sum.hxx")],
     state=[("costs_, active_set_, inactive_set_, nr_, nr_total_", "the cost items and the bookkeeping derived from them", C + "costs/cost-sum.hpp")], observe=["cost data of the sum, get_nr, get_nr_total, get_active_set, get_inactive_set"])

prop("N01", "Constraint manager: active constraints stacked after every edit history",
     "After any sequence of adding, removing, activating and deactivating constraints, the inequality and equality values, Jacobians and bounds are exactly those of the active constraints stacked in name order, at terminal nodes only those imposed there, and the reported dimensions and sets match the history. Adding under an existing name or editing an unknown one changes nothing. Wrongly sized inputs, constraints or data are rejected.",
     ["inputs", "histories", "configurations"], "all edit sequences up to 3 operations over 3 names, all constraint values, Jacobians and bounds",
     SMALL, [C + "constraints/constraint-manager.hpp", C + "constraints/constraint-manager.hxx"],
     [("addConstraint / removeConstraint / changeConstraintStatus / calc / calcDiff", C + "constraints/constraint-manager.hxx"), ("resize / shareMemory", C + "constraints/constraint-manager.hpp")],
     state=[("constraints_, active_set_, inactive_set_, ng_, nh_, ng_T_, nh_T_, lb_, ub_", "the constraint items and the bookkeeping derived from them", C + "constraints/constraint-manager.hpp")], observe=["g, h, Gx, Gu, Hx, Hu of the data, get_ng ... get_nh_T, get_lb, get_ub"])

prop("N02", "Residual constraint: values, Jacobians and bound validation",
     "A constraint made of a residual reports that residual and its Jacobians as inequality (with bounds) or equality (without), for every dependency pattern and whatever the data was used for before. Removing and restoring bounds switches between the two kinds. Bounds of wrong size, inverted, or placing the feasible set at infinity are rejected and leave the constraint unchanged.",
     ["inputs", "configurations", "histories"], "all states, controls, residuals, dependency patterns and bounds (finite, infinite, maximal), residual dimension 1..3",
     SMALL, [C + "constraints/residual.hpp", C + "constraints/residual.hxx", C + "constraint-base.hpp", C + "constraint-base.hxx"],
     [("ConstraintModelResidual", C + "constraints/residual.hxx"), ("update_bounds / remove_bounds", C + "constraint-base.hxx")], observe=["g, h, Gx, Gu, Hx, Hu, lb, ub"])

prop("M01", "Linear-quadratic model: dynamics, cost and constraints with exact derivatives",
     "For every choice of matrices, the discrete linear-quadratic model evaluates exactly the affine dynamics, quadratic cost and linear constraints it is given, at running and terminal nodes, and its derivatives are the exact first and second derivatives of those functions. After the matrices are replaced, every data object, old or new, follows the new ones. Matrices of inconsistent size or that are not positive semidefinite are rejected.",
     ["inputs", "configurations", "histories"], "all dynamics, cost and constraint matrices, states and controls, data created before or after a matrix change; small dimensions",
     SMALL, [C + "actions/lqr.hpp", C + "actions/lqr.hxx"],
     [("ActionModelLQR calc / calcDiff / set_LQR", C + "actions/lqr.hxx")], observe=["xnext, cost, g, h and all derivatives of the action data"])

prop("M02", "Differential linear-quadratic model: acceleration, cost, exact derivatives",
     "For every choice of matrices, the differential linear-quadratic model evaluates exactly the affine acceleration, quadratic cost and linear constraints it is given, at running and terminal nodes, and its derivatives are the exact first and second derivatives of those functions. After the matrices are replaced, every data object follows the new ones. Inconsistent or indefinite matrices are rejected.",
     ["inputs", "configurations", "histories"], "all dynamics, cost and constraint matrices, states and controls, data created before or after a matrix change; small dimensions",
     SMALL, [C + "actions/diff-lqr.hpp", C + "actions/diff-lqr.hxx"],
     [("DifferentialActionModelLQR calc / calcDiff / set_LQR", C + "actions/diff-lqr.hxx")], observe=["xout, cost, g, h and all derivatives of the data"])

prop("M03", "Unicycle model: kinematics, cost and exact derivatives",
     "The unicycle model integrates position along the heading with the commanded velocities over the time step, its cost is the weighted least-squares cost of state and control, and all reported derivatives are exact for every state, control, weight and time step. At terminal nodes the state is kept and only the state cost remains. Non-positive time steps and wrongly sized arguments are rejected.",
     ["inputs", "configurations", "histories"], "all states, headings, controls, weights and time steps, fresh or reused data",
     SMALL, [C + "actions/unicycle.hpp", C + "actions/unicycle.hxx"],
     [("ActionModelUnicycle calc / calcDiff", C + "actions/unicycle.hxx")], observe=["xnext, cost and derivatives of the action data"])

prop("M04", "Action models: limits, default terminal evaluation, copies",
     "An action model reports control limits exactly when the bounds it holds are finite, rejects bounds of wrong size, and evaluates terminal nodes by default as a node with null control. A copy of an action model behaves as the original in every evaluation and has the same dimensions, bounds and limits. The same holds for differential action models.",
     ["inputs", "configurations", "histories"], "all bounds (finite or infinite), states, controls, sequences of bound changes; small dimensions",
     SMALL, [C + "action-base.hpp", C + "action-base.hxx", C + "diff-action-base.hpp", C + "diff-action-base.hxx"],
     [("set_u_lb / set_u_ub / update_has_control_limits / calc(x) / copies", C + "action-base.hxx, " + C + "diff-action-base.hxx")], observe=["get_has_control_limits, get_u_lb, get_u_ub, get_g_lb, data of calc"])

prop("I01", "Integrators: next state and cost follow the chosen scheme",
     "For every dynamics, state, control parameter and time step, the symplectic Euler and Runge-Kutta models produce exactly the next state and cost prescribed by their scheme and by the control parametrization, and pass constraints, residuals and bounds of the continuous model through unchanged. A zero or disabled step keeps the state, terminal evaluation only keeps the state part. Results never depend on what the data was used for before.",
     ["inputs", "configurations", "histories"], "all time steps, states, controls and stage dynamics, 4 schemes x 3 parametrizations, flat and curved states; small dimensions",
     SMALL, [C + "integrator/euler.hpp", C + "integrator/euler.hxx", C + "integrator/rk.hpp", C + "integrator/rk.hxx", C + "integ-action-base.hpp", C + "integ-action-base.hxx"],
     [("IntegratedActionModelEuler::calc", C + "integrator/euler.hxx"), ("IntegratedActionModelRK::calc", C + "integrator/rk.hxx")], observe=["xnext, cost, g, h, r of the action data"])

prop("I02", "Integrators: exact derivatives of next state, cost and constraints",
     "The derivatives reported by the symplectic Euler and Runge-Kutta models are the exact first derivatives of the next state, cost and constraints they compute with respect to the state and the control parameters, at running and terminal nodes, for every time step and control parametrization. Their cost Hessians are exact for affine dynamics with quadratic cost. Results never depend on what the data was used for before.",
     ["inputs", "configurations", "histories"], "all time steps, states, controls and stage dynamics and costs, 4 schemes x 3 parametrizations, flat and curved states; small dimensions",
     SMALL, [C + "integrator/euler.hxx", C + "integrator/rk.hxx", C + "integ-action-base.hxx"],
     [("IntegratedActionModelEuler::calcDiff", C + "integrator/euler.hxx"), ("IntegratedActionModelRK::calcDiff", C + "integrator/rk.hxx")], observe=["Fx, Fu, Lx, Lu, Lxx, Lxu, Luu, Gx, Gu, Hx, Hu of the action data"])

prop("P01", "Control parametrizations: interpolation, Jacobian products, bounds, inversion",
     "Each control parametrization interpolates exactly its nodes, reports the exact Jacobian of the control with respect to the parameters, and all its matrix products equal the products with that Jacobian under every assignment mode. Control bounds are converted so that parameters within them give controls within the original bounds at the nodes, and the parameters recovered from a control reproduce it. Wrong sizes and times outside [0,1] are rejected.",
     ["inputs", "configurations", "histories"], "all parameters, times, matrices, bounds and assignment modes, constant, linear and quadratic parametrization, 1..3 controls",
     "Tests compare the Jacobian with finite differences at one random point per class; products under assignment modes, bounds and reuse of data are not settled.", [C + "controls/poly-zero.hxx", C + "controls/poly-one.hxx", C + "controls/poly-two-rk.hxx", C + "control-base.hxx"],
     [("calc / calcDiff / params / convertBounds / multiplyByJacobian / multiplyJacobianTransposeBy", C + "controls/*.hxx")], observe=["w, u, dw_du of the data; returned products"])

prop("T01", "Actuations and squashing: torque map, exact Jacobians, torque transform",
     "Every actuation maps controls to torques by its documented map, with exact Jacobians with respect to state and control, and its commands give the control that produces a torque through the reported transform. Smooth saturation keeps its output within its bounds, never decreases, and reports its exact slope; squashing composes with the actuation exactly. Replacing thrusters affects every data object and leaves no trace of the previous ones.",
     ["inputs", "configurations", "histories"], "all states, controls, bounds, smoothing, thruster poses and coefficients, one replacement, two data objects; small dimensions",
     "No stable test touches actuations or squashing.", [C + "actuation-base.hpp", C + "actuation-base.hxx", C + "actuation/actuation-squashing.hpp", C + "actuation/squashing-base.hpp", C + "actuation/squashing/smooth-sat.hpp", "include/crocoddyl/multibody/actuations/full.hpp", "include/crocoddyl/multibody/actuations/floating-base.hpp", "include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp"],
     [("ActuationSquashingModel, SquashingModelSmoothSat", C + "actuation/*"), ("ActuationModelFull, ...FloatingBase, ...FloatingBaseThrusters", "include/crocoddyl/multibody/actuations/*.hpp")], observe=["tau, dtau_dx, dtau_du, Mtau, u of the actuation data; u, du_ds of the squashing data"])

OP = C + "optctrl/"
prop("O01", "Shooting problem: evaluation, rollout, quasi-static controls, copies",
     "For every trajectory, evaluating a shooting problem evaluates every running node and the terminal node at its own state and control, returns the sum of their costs, and leaves in each node's data exactly its own results; derivatives are those of the same nodes. Rolling out controls yields the trajectory that every node's dynamics produces from the initial state, and quasi-static controls hold the given states. Problems with inconsistent nodes or data are rejected, and a copy describes the same problem.",
     ["inputs", "configurations", "histories"], "all states, controls, affine-bilinear dynamics, quadratic costs and constraints; 1..3 running nodes, differing control dimensions, flat and curved states",
     "Tests compare a problem with the same calls at one random point; mismatched nodes, copies and reuse are barely touched.", [OP + "shooting.hpp", OP + "shooting.hxx"],
     [("ShootingProblem calc / calcDiff / rollout / quasiStatic / constructors", OP + "shooting.hxx")], state=[("cost_, x0_, running_models_, running_datas_, terminal_model_, terminal_data_", "nodes, their data and the accumulated cost", OP + "shooting.hpp")],
     observe=["calc and calcDiff result, per-node data, rollout and quasiStatic outputs"])

prop("O02", "Shooting problem: every edit history leaves a consistent problem",
     "After any sequence of replacing all running models, one running model, the terminal model, the initial state, or shifting the horizon with an appended model, the shooting problem holds exactly the resulting nodes with data created by them, and its evaluation, dimensions and maximal dimensions are those of a fresh problem built from the same nodes. Rejected edits leave the problem unchanged.",
     ["inputs", "histories", "configurations"], "all edit sequences of 2 operations (thorough 3), 1..3 running nodes, all trajectories and node values",
     "Tests apply one update each; edit sequences and invalid edits are not tested.", [OP + "shooting.hpp", OP + "shooting.hxx"],
     [("updateNode / updateModel / circularAppend / set_runningModels / set_terminalModel / set_x0", OP + "shooting.hxx")], state=[("running_models_, running_datas_, terminal_model_, terminal_data_, T_, nx_, ndx_, is_updated_", "nodes, data and the derived dimensions", OP + "shooting.hpp")],
     observe=["calc result, node data, get_nthreads, is_updated"])

prop("Q01", "Box QP: feasible, never worse than the guess, exact optimum and active sets",
     "For every positive-definite Hessian, gradient, box and initial guess, the box-constrained QP solver returns a point inside the box whose objective is not above that of the projected guess; optimal guesses are kept, and unconstrained or scalar problems are solved exactly. Free and clamped variables partition the variables and the returned inverse inverts the free Hessian; Hessians that are not positive definite and invalid arguments are refused.",
     ["inputs", "configurations", "histories"], "all Hessians, gradients, boxes (also infinite), guesses, regularizations and thresholds; 1..2 variables, up to 3 iterations",
     "Tests solve a few random boxes per dimension; active-set changes, infeasible guesses, thresholds and reuse are not settled.", ["include/crocoddyl/core/solvers/box-qp.hpp", "src/core/solvers/box-qp.cpp"],
     [("BoxQP::solve", "src/core/solvers/box-qp.cpp")], state=[("x_, xnew_, g_, dx_, free_idx_, clamped_idx_, Hff_inv_llt_", "iterate, step and active set kept between calls", "include/crocoddyl/core/solvers/box-qp.hpp")],
     observe=["BoxQPSolution: x, Hff_inv, free_idx, clamped_idx"])

SV = "src/core/solvers/"
HV = C + "solvers/"
NOSOLVER = "No stable test runs this solver; upstream tests compare a few random problems between solvers or with finite differences."
prop("V01", "DDP/FDDP: search direction is the exact Riccati recursion",
     "For every guess and all derivatives of dynamics and cost, the direction of DDP and FDDP comes from the exact Riccati recursion: gaps are the dynamics defects of the guess, action-value derivatives follow from the next value function, gains solve the control Hessian's systems, value derivatives include the gaps of infeasible guesses and the regularization. A direction is refused exactly when a control Hessian is not positive definite or values overflow.",
     ["inputs", "configurations", "histories"], "all guesses, derivatives, regularizations; horizon 1..2, state dimension 1..2, control dimension 0..2 per node",
     NOSOLVER, [SV + "ddp.cpp", SV + "fddp.cpp", "src/core/solver-base.cpp"],
     [("SolverDDP::backwardPass / computeActionValueFunction / computeGains / computeValueFunction", SV + "ddp.cpp"), ("SolverAbstract::computeDynamicFeasibility", "src/core/solver-base.cpp")],
     state=[("Vx_, Vxx_, Qu_, Quu_, K_, k_, fs_", "value function, action-value function, gains and gaps", HV + "ddp.hpp")], observe=["get_fs, get_Vx, get_Vxx, get_Qx ... get_k, get_K, get_cost"])
prop("V02", "Linear-quadratic problems: one step is optimal, improvement is exact",
     "On every linear-quadratic problem without regularization, a full step of DDP or FDDP from any guess, feasible or not, gives a trajectory that satisfies the dynamics and the optimality conditions, and the main loop adopts it as a feasible guess with its cost. The expected improvement equals the actual one (at every step length for feasible guesses, at the full step for infeasible ones), and the stopping value is its magnitude.",
     ["inputs", "configurations"], "all linear dynamics, quadratic costs, guesses, initial states and step lengths; horizon 1..2, state dimension 1..2, control dimension 0..2 per node",
     NOSOLVER, [SV + "ddp.cpp", SV + "fddp.cpp"],
     [("computeDirection / tryStep / expectedImprovement / stoppingCriteria / solve", SV + "ddp.cpp, " + SV + "fddp.cpp")], observe=["trajectories of tryStep and solve, get_d, get_stop, get_cost"])
prop("V03", "DDP/FDDP: line-search candidates follow the policy and contract the gaps",
     "For every step length in (0, 1], the candidate of the line search applies the computed policy around the guess; DDP rolls it out from the initial state, while FDDP leaves each gap of an infeasible guess reduced by exactly the step length. The returned value is the cost decrease of that candidate, the guess itself is untouched, and step lengths outside [0, 1] are refused.",
     ["inputs", "configurations", "histories"], "all nodes, guesses, initial states, regularizations and step lengths; horizon 1..2, flat and curved states, control dimension 0..2 per node",
     NOSOLVER, [SV + "ddp.cpp", SV + "fddp.cpp"],
     [("SolverDDP::forwardPass", SV + "ddp.cpp"), ("SolverFDDP::forwardPass", SV + "fddp.cpp")],
     state=[("xs_try_, us_try_, cost_try_", "candidate of the line search", HV + "ddp.hpp")], observe=["value of tryStep, candidate trajectories"])
prop("V08", "Solvers: feasibility measures of dynamics and constraints",
     "For every guess and problem, the dynamics, inequality and equality feasibility measures are the chosen norm (maximum or sum of magnitudes) over all running nodes and the terminal node of the dynamics defects, of the amounts by which inequality constraints leave their own bounds, and of the equality values, and the direction computation reports them.",
     ["inputs", "configurations"], "all trajectories, constraints and bounds (finite or infinite), differing numbers of constraints per node; horizon 1..2",
     NOSOLVER, ["src/core/solver-base.cpp"],
     [("computeDynamicFeasibility / computeInequalityFeasibility / computeEqualityFeasibility", "src/core/solver-base.cpp")], observe=["returned measures, get_ffeas, get_gfeas, get_hfeas"])
prop("V09", "DDP/FDDP main loop: acceptance, feasibility, regularization, stopping",
     "For every outcome of directions, candidates, expected improvements and stopping values, the main loop adopts exactly the first candidate that passes the acceptance test, keeps the guess otherwise, tracks cost and feasibility of the adopted guess, adapts the regularization within its limits and recomputes derivatives after every adopted step. It reports convergence exactly when the stopping value is below its threshold after a feasible step, and calls the callbacks once per iteration.",
     ["inputs", "histories", "configurations"], "all outcomes (refusals, failed candidates, costs, improvements, stopping values) over 2 iterations and 2..3 step lengths",
     NOSOLVER, [SV + "ddp.cpp", SV + "fddp.cpp"],
     [("SolverDDP::solve", SV + "ddp.cpp"), ("SolverFDDP::solve", SV + "fddp.cpp")], state=[("xs_, us_, cost_, is_feasible_, was_feasible_, preg_, steplength_, iter_", "guess and progress of the loop", C + "solver-base.hpp")],
     observe=["return value of solve, get_xs, get_us, get_cost, get_preg, callbacks"])
prop("V10", "Solvers: guesses, settings and regularization stay valid",
     "A solver takes exactly the guess it is given, completes missing states and controls by neutral states and null controls of each node's dimension, follows the dimensions of the problem after nodes are replaced, and rejects guesses and settings of wrong dimension or range without adopting the setting. Regularization updates multiply or divide by their factors within the configured limits and can always leave zero.",
     ["inputs", "configurations", "histories"], "all guesses, settings and regularizations; horizon 1..2, control dimension 0..2 per node, one replaced node",
     NOSOLVER, ["src/core/solver-base.cpp", SV + "ddp.cpp", SV + "fddp.cpp"],
     [("setCandidate / set_xs / set_us / setters / resizeData", "src/core/solver-base.cpp"), ("set_alphas / increaseRegularization / decreaseRegularization / resizeData", SV + "ddp.cpp")],
     observe=["get_xs, get_us, get_preg, getters of the settings"])
prop("V05", "Box-DDP/Box-FDDP: gains and candidates respect the control limits",
     "With control limits and a feasible guess, the feedforward gain of every limited node minimises the quadratic control problem within the limits, feedback acts on exactly the controls left free, and clamped controls drop out of the gradient; nodes without limits and infeasible guesses get the unconstrained gains. Every line-search candidate keeps the controls of limited nodes within their limits and is a rollout with its true cost. Nodes may have different control dimensions.",
     ["inputs", "configurations", "histories"], "all derivatives, guesses, limits (also one-sided) and step lengths; horizon 1..2, state dimension 1..2, control dimension 0..2 per node",
     NOSOLVER, [SV + "box-ddp.cpp", SV + "box-fddp.cpp", SV + "box-qp.cpp"],
     [("computeGains / forwardPass", SV + "box-ddp.cpp, " + SV + "box-fddp.cpp")], state=[("qp_", "box problem solver shared by the nodes", HV + "box-ddp.hpp")],
     observe=["get_K, get_k, get_Qu, get_Vx, get_Vxx, candidate trajectories"])
prop("V06", "KKT solver: exact optimality system, directions and steps",
     "For every guess and all derivatives, the KKT solver assembles exactly the first-order optimality system of the problem, moves along its solution in proportion to the step length, and reports the true cost of the candidate. Its expected improvement is the exact quadratic one, its stopping value is the squared norm of the Lagrangian gradient and the gaps, and one full iteration on a linear-quadratic problem satisfies the dynamics and the optimality conditions.",
     ["inputs", "configurations", "histories"], "all derivatives, guesses, initial states and step lengths; horizon 1..2, state dimension 1..2, control dimension 0..2 per node, flat and curved states",
     NOSOLVER, [SV + "kkt.cpp"],
     [("calcDiff / computeDirection / tryStep / expectedImprovement / stoppingCriteria / solve", SV + "kkt.cpp")], state=[("kkt_, kktref_, primaldual_", "optimality system and its solution kept between calls", HV + "kkt.hpp")],
     observe=["get_kkt, get_kktref, get_primaldual, get_dxs, get_dus, get_lambdas, get_d, get_stop"])

prop("V07", "Equality-constrained DDP (Intro): constrained policy and accepted steps",
     "For every guess and all derivatives, each elimination method of the Intro solver returns control gains that satisfy the linearised equality constraints exactly and are optimal within them; the value function, the expected improvement and the stopping value are those of the constrained policy. The trial step reports the true constraint violation and cost, and the main loop adopts exactly the candidates that pass the merit test with an updated penalty, whatever the outcomes of directions and candidates.",
     ["inputs", "configurations", "histories"], "all derivatives, constraints, guesses, regularizations and step lengths; 1..3 controls, 0..2 equality constraints per node, horizon 1..2; all outcomes over 1..2 iterations of the main loop",
     NOSOLVER, [SV + "intro.cpp"],
     [("calcDiff / computeDirection / computePolicy / computeValueFunction / tryStep / solve", SV + "intro.cpp")], state=[("YZ_, HuY_, Qzz_, kz_, ks_, Hu_rank_, eq_solver_, upsilon_", "elimination of the constraints, penalty and method", HV + "intro.hpp")],
     observe=["get_K, get_k, get_Vx, get_Vxx, get_upsilon, get_hfeas, return value of solve, get_xs, get_us"])

prop("D01", "Numerically differentiated action models follow their model",
     "For every state, control, disturbance and model, the numerical-differentiation wrappers of action and differential action models return the wrapped model's dynamics, cost and constraints, and derivatives that are its difference quotients: exact for linear functions, and within half the step times the curvature otherwise, at running and terminal nodes, in flat and rescaled state spaces, whatever was evaluated before. Dimensions, control limits and constraint bounds are those of the model.",
     ["inputs", "configurations", "histories"], "all states, controls, disturbances, quadratic dynamics, constraints and costs; 1..2 states and controls, both Hessian modes",
     SMALL, [C + "numdiff/action.hxx", C + "numdiff/diff-action.hxx"],
     [("ActionModelNumDiff::calc / calcDiff", C + "numdiff/action.hxx"), ("DifferentialActionModelNumDiff::calc / calcDiff", C + "numdiff/diff-action.hxx")],
     state=[("data_0, data_x, data_u, xp, dx, du", "perturbed evaluations kept between calls", C + "numdiff/action.hpp")], observe=["wrapper data: xnext/xout, cost, g, h, Fx ... Lxx; limits and bounds"])
prop("D02", "Numerically differentiated parts follow what they wrap",
     "For every state, control, disturbance and function, the numerical-differentiation wrappers of residuals, costs, constraints, contacts, activations, actuations, control parametrizations and states return the wrapped values and difference quotients that are exact for linear functions and within half the step times the curvature otherwise, including quantities read from shared data refreshed by re-evaluation functions. Bounds, flags and dimensions are those of what they wrap.",
     ["inputs", "configurations", "histories"], "all states, controls, disturbances and quadratic functions; 1..2 states, controls and outputs; running and terminal, fresh or used data",
     SMALL, [C + "numdiff/residual.hxx", C + "numdiff/cost.hxx", C + "numdiff/constraint.hxx", C + "numdiff/activation.hxx", C + "numdiff/actuation.hxx", C + "numdiff/control.hxx", C + "numdiff/state.hxx", "include/crocoddyl/multibody/numdiff/contact.hxx"],
     [("calc / calcDiff of the wrappers", C + "numdiff/*.hxx"), ("StateNumDiff::Jdiff / Jintegrate", C + "numdiff/state.hxx")], observe=["wrapper data and return values"])

prop("X01", "Copies and scalar conversions evaluate as the original",
     "Copying a model, or converting it to another scalar type and back, keeps everything it computes: every parameter (weights, smoothing, references, bounds, time steps, matrices), its state and control limits, constraint bounds, active sets and flags, including those set after construction. This holds for activations, states, control parametrizations, actuation squashing, residuals, costs, constraints, action models, integrators, numerical-differentiation action models and shooting problems.",
     ["inputs", "configurations"], "all parameters, states and controls; copy, conversion and round trip; 1..2 positions and controls, up to 2 items or nodes",
     "Tests compare casts with default parameters at random points only, and none of the stable tests covers limits or changed parameters.",
     [C + "activations/quadratic-barrier.hpp", C + "states/euclidean.hxx", C + "actions/lqr.hxx", C + "actions/diff-lqr.hxx", C + "actions/unicycle.hxx", C + "integrator/euler.hxx", C + "integrator/rk.hxx", C + "costs/cost-sum.hxx", C + "constraints/residual.hxx", C + "constraints/constraint-manager.hxx", OP + "shooting.hxx", C + "macros.hpp"],
     [("cast() members, copy constructors and the cloning macros", C + "macros.hpp")], observe=["values, derivatives, limits and parameters of the converted models"])

prop("F01", "Friction cone: facets, force limits, approximation and settings",
     "For every frame, friction coefficient, even number of facets and force limits, the friction cone has one inequality per facet (tangential force along the facet direction at most the coefficient times the normal force, facet directions evenly spread and in opposite pairs) and one row bounding the normal force between its limits. With the inner approximation the coefficient is scaled by the cosine of half the facet angle, so that every force accepted by the pyramid lies in the exact cone, and no force of the exact cone is rejected by the outer one. Setters followed by update, copies, assignment and conversions give the cone of the new parameters; odd facet numbers and negative coefficients or limits are replaced by their documented values; a cone given by a surface normal has its axis along that normal.",
     ["inputs", "configurations"], "every frame, coefficient and limit; 3..12 facets; every force",
     "Tests compare sizes and random samples of forces; none of the stable tests covers the cones.",
     ["include/crocoddyl/multibody/friction-cone.hxx", "include/crocoddyl/multibody/friction-cone.hpp"],
     [("FrictionConeTpl constructors, update and setters", "include/crocoddyl/multibody/friction-cone.hxx")], observe=["get_A, get_lb, get_ub, get_R, get_nsurf and the parameters"])

prop("F02", "Wrench cone and centre-of-pressure support: rows, limits, meaning",
     "For every frame, friction coefficient, finite support size and force limits, the wrench cone has the friction facets, the normal-force row, the four centre-of-pressure rows and the eight yaw-torque rows of a rectangular contact; every wrench produced by forces of the friction pyramid at the four corners of the support satisfies all of them. The centre-of-pressure support has exactly the four centre-of-pressure rows, whether built from parameters or from a wrench cone. Setters followed by update, copies, assignment and conversions give the object of the new parameters; invalid parameters are replaced by their documented values.",
     ["inputs", "configurations"], "every frame, coefficient, support size and limit; 3..12 facets; every contact force at the corners",
     "Tests compare sizes and a few random wrenches; none of the stable tests covers the cones.",
     ["include/crocoddyl/multibody/wrench-cone.hxx", "include/crocoddyl/multibody/cop-support.hxx"],
     [("WrenchConeTpl and CoPSupportTpl constructors, update and setters", "include/crocoddyl/multibody/wrench-cone.hxx")], observe=["get_A, get_lb, get_ub, get_R, get_box and the parameters"])

prop("V11", "Ipopt interface: the nonlinear program is the optimal control problem",
     "The nonlinear program handed to Ipopt is the transcription of the shooting problem: one block of variables per node (state displacement from the guess, then control), free states, controls within the model's limits (if any), one equality per node for the dynamics defect and one for the initial state, starting at the guess. At every point the objective is the total cost, the constraints are the defects, the gradient and the sparse constraint Jacobian are their exact derivatives (through the state manifold), and the sparse lower-triangular Hessian is the objective factor times the Gauss-Newton cost Hessian. This holds in whatever order and at whatever points the functions are called before, and after models are replaced and the interface resized. The returned point is read back as states and controls.",
     ["inputs", "histories", "configurations"], "1..2 nodes, state dimension 1..2, 0..2 controls differing per node; every dynamics, cost, guess, point and call order",
     "No test covers the interface, and Ipopt hides wrong derivatives by converging more slowly or elsewhere.",
     ["src/core/solvers/ipopt/ipopt-iface.cpp", "include/crocoddyl/core/solvers/ipopt/ipopt-iface.hpp"],
     [("IpoptInterface::get_nlp_info, get_bounds_info, get_starting_point, eval_f, eval_grad_f, eval_g, eval_jac_g, eval_h, finalize_solution, resizeData", "src/core/solvers/ipopt/ipopt-iface.cpp")], observe=["sizes, bounds, start, objective, constraints, sparse derivatives and returned trajectories"])

MB = "include/crocoddyl/multibody/"
prop("F03", "Force residuals: cones, centre of pressure and force tracking",
     "For every contact or impulse force and its derivatives, the friction-cone, wrench-cone, centre-of-pressure and force-tracking residuals are the cone rows (or the difference with the reference) of exactly the force of the frame they name, expressed as documented for each contact type, and their Jacobians are the exact derivatives: those of the force at the state and control for forward dynamics, and with respect to the force variables of the control for inverse dynamics. Replacing the reference takes effect for every data object, old and new.",
     ["inputs", "configurations", "histories"], "every force, force derivative, cone, box and reference; 1D to 6D contacts and 3D/6D impulses next to another one; forward and inverse dynamics; two data objects and one replacement of the reference",
     "No stable test covers force residuals.",
     [MB + "residuals/contact-friction-cone.hxx", MB + "residuals/contact-wrench-cone.hxx", MB + "residuals/contact-cop-position.hxx", MB + "residuals/contact-force.hxx"],
     [("calc / calcDiff / updateJacobians / set_reference and the data constructors", MB + "residuals/contact-*.hxx, *.hpp")], state=[("update_jacobians_, df_dx, contact", "cached Jacobians and the contact found at creation", MB + "residuals/contact-friction-cone.hpp")],
     observe=["r, Rx, Ru of the residual data"])
prop("F04", "Kinematic residuals: value, exact derivatives and state cost",
     "For every motion, reference, frame, reference frame of the velocity and robot, the centre-of-mass, centroidal-momentum, frame translation, rotation, placement and velocity, control-gravity, contact-control-gravity and impulse centre-of-mass residuals return the documented difference with the reference, at running and terminal nodes, and Jacobians that are its exact derivatives. The residual of the state is the difference with the reference on the manifold of that state, and its shortcut cost has the exact gradient and Gauss-Newton curvature on every manifold. Replacing frame, reference or type takes effect at once; wrong sizes are rejected.",
     ["inputs", "configurations", "histories"], "every position, motion, reference and first derivative; every frame orientation except half turns; 2 joint velocities, 2 frames; flat, joint-wise curved and arbitrary curved state manifolds; running and terminal, fresh or used data",
     "No stable test covers multibody residuals; numerical tests use the robot manifolds only.",
     [MB + "residuals/" + x + ".hxx" for x in ("state", "com-position", "centroidal-momentum", "frame-placement", "frame-rotation", "frame-translation", "frame-velocity", "control-gravity", "contact-control-gravity", "impulse-com")],
     [("calc / calcDiff / set_reference / set_id / set_type", MB + "residuals/*.hxx"), ("calcCostDiff of the state residual", MB + "residuals/state.hxx")],
     observe=["r, Rx, Ru of the residual data; Lx, Lxx of the cost data"])
prop("S02", "Robot state: configuration manifold and velocities",
     "For every robot, the state pairs a configuration on its manifold with a velocity: sizes, the neutral state, difference, integration, their Jacobians under every selector and assignment mode, and transport act as the configuration manifold on the first part and as a vector space on the second, without coupling. Limits come from the robot, with unlimited coordinates for a root joint, and are kept as set. Copies and conversions behave as the original; wrong sizes are rejected.",
     ["inputs", "configurations"], "arbitrary configuration operations with 3 coordinates and 2 velocities (also 2 and 1, 2 and 2); with and without a root joint; every state, tangent, limit, pre-existing Jacobian, selector and assignment mode",
     "No stable test covers the robot state.",
     [MB + "states/multibody.hxx", MB + "states/multibody.hpp"],
     [("diff / integrate / Jdiff / Jintegrate / JintegrateTransport / the constructor", MB + "states/multibody.hxx")], observe=["StateMultibody API outputs"])
prop("C01", "Stacks of contacts and impulses: bookkeeping and stacked terms",
     "After any sequence of adding, removing, activating and deactivating contacts (or impulses), the reported active and total dimensions and the active and inactive sets match the history; the stacked Jacobian, drift and derivatives are those of the active items in name order (with zero rows for inactive contacts when all are computed); forces are distributed to the right items, inactive items carry none, the external force on a joint is the sum over the items acting on it, and derivatives and accelerations are dispatched and kept likewise, also when a status changes between evaluations with the same data. Editing unknown or existing names changes nothing; wrong sizes are rejected; conversions keep the stack and its mode.",
     ["inputs", "histories", "configurations"], "all sequences of 2 (thorough: 3) edits over 2 names, both stacking modes; every Jacobian, drift, force and derivative of the items",
     "Tests add and remove in one fixed order, and none of the stable ones covers contacts.",
     [MB + "contacts/multiple-contacts.hxx", MB + "impulses/multiple-impulses.hxx", MB + "contact-base.hxx", MB + "impulse-base.hxx"],
     [("addContact / removeContact / changeContactStatus / calc / calcDiff / updateForce / updateForceDiff / updateRneaDiff", MB + "contacts/multiple-contacts.hxx"), ("the same of impulses", MB + "impulses/multiple-impulses.hxx")],
     state=[("contacts_, nc_, nc_total_, active_set_, inactive_set_, compute_all_contacts_", "items and the bookkeeping derived from them", MB + "contacts/multiple-contacts.hpp")],
     observe=["get_nc, get_nc_total, active sets, Jc, a0, da0_dx, fext and the forces of the items"])
prop("C02", "Contact and impulse models: constraint, exact derivatives and forces",
     "For every motion of the frame, placement, reference, gains and constraint type (local, world, local-world-aligned), each contact model returns the acceleration of the constrained directions with Baumgarte stabilisation (position or placement error to the reference, and velocity), the Jacobian of exactly those directions, and their exact derivatives with respect to the state; each impulse model returns the Jacobian and the derivative of the velocity. A constraint force is applied along those directions: its virtual power equals that of the joint force handed to the dynamics, and the torque derivative reported is that of the force at a fixed value.",
     ["inputs", "configurations"], "1D, 2D, 3D, 6D contacts and 3D, 6D impulses; every frame orientation except half turns, position, motion, reference and gain; 1..2 joint velocities",
     "No stable test covers contacts; numerical tests elsewhere use zero references or gains.",
     [MB + "contacts/contact-1d.hxx", MB + "contacts/contact-2d.hxx", MB + "contacts/contact-3d.hxx", MB + "contacts/contact-6d.hxx", MB + "impulses/impulse-3d.hxx", MB + "impulses/impulse-6d.hxx"],
     [("calc / calcDiff / updateForce", MB + "contacts/contact-*d.hxx, " + MB + "impulses/impulse-*d.hxx")], observe=["a0, Jc, da0_dx, dv0_dq, f, fext, dtau_dq of the data"])
prop("B01", "Multibody dynamics actions: motion, exact derivatives, equilibria",
     "For every state, control and robot, the free and contact forward-dynamics actions return the acceleration that satisfies the equations of motion (with armature, actuation and contact forces) and the contact constraints (with damping); impulse dynamics returns the velocity after the impact that satisfies momentum balance and restitution; inverse dynamics returns exactly the unactuated torques and the contact accelerations as equality constraints. Costs, constraints, forces and all their derivatives with respect to state and control are those of that solution. The quasi-static control is the least-norm one holding the robot still with its active contacts. Inactive contacts have no effect, whatever was evaluated before. Limits, bounds, dimensions and settings are reported as given and survive conversions.",
     ["inputs", "configurations", "histories"], "every inertia, gravity, Coriolis term, contact Jacobian, drift and their first derivatives; 2 joint velocities, 0..2 contacts or impulses active or not, 1..2 actuated joints; fresh or used data, status changes between evaluations",
     "No stable test covers multibody actions, and numerical tests use fixed robots, no armature and zero restitution.",
     [MB + "actions/free-fwddyn.hxx", MB + "actions/contact-fwddyn.hxx", MB + "actions/impulse-fwddyn.hxx", MB + "actions/free-invdyn.hxx", MB + "actions/contact-invdyn.hxx", MB + "actions/contact-invdyn.hpp", MB + "actions/free-invdyn.hpp"],
     [("calc / calcDiff / quasiStatic / cast of the actions", MB + "actions/*.hxx"), ("inverse-dynamics residuals on actuation and contacts", MB + "actions/free-invdyn.hpp, contact-invdyn.hpp")],
     state=[("pinocchio, multibody, Kinv, df_dx, tmp_Jstatic", "robot data and constraint solution kept between calls", MB + "actions/contact-fwddyn.hpp")],
     observe=["xout/xnext, cost, g, h and all derivatives; contact forces; quasi-static control; get_g_lb, get_g_ub, get_u_lb, get_u_ub"])
