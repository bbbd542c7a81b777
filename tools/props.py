# The table of properties (exec'd by gen_meta.py; P(...) registers one).

P("C01", "ReLU network encodings describe exactly the network's graph",
  "For a (leaky) ReLU network and an input box, the mixed-integer constraints "
  "generated for the network admit an (input, output) pair if and only if the "
  "output is what the network computes for that input. The 0/1 variables that "
  "are feasible at an input are exactly the activation patterns of that "
  "input, and each of them pins the output.",
  ["inputs", "programs"],
  "every network architecture/weights, every input box (degenerate ones too), "
  "every way of computing bounds, every input in the box, every assignment of "
  "the binary variables",
  "Tests solve a few random networks at random inputs with one solver run; "
  "they never look at infeasible assignments, at inputs on the boundary "
  "between linear pieces, or at degenerate boxes, and the solver they need is "
  "not available in this environment.",
  ["relu_to_optimization.py", "mip_utils.py", "utils.py",
   "relu_to_optimization_utils.py"],
  [("network to mixed-integer constraints",
    "relu_to_optimization.py: ReLUFreePattern.output_constraint"),
   ("one (leaky) ReLU unit as constraints",
    "utils.py: replace_relu_with_mixed_integer_constraint, "
    "replace_leaky_relu_mixed_integer_constraint")],
  "All cells of each declared network (<=2 inputs, <=4 layers, <=8 units) x "
  "all binary assignments; LP tolerance 1e-9, comparison 1e-6; larger "
  "networks are outside the bound.",
  observe=["the returned constraint block"])

P("C02", "Reported bounds enclose every value a network takes over the box",
  "Every bound reported for a network's unit inputs, unit outputs or outputs "
  "over an input box encloses all values taken on that box, whatever method "
  "computes it. The optimisation-based bounds equal the exact range, and a "
  "tighter method never reports a looser bound than a weaker one.",
  ["inputs", "programs", "configurations"],
  "every network, box, bound-computation method and every input in the box",
  "A test compares against sampled inputs, which nearly never reach the "
  "extreme points; soundness is a statement about all inputs.",
  ["relu_to_optimization.py", "mip_utils.py", "relu_to_optimization_utils.py"],
  [("bound propagation",
    "relu_to_optimization.py: ReLUFreePattern._compute_layer_bound"),
   ("range utilities", "mip_utils.py: compute_range_by_lp, "
    "propagate_bounds; relu_to_optimization_utils.py")],
  "Exact ranges by vertex enumeration of all cells, all four methods, the "
  "whole declared family of networks and boxes.")

P("C03", "Activation patterns, linear pieces and norm/network gradients agree",
  "At every point the activation pattern found for a network, the linear "
  "piece it selects and the gradient it implies agree with the network's "
  "value; at a kink all one-sided gradients are reported and no other. The "
  "same holds for the gradients of the 1-norm and infinity-norm.",
  ["inputs", "programs"],
  "every network, every activation pattern, every input including points "
  "exactly on one or several switching surfaces",
  "Random test points are never on a switching surface, where the set-valued "
  "answer matters.",
  ["relu_to_optimization.py", "utils.py"],
  [("activation patterns and pieces",
    "relu_to_optimization.py: ComputeReLUActivationPattern, "
    "ReLUGivenActivationPattern, compute_all_relu_activation_patterns"),
   ("norm subgradients", "utils.py: l1_gradient, l_infinity_gradient")],
  "All patterns of every network in the families and all vertices, midpoints "
  "and grid points of the exact cells.")

P("C04", "Encodings of a network's gradient, and gradient times vector, are exact",
  "For every assignment of the activation variables, the encoding of the "
  "network's gradient (or of gradient times a bounded vector) admits exactly "
  "the gradient (product) for that assignment, with bounds that enclose it.",
  ["inputs", "programs"],
  "every network, every activation assignment, every vector in every box",
  "Tests sample a few assignments and vectors on one network.",
  ["relu_to_optimization.py", "utils.py"],
  [("gradient encodings", "relu_to_optimization.py: ReLUFreePattern."
    "output_gradient, output_gradient_times_vector")],
  "All 2^n activation assignments of each network, corner and interior "
  "vectors of each box.")

P("C05", "Primitive mixed-integer encodings are exact for every input ordering",
  "The building blocks (product of a binary and a continuous variable, ReLU, "
  "leaky ReLU and its gradient times a value, absolute value, maximum, "
  "saturation, boundary of a box) admit a point if and only if it satisfies "
  "the function they stand for, for every admissible ordering and sign of "
  "their bounds. Binary assignments of the wrong case are infeasible, and the "
  "coefficients carry their true derivatives with respect to the bounds.",
  ["inputs", "configurations"],
  "every interval (all sign cases, degenerate intervals), every input in it, "
  "every binary assignment, every ordering of limits",
  "Unit tests fix one or two intervals; the defects live in the sign cases "
  "and the ties.",
  ["utils.py", "mip_utils.py"],
  [("primitive encodings", "utils.py: replace_binary_continuous_product, "
    "leaky_relu_gradient_times_x, max_as_mixed_integer_constraint, "
    "saturation_as_mixed_integer_constraint, box_boundary"),
   ("absolute value", "utils.py: absolute_value_as_mixed_integer_constraint")],
  "All intervals over a 7-point alphabet with all points of it, all binary "
  "assignments, all orderings of saturation limits vs input bounds.")

P("C06", "Strengthening cuts never remove a true solution",
  "Every inequality generated to strengthen a ReLU encoding holds at all "
  "points of the network's graph, the selected cut is the most violated one "
  "of its family, and adding cuts at relaxed solutions leaves the optimal "
  "value unchanged while the relaxation bound only tightens.",
  ["inputs", "programs", "histories"],
  "every unit (weights, box, bias, slope), every subset cut, every relaxed "
  "point, every number of rounds of cuts",
  "The family is exponential in the fan-in and validity is a statement about "
  "all graph points; tests check one cut.",
  ["mip_utils.py", "relu_to_optimization.py", "lyapunov.py"],
  [("cut generation", "mip_utils.py: strengthen_relu_mip, "
    "strengthen_leaky_relu_mip_w_indices, find_index_set_to_strengthen"),
   ("cut callback", "relu_to_optimization.py: ReLUFreePattern."
    "strengthen_mip_at_solution")],
  "All index subsets x graph grid points x activations for an alphabet of "
  "units; all vertices of network graphs; four rounds of cuts.")

P("C07", "Combining constraint blocks preserves the meaning of each block",
  "Concatenating two blocks describes the Cartesian product of what they "
  "describe, changing the input variable describes the preimage, and a copy "
  "describes the same set and is independent of the original; the operations "
  "leave all other blocks (and the tensors they share) as they were, and "
  "carry derivatives with respect to all of the data of the operands.",
  ["histories", "programs"],
  "every history of clone/concatenate/change-of-input over blocks with every "
  "combination of missing fields",
  "Missing-field combinations and aliasing between blocks only show in "
  "particular histories.",
  ["gurobi_torch_mip.py"],
  [("block algebra", "gurobi_torch_mip.py: "
    "concatenate_mixed_integer_constraints, MixedIntegerConstraintsReturn."
    "clone, transform_input")],
  "All operation histories up to depth 2 (thorough 3) from 16 starting pairs; "
  "all presence patterns of fields for one operation.",
  state=[("constraint block", "matrices/bounds over input, slack, binary",
          "gurobi_torch_mip.py: MixedIntegerConstraintsReturn")])

P("C08", "The differentiable mirror and the solver hold the same problem",
  "After every history of variable creation, constraint addition, removal, "
  "bound changes and objective changes, the differentiable copy of the problem "
  "and the problem held by the solver are the same problem, namely the one "
  "the caller described. An operation naming an unknown or repeated variable "
  "is refused and changes nothing.",
  ["histories"],
  "every history of operations on a problem, linear or quadratic",
  "Tests add constraints once, in one order, and never interleave variables, "
  "constraints, removals and refused operations.",
  ["gurobi_torch_mip.py"],
  [("mirrored construction", "gurobi_torch_mip.py: GurobiTorchMIP.addVars, "
    "addLConstr, addMConstr, add_mixed_integer_linear_constraints, "
    "remove_binary_relaxation; GurobiTorchMILP/MIQP.setObjective")],
  "All histories up to depth 3 (quick: 2 from most starts) over an alphabet "
  "of operations, compared row by row after each step.",
  state=[("mirror", "coefficient lists of the problem kept as tensors",
          "gurobi_torch_mip.py: GurobiTorchMIP")])

P("C09", "Objective recomputed from problem data equals the solver's optimum",
  "The optimal objective (and that of each pooled solution), recomputed as a "
  "differentiable function of the problem data, equals the objective of the "
  "solved problem. Where the optimum is differentiable, the gradient with "
  "respect to every coefficient, bound and constant equals the rate at which "
  "the optimum changes. When the solver returns its solution only up to a "
  "scaled tolerance, the search for the active rows widens its own tolerance "
  "until the objectives agree, and reports a dedicated error when they never "
  "do, instead of returning another objective.",
  ["inputs", "programs"],
  "every problem, every pooled solution, every datum of the problem",
  "Tests differentiate one or two problems in one datum; sign and "
  "cross-term mistakes need other active sets.",
  ["gurobi_torch_mip.py"],
  [("active-set recomputation", "gurobi_torch_mip.py: GurobiTorchMILP."
    "compute_objective_from_mip_data(_and_solution), GurobiTorchMIQP")],
  "Every problem of the declared families, every pooled solution, every datum "
  "perturbed both ways; gradients compared at non-degenerate solutions.")

P("C10", "Hybrid linear systems: encoding, simulation and bounds are one map",
  "For a piecewise-affine system, the mixed-integer encoding admits a "
  "transition if and only if some mode containing the state and input makes "
  "it; simulation follows one of those modes, reported state bounds enclose "
  "all successors, and partitions of the state space cover it. Cost-to-go "
  "samples are the accumulated cost of the simulated trajectory and leaving "
  "the domain is reported, not averaged away.",
  ["inputs", "programs", "histories"],
  "every system (overlapping or gapped modes), every state/input, every "
  "binary assignment, every start and horizon",
  "Tests use one system with interior points; overlaps, boundaries, leaving "
  "the domain and aliasing of costs need particular trajectories.",
  ["hybrid_linear_system.py"],
  [("encoding and simulation", "hybrid_linear_system.py: HybridLinearSystem."
    "mixed_integer_constraints, step_forward, cost_to_go; "
    "AutonomousHybridLinearSystem"),
   ("partition", "hybrid_linear_system.py: partition_state_input_space")],
  "Every system of the family x every grid point (vertices, edges, centres, "
  "outside) x every binary assignment; every start/horizon/goal.")

P("C11", "Every ReLU dynamics class: simulation and MIP constraints agree",
  "For every class of ReLU dynamics (autonomous, given equilibrium, residual, "
  "controlled, second order, residual second order; discrete and continuous "
  "time) the simulated step is the stated map with the stated equilibrium, "
  "and the mixed-integer constraints added for it admit, at every state and "
  "input in the box and for every assignment of the binaries, exactly that "
  "successor, and nothing outside the box. All returned bounds enclose. The "
  "gradient of the step is its derivative.",
  ["inputs", "configurations"],
  "every network, state, input, binary assignment, propagation method, and "
  "tightened input bound",
  "Tests solve the constraints at a few random states of one network per "
  "class; other binary assignments are never looked at.",
  ["relu_system.py"],
  [("dynamics classes", "relu_system.py: *ReLU*System*.step_forward, "
    "add_dynamics_constraint, mixed_integer_constraints")],
  "All configurations x grid and cell points; every feasible binary leaf of "
  "the program, with LP extents of the successor.")

P("C12", "Closed loop: saturated controller and plant, simulated or encoded",
  "A feedback system applies u = clamp(phi(x) - phi(x*) + u*) (or the linear "
  "controller) to the plant; controls respect the input limits; the "
  "mixed-integer constraints of the closed loop admit exactly that control "
  "and successor at every state and for every binary assignment; bounds on "
  "the control enclose; strengthening the formulation around a relaxed "
  "solution never cuts off a real closed-loop transition. Gradients of the "
  "control and the step are derivatives.",
  ["inputs", "configurations"],
  "every plant class, controller, saturation limits, state, binary "
  "assignment, and objective used for strengthening",
  "Tests compare solver output and simulation at a few random states.",
  ["feedback_system.py", "relu_system.py", "hybrid_linear_system.py"],
  [("closed loop", "feedback_system.py: FeedbackSystem.step_forward, "
    "compute_u, add_dynamics_constraint"),
   ("strengthening", "feedback_system.py: "
    "strengthen_controller_mip_constraint")],
  "All plants x controllers x limits x grid points; every feasible binary "
  "leaf, before and after strengthening.")

P("C13", "Control-affine systems: dynamics, encodings and bounds agree",
  "For continuous-time control-affine systems (linear, ReLU, second order) "
  "the dynamics are f(x) + G(x) clamp(u); the mixed-integer encodings of f "
  "and of G admit, at every state and for every assignment of the binaries, "
  "exactly f(x) and G(x), and no state outside the box; every reported bound "
  "encloses the values; gradients are derivatives; fitting takes the "
  "optimiser steps of the documented loss on the training split only.",
  ["inputs", "configurations"],
  "every system class, network, parameter, state, input, binary assignment, "
  "and random split and order of the training data",
  "Tests check one random network per class at random states, through a "
  "solver which is not available here.",
  ["control_affine_system.py"],
  [("encodings", "control_affine_system.py: mixed_integer_constraints of "
    "LinearSystem, ReluSecondOrderControlAffineSystem, "
    "SecondOrderControlAffineSystem"),
   ("bounds and simulation", "control_affine_system.py: dynamics, "
    "compute_f_range_ia, compute_G_range_ia, "
    "train_control_affine_forward_model")],
  "All classes x networks x grid and cell points; every feasible binary "
  "leaf.")

P("C14", "The Lyapunov positivity certificate is the exact maximum over the box",
  "V(x) = phi(x) - phi(x*) + lambda |R(x-x*)|_1 for one state or a batch, and "
  "V(x*)=0. In the positivity program every state of the box and only those "
  "is allowed, and for every assignment of the binaries the objective is "
  "eps|R(x-x*)|_1 - V(x), so its optimum is the exact maximum whatever the "
  "warm start and bound propagation; its gradient with respect to the network "
  "is the derivative of that maximum.",
  ["inputs", "configurations"],
  "every network, box, equilibrium, R, lambda, epsilon, bound method, state "
  "and binary assignment",
  "Tests sample states on a few networks and need a solver that is absent; a "
  "wrong big-M row only shows where it cuts off the maximiser.",
  ["lyapunov.py"],
  [("value", "lyapunov.py: lyapunov_value, _lyapunov_value_as_milp"),
   ("program", "lyapunov.py: lyapunov_positivity_as_milp, "
    "add_lyap_relu_output_constraint, add_state_error_l1_constraint, "
    "validate_x_equilibrium")],
  "Networks up to two hidden layers x boxes x equilibria x R x bound methods "
  "in one and two dimensions; all states on cells and grid, all leaves.")

P("C15", "The discrete-time derivative certificate is exact and survives cuts",
  "For every transition x -> x+ of the system (ReLU, residual, hybrid, "
  "feedback) inside the box and within the level bounds on V, and for no "
  "other, the derivative program admits the transition, and then for every "
  "assignment of the binaries its objective is the stated condition "
  "(exponential from below or above, asymptotic). Its optimum is the exact "
  "maximum; warm starts, LP strengthening and binary strengthening never "
  "change it.",
  ["inputs", "configurations", "histories"],
  "every system class, network, R, level bounds, convergence type, bound "
  "method, state, binary assignment and number of strengthening rounds",
  "Tests evaluate the program on a few samples with an absent solver; an "
  "unsound cut only shows when it removes the true maximiser.",
  ["lyapunov.py"],
  [("program", "lyapunov.py: lyapunov_derivative_as_milp, "
    "lyapunov_derivative"),
   ("strengthening", "lyapunov.py: strengthen_lyapunov_derivative_as_milp, "
    "strengthen_lyapunov_derivative_milp_binary")],
  "Systems x networks x R x levels x convergence types in one and two "
  "dimensions; all states on cells and grid, all leaves.")

P("C16", "The continuous-time derivative certificates are exact",
  "For continuous-time systems, at every state and for every assignment of "
  "the binaries the objective of the derivative programs is a value of "
  "dV/dt + eps V for a gradient of V and a mode of the system that are valid "
  "there; every value that is a limit from inside the box is attained, so the "
  "optimum is the maximum. lyapunov_derivative returns the same set of "
  "values; states outside the box or the level bounds are excluded; the "
  "relaxation is never below the optimum.",
  ["inputs", "configurations"],
  "every continuous-time system, network, R, formulation, level bounds, "
  "state and binary assignment",
  "The value is set-valued at kinks of V and at mode boundaries, which "
  "sampled tests never hit.",
  ["continuous_time_lyapunov.py", "lyapunov.py"],
  [("ReLU systems", "continuous_time_lyapunov.py: "
    "LyapunovContinuousTimeSystem.lyapunov_derivative_as_milp, "
    "lyapunov_derivative"),
   ("hybrid systems", "continuous_time_lyapunov.py: "
    "LyapunovContinuousTimeHybridSystem.lyapunov_derivative_as_milp, "
    "lyapunov_derivative_as_milp2")],
  "Autonomous ReLU systems x IA/LP/MIP bounds and hybrid systems x both "
  "formulations, in one and two dimensions; all states, all leaves.")

P("C17", "The region of attraction is certified exactly",
  "The certified level rho is sound: every state of the box with V(x) < rho "
  "has all its successors inside the box (when the larger box given holds "
  "them), rho never exceeds the verified level, and rho is exactly the "
  "optimum of the stated problem, neither larger nor needlessly smaller. The "
  "programs behind it admit exactly the states and transitions they state, "
  "for every assignment of the binaries, and their objective is V.",
  ["inputs", "configurations"],
  "every discrete-time system, network, R, box, verified level, state and "
  "binary assignment",
  "Tests check one system with sampled states; states leaving through a "
  "corner of the box, or a level decided by a kink, are not sampled.",
  ["lyapunov.py"],
  [("region of attraction", "lyapunov.py: "
    "LyapunovDiscreteTimeHybridSystem.compute_region_of_attraction, "
    "_construct_milp_for_roa, _construct_milp_for_roa_boundary")],
  "Autonomous, residual, hybrid and closed-loop systems that stay in, leave "
  "or partly leave the box, one and two dimensions; rho against the exact "
  "cells; every leaf of the programs.")

P("C18", "Barrier certificates mean what they state",
  "h(x) is phi(x) - phi(x*) + c, for one state or a batch. The value "
  "programs admit exactly the states of the region and "
  "box with objective h or -h, the derivative program exactly the transitions "
  "staying in the box with objective -h(x+) + (1 - eps) h(x); both optima are "
  "exact maxima. Barrier losses on samples are the stated hinge losses. "
  "Gradients are derivatives.",
  ["inputs", "configurations"],
  "every discrete-time system, barrier network, unsafe and initial region, "
  "state and binary assignment",
  "Tests sample states for one network; an optimum cut off by a wrong bound, "
  "or a region bound on the wrong side, changes single leaves.",
  ["barrier.py", "train_lyapunov_barrier.py"],
  [("value", "barrier.py: Barrier.value, value_as_milp"),
   ("derivative", "barrier.py: DiscreteTimeBarrier.derivative, "
    "derivative_as_milp"),
   ("losses", "barrier.py: derivative_loss_at_samples_and_next_states; "
    "train_lyapunov_barrier.py: Trainer.barrier_sample_loss")],
  "Autonomous, residual, hybrid and closed-loop systems x networks x regions, "
  "one and two dimensions; all grid and cell states, all leaves.")

P("C19", "Losses on samples are the stated losses, with their gradients",
  "For every list of samples the positivity and derivative losses equal the "
  "stated hinge losses of the exact V, of its exact derivative or of the true "
  "transitions, for each convergence type (lower and upper exponential bound, "
  "asymptotic), margin, weighting and reduction; a sample that satisfies the "
  "condition with the margin contributes nothing. Gradients with respect to "
  "the network, R and the controller are those of the loss.",
  ["inputs", "configurations"],
  "every system, network, R, list of samples, convergence type, margin, "
  "weight, reduction",
  "Tests check one type for random samples; ignored weights, a wrong branch "
  "or a detached parameter shows for particular combinations only.",
  ["lyapunov.py", "continuous_time_lyapunov.py"],
  [("positivity loss", "lyapunov.py: "
    "LyapunovHybridLinearSystem.lyapunov_positivity_loss_at_samples"),
   ("derivative losses", "lyapunov.py: LyapunovDiscreteTimeHybridSystem."
    "lyapunov_derivative_loss_at_samples, "
    "lyapunov_derivative_loss_at_samples_and_next_states; "
    "continuous_time_lyapunov.py: lyapunov_derivative_loss_at_samples")],
  "Discrete- and continuous-time systems of every kind x all short lists from "
  "a pool x all types, margins, weights and reductions.")

P("C20", "The trainer's losses are made of the exact terms",
  "For all cost weights (also None and zero), flags, pool sizes and "
  "reductions the trainer's total loss is the weighted sum of the exact "
  "optimal values, the gap of V over the boundary and the losses on samples. "
  "States it adds to the samples are true counterexamples with their true "
  "successors, worst first, and the pools keep the stated size. The gradient "
  "of the total is the derivative of the exact total. The same holds for the "
  "barrier losses.",
  ["inputs", "configurations", "histories"],
  "every system, candidate, combination of weights, flags, pool sizes, "
  "existing samples",
  "Tests fix one combination per method; a skipped term, a pool cut at the "
  "wrong end or a stale successor shows for others only.",
  ["train_lyapunov_barrier.py"],
  [("losses", "train_lyapunov_barrier.py: Trainer.total_loss, "
    "solve_positivity_mip, solve_lyap_derivative_mip, "
    "solve_boundary_gap_mip"),
   ("barrier losses", "train_lyapunov_barrier.py: "
    "Trainer.compute_barrier_loss"),
   ("training set", "train_lyapunov_barrier.py: "
    "Trainer.lyapunov_sample_loss")],
  "All systems x weights/flags/pool combinations; terms recomputed exactly "
  "from cells, gradients from one-sided differences of the exact total.",
  state=[("sample pools", "samples after each evaluation",
          "train_lyapunov_barrier.py: Trainer.total_loss")])

P("C31", "Training loops walk the documented states and report the truth",
  "Training for n iterations visits exactly the documented states: each step "
  "is the optimiser's step on the gradient of the total loss over the grown "
  "pools. Success is reported exactly when both exact optima are within their "
  "tolerances at the parameters left behind. Descent on samples never ends "
  "worse than it began and keeps the best epoch, for every schedule of "
  "shuffled batches; training on samples keeps the epoch with the least test "
  "loss. The value approximator and clustering do what they state.",
  ["inputs", "configurations", "histories", "schedules"],
  "every system, optimiser, options, tolerance, number of iterations, shuffle "
  "of the batches and split",
  "Tests run a few iterations once and look at no state in between; a stale "
  "optimiser, an early stop or a lost best epoch needs a history.",
  ["train_lyapunov_barrier.py"],
  [("training", "train_lyapunov_barrier.py: Trainer.train"),
   ("adversarial training", "train_lyapunov_barrier.py: "
    "Trainer.train_adversarial"),
   ("training on samples", "train_lyapunov_barrier.py: "
    "Trainer.train_lyapunov_on_samples"),
   ("value approximation", "train_lyapunov_barrier.py: "
    "TrainValueApproximator")],
  "All prefixes of each trajectory, all tolerance pairs around the optima "
  "met, all outcomes of torch.randperm up to a bound; variants of options per "
  "configuration.",
  state=[("parameters, optimiser and pools", "after each iteration",
          "train_lyapunov_barrier.py: Trainer.train, train_adversarial")])

P("C32", "Dynamics are learned with true Lyapunov losses and documented steps",
  "When dynamics are learned together with a Lyapunov function, the Lyapunov "
  "losses are the weighted exact optima (also with warm starts over any "
  "history of parameters; a search stopped early ends at a counterexample "
  "beyond its threshold). Adversarial samples are true counterexamples, worst "
  "first. Losses on samples count exactly the samples in the stable box; "
  "reconstruction, prediction, KL and equilibrium losses count every sample. "
  "Roll-outs are trajectories of the learned system. Training takes exactly "
  "the documented steps, however the epochs are split over calls and wherever "
  "it is interrupted, and saves what it ends with.",
  ["inputs", "configurations", "histories", "crash points"],
  "every system, network, R, weights, batch, image, history of parameters, "
  "split of the epochs and point of interruption",
  "Tests check signs and shapes after one call; a sample dropped from a "
  "batch, a stale warm start or an unlucky interruption does not show.",
  ["dynamics_learning.py"],
  [("Lyapunov losses", "dynamics_learning.py: DynamicsLearning.lyapunov_loss, "
    "lyapunov_loss_at_samples, adversarial_samples"),
   ("training", "dynamics_learning.py: DynamicsLearning.train, "
    "rollout_validation"),
   ("state space", "dynamics_learning.py: StateSpaceDynamicsLearning"),
   ("latent space", "dynamics_learning.py: LatentSpaceDynamicsLearning")],
  "Autonomous and residual systems in one and two dimensions, images of 2x3 "
  "pixels with 1 and 3 channels; all lists of samples, all interruptions.",
  state=[("parameters, optimiser, warm starts", "after each batch",
          "dynamics_learning.py: DynamicsLearning.train")])

P("C33", "Certificates are trained with the gradient of the exact worst case",
  "For every program a certificate is trained with (positivity, derivative in "
  "discrete and continuous time, value and derivative of a barrier, gap of V "
  "over the boundary) and every class of system it accepts, the loss "
  "recomputed from the solution equals the exact worst case, and its gradient "
  "with respect to every trainable parameter - certificate network, R, "
  "dynamics network, controller - is the derivative of the exact worst case "
  "where that derivative exists and the worst state is unique.",
  ["inputs", "configurations", "programs"],
  "every program, system class, plant, controller, network, R and parameter",
  "A parameter whose share of the gradient is lost or doubled (a detached "
  "equilibrium, a constant R) still trains, and every value and sign a test "
  "looks at stays right; only comparing each entry with the exact optimum "
  "around it shows the difference.",
  ["lyapunov.py", "barrier.py", "continuous_time_lyapunov.py",
   "feedback_system.py", "relu_system.py", "gurobi_torch_mip.py",
   "train_lyapunov_barrier.py"],
  [("programs", "lyapunov.py: lyapunov_positivity_as_milp, "
    "lyapunov_derivative_as_milp; barrier.py: value_as_milp, "
    "derivative_as_milp; continuous_time_lyapunov.py"),
   ("systems", "relu_system.py, feedback_system.py: "
    "add_dynamics_constraint"),
   ("objective", "gurobi_torch_mip.py: "
    "compute_objective_from_mip_data_and_solution"),
   ("boundary gap", "train_lyapunov_barrier.py: "
    "Trainer.solve_boundary_gap_mip")],
  "Ten programs x eighteen systems in one and two dimensions x networks x R; "
  "every entry of every parameter.")

P("C21", "Every parameterisation of R keeps its promise for all variables",
  "Whatever values the search variables take and however they got them, R has "
  "the promised size, full column rank with smallest singular value at least "
  "the promised bound (symmetric positive definite top block where promised). "
  "Assigning a matrix makes R that matrix, a refused assignment changes "
  "nothing, and R has the right derivative with respect to every variable.",
  ["inputs", "histories"],
  "every class, size, assignment of the variables, and every history of "
  "assignments, refused assignments, optimiser steps and queries",
  "Tests set one matrix and look at one gradient; memory shared with the "
  "caller and half-done refused assignments need a history.",
  ["r_options.py"],
  [("parameterisations", "r_options.py: SearchRwithSPDOptions, "
    "SearchRwithSVDOptions, SearchRfreeOptions, FixedROptions")],
  "All assignments from a finite alphabet for sizes up to 4x2/3x3; all "
  "histories of length 3 (5) of 7 operations.",
  state=[("search variables", "the values R is computed from",
          "r_options.py: _variables, U, V")])

P("C22", "Networks, parameter vectors and saved models are one and the same",
  "The vector form of a network's parameters is a bijection used consistently "
  "for values, gradients, updates and rebuilt networks; nothing is shared "
  "between networks and vectors. A saved forward, controller or Lyapunov "
  "model, loaded again, is the same function with the same data, including a "
  "reproducible R. Clearing gradients clears all of them.",
  ["inputs", "histories", "programs"],
  "every architecture (widths, depth, bias, slope), every parameter, every "
  "history of building, updating, training, extracting, saving and loading",
  "Tests build one network and read it back; a swapped block, a shared "
  "memory or a forgotten field shows only in particular architectures or "
  "after a later step.",
  ["utils.py", "r_options.py"],
  [("parameter vectors", "utils.py: setup_relu, update_relu_params, "
    "extract_relu_parameters, extract_relu_parameters_grad, "
    "network_zero_grad"),
   ("models", "utils.py: save_second_order_forward_model, "
    "save_lyapunov_model, save_controller_model, extract_relu_structure")],
  "Every entry of the parameter vector of every declared architecture; all "
  "histories of length 3 (4) of 12 operations on two networks.",
  state=[("parameters and gradients", "leaves of the networks",
          "utils.py: setup_relu")])

P("C27", "Piecewise-linear Lyapunov synthesis solves the stated program",
  "For every piecewise-affine system and every set of requirements added, in "
  "any order and between solves, the function returned is optimal for the "
  "documented program: the returned slacks are the true worst violations of "
  "positivity and decrease, the function is continuous across the requested "
  "facets and zero at the equilibrium. Zero slacks mean a Lyapunov function "
  "at every state.",
  ["inputs", "programs", "histories"],
  "every system, margin, weight, subset and order of requirements",
  "Tests solve two systems with everything added; a missing or misplaced "
  "term shows only where that constraint is the active one.",
  ["simple_pwl_lyapunov.py"],
  [("linear program", "simple_pwl_lyapunov.py: SimplePWLLyapunov."
    "add_lyapunov_derivative_in_mode, add_lyapunov_positivity_in_mode, "
    "add_continuity_constraint, solve")],
  "Nine systems in 1-3 states; all subsets of 6 (8) requirements; all orders "
  "of 3 (4) additions with solves in between.",
  state=[("program", "constraints collected so far",
          "simple_pwl_lyapunov.py: SimplePWLLyapunov.constraints")])

P("C23", "Line-search optimisers move as documented and report true losses",
  "A line-search step follows the documented rule for every sequence of loss "
  "answers: trial parameters are the start point plus the (momentum, decay, "
  "Adam) direction scaled by the trial step, the search stops at the first "
  "step the Armijo-type test accepts or when trials run out, and the loss "
  "returned belongs to the parameters left behind. State survives save and "
  "restore.",
  ["histories", "configurations"],
  "every configuration, every sequence of loss values (better, worse, NaN) "
  "over every history of steps",
  "A test minimises one smooth function from one point: the sequences where "
  "trials fail, the search is exhausted or the momentum/moment state is "
  "carried over rejected trials do not occur.",
  ["line_search_gd.py", "line_search_adam.py"],
  [("backtracking", "line_search_gd.py: LineSearchGD.step"),
   ("backtracking with Adam", "line_search_adam.py: LineSearchAdam.step")],
  "Adversarial loss with 5 answers per evaluation, all sequences over "
  "histories of 2 (3) steps; equality with the threshold not distinguished.",
  state=[("optimiser state", "momentum buffers / moments / last step size",
          "line_search_gd.py: state")])

P("C24", "Roll-pitch-yaw rotations and their gradients are the true ones",
  "Converting roll-pitch-yaw angles to a rotation matrix gives the rotation "
  "composed of the three, and the gradient reported with respect to the "
  "angles is its derivative, for torch tensors and numpy arrays alike, in "
  "both precisions and at every attitude (gimbal lock and multiple turns "
  "included). Tensors stay differentiable, arguments are not modified.",
  ["inputs"],
  "every roll, pitch, yaw (all quadrants, multiple turns, seams and gimbal "
  "lock), both array types and precisions",
  "Tests compare the code with itself at a few generic angles; quadrant, "
  "seam and single-entry gradient errors need particular combinations and an "
  "independent reference.",
  ["geometry_transform.py"],
  [("conversion and its gradient",
    "geometry_transform.py: rpy2rotmat, rpy2rotmat_gradient")],
  "All triples of an angle grid containing all multiples of pi/6 over two "
  "turns plus awkward values, against unit quaternions; tolerance 1e-12 "
  "(3e-5 single precision).")

P("C25", "Simulation and plant models follow their equations of motion",
  "The fixed-step integrator is the classical Runge-Kutta scheme on any "
  "system, so a run can be split anywhere. Every plant model (rocket, pole, "
  "pendulum, quadrotors, cars) returns the accelerations of its mechanics for "
  "every state and input, numpy and torch alike; linearisations are the "
  "derivative of the dynamics and LQR gains solve the stated optimal control "
  "problem.",
  ["inputs", "histories"],
  "every state and input, parameter set, step size, number of steps and split "
  "of a run",
  "Tests compare at one or two random states, mostly the code with itself; a "
  "sign or a missing cross term needs an independent derivation at states "
  "where the term matters.",
  ["integrator.py", "examples/rocket/rocket.py", "examples/pole/pole.py",
   "examples/pendulum/pendulum.py", "examples/quadrotor2d/quadrotor_2d.py",
   "examples/quadrotor3d/quadrotor.py", "examples/car/unicycle.py",
   "examples/car/acceleration_car.py"],
  [("integrator", "integrator.py: rk4_constant_control"),
   ("rigid body dynamics", "examples/rocket/rocket.py: Rocket.dynamics; "
    "examples/pole/pole.py: Pole.dynamics; examples/quadrotor3d/quadrotor.py: "
    "Quadrotor.dynamics")],
  "Every point of the declared state x input grids against an independently "
  "derived model; derivatives by fourth-order differences, tolerance 1e-6.")

P("C26", "Simulator data sets describe what the simulator did",
  "A sample or rollout taken from the simulator is the picture/state of the "
  "requested start, and of the state reached after exactly the requested "
  "time, whatever was simulated before and whatever other generator is alive. "
  "Data loaders, noise and display keep pairs together and the values in "
  "range; the car world's sensors and obstacles are those requested.",
  ["histories", "configurations"],
  "every world, image format, start state, duration, and every history of "
  "operations on one or more generators",
  "Tests draw one sample from a fresh generator and look at shapes only; "
  "leaked simulator state needs a history, and a lost step needs particular "
  "durations.",
  ["pybullet_data_generation.py", "worlds.py",
   "examples/car/utils_simulation.py"],
  [("sample generation", "pybullet_data_generation.py: "
    "PybulletSampleGenerator.generate_sample, generate_rollout, "
    "generate_dataset"),
   ("worlds", "worlds.py: get_load_urdf_callback, "
    "get_load_falling_cubes_callback, get_load_cluttered_table_callback"),
   ("car world", "examples/car/utils_simulation.py")],
  "All histories of 2 (3) operations over two live generators; every declared "
  "world/format/start/duration; the physics engine itself is the reference.",
  state=[("simulation", "state of the physics engine between operations",
          "pybullet_data_generation.py: PybulletSampleGenerator")])

P("C28", "Sampling, polyhedron and numeric helpers do what they state",
  "Samples lie in the requested box (on its boundary where asked), with every "
  "face reachable, whatever the random source returns. Polyhedron helpers "
  "(emptiness, boundedness, bounds of polytopes, projection, Minkowski sums) "
  "are exact; LP costs, interval images, loss reductions, numerical "
  "gradients and annealing schedules equal their definitions.",
  ["inputs", "configurations"],
  "every value the random source can return, box, polyhedron, and argument "
  "of the helpers",
  "Tests draw random samples and check a few polyhedra; end points of the "
  "random source, degenerate, unbounded and empty sets are not sampled.",
  ["utils.py"],
  [("sampling", "utils.py: uniform_sample_in_box, "
    "uniform_sample_on_box_boundary, get_meshgrid_samples, box_boundary"),
   ("polyhedra", "utils.py: compute_bounds_from_polytope, "
    "is_polyhedron_bounded, project_to_polyhedron, minkowski_sum")],
  "All value vectors of the random source over a grid with both end points; "
  "all subsets of an alphabet of half-planes against exact Fourier-Motzkin "
  "elimination.")

P("C29", "Training and simulation helpers do the documented steps",
  "Gradient projection returns, in every mode, the documented combination of "
  "the two gradients (finite, non-conflicting, shapes kept). Training loops "
  "use every training sample exactly once per epoch, never the held-out ones, "
  "take exactly the optimiser step of the documented loss, and return the "
  "losses of the final network. Simulators apply the controller to the state "
  "of the plant at each step.",
  ["inputs", "histories", "configurations"],
  "every pair of gradients, mode, data set and batch size, epoch count, and "
  "history of calls",
  "Tests look at one random pair and at the loss going down; a dropped batch, "
  "a stale gradient or a vanishing one does not show.",
  ["train_utils.py", "utils.py"],
  [("gradient projection", "train_utils.py: project_gradient"),
   ("training loops", "utils.py: train_model, train_approximator"),
   ("simulation", "utils.py: step_system, simulate_plant_with_controller")],
  "All pairs over a gradient alphabet x modes; all size x batch x epoch "
  "combinations, monitored per batch.",
  state=[("network parameters", "parameters before and after each batch",
          "utils.py: train_model")])

P("C30", "Encoders, decoders and training log keep samples apart",
  "Image encoders and decoders have the documented shapes for every image "
  "size, channel layout and latent size; each sample of a batch is processed "
  "independently of its companions and order, the outputs are determined by "
  "the parameters, and every parameter takes part. The training log holds "
  "exactly what was added, in order, and copies do not interfere.",
  ["inputs", "histories", "configurations"],
  "every class, size, colour mode, latent size, sub-batch and order; every "
  "history of log operations",
  "Tests check output shapes for one size on random batches; mixing of "
  "samples keeps shapes intact.",
  ["encoders.py", "training_log.py"],
  [("encoders/decoders", "encoders.py: LinearEncoder1, CNNEncoder1, "
    "CNNEncoder2 and decoders"), ("log", "training_log.py: TrainingLog")],
  "Every declared class x size x mode and every ordered sub-batch of a batch "
  "of 3; log histories up to depth 3 (4).")

P("C34", "SLIP: simulated steps, their gradients and linear maps are true",
  "The spring loaded inverted pendulum follows its stated mechanics: stance "
  "and flight dynamics, guards, energies, and touchdown/liftoff transitions "
  "keep position and velocity; apex_map and simulate give the true next apex "
  "(position, height, velocity, time) and phases, conserve energy, and answer "
  "None exactly where no step exists; touching a stepping stone is decided "
  "exactly (its edges belong to it). Every *_gradient method returns the "
  "derivatives of those maps. The hybrid linear approximation (A, B, c, "
  "times, domain P, q) is the first-order expansion of the map and of its "
  "conditions, for finite and infinite stones of any height.",
  ["inputs", "histories", "configurations"],
  "every robot, apex state, leg angle, stepping stone and sequence of leg "
  "angles",
  "Tests sample a few states with random or positive leg angles; backward "
  "motion, falls, stones below zero, half-infinite stones and several steps "
  "in a row are not settled by them.",
  ["spring_loaded_inverted_pendulum.py", "slip_hybrid_linear_system.py"],
  [("mechanics", "spring_loaded_inverted_pendulum.py: SLIP.stance_dynamics, "
    "touchdown_transition, liftoff_transition, apex_map, simulate, "
    "time_to_touchdown"),
   ("gradients", "spring_loaded_inverted_pendulum.py: "
    "apex_to_touchdown_gradient, touchdown_to_liftoff_gradient, "
    "apex_to_apex_gradient"),
   ("linear approximation", "slip_hybrid_linear_system.py: "
    "SlipHybridLinearSystem.apex_map_linear_approximation")],
  "All points of product grids and all leg-angle sequences up to length 2 "
  "(3), against a separate Cartesian model integrated to 1e-11 and its "
  "difference quotients. Grazing contacts are left out.")

NOT_APPLICABLE = []
