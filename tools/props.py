PROOF = ("contract-based deductive verification: the function's current source is executed symbolically on every path by pydv, "
         "and each clause of its contract is an obligation discharged by z3; counterexamples are replayed on the real code")
MIXED = PROOF + "; functions listed under 'bounded' in the evidence are executed under their contract only"

BOUNDED = ("bounded stand-in for contract-based deductive verification: the contract is executed on the real code for generated inputs, "
           "against an independent reference (nothing is counted as proved)")


def P(id, title, statement, over, text, why, files, mech, level="proof", technique=PROOF, note="", na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if na:
        d["na"] = na
    else:
        d.update(level=level, technique=technique, level_note=note)
    return d


MIX = "yaocptool/modelling/mixins/"
SMF = "yaocptool/modelling/system_model.py"
OCPF = "yaocptool/modelling/ocp.py"
AOP = "yaocptool/optimization/abstract_optimization_problem.py"
SMB = "yaocptool/methods/base/solutionmethodsbase.py"
COLF = "yaocptool/methods/classic/collocationscheme.py"
MSF = "yaocptool/methods/classic/multipleshooting.py"
PROPS = [
    P("C01", "An optimization problem holds exactly what was put into it",
      "Every variable, parameter, objective and constraint put into an optimization problem is in it exactly once, in the order given, "
      "with exactly one lower and one upper bound per scalar entry: the ones asked for, with scalars broadcast, missing bounds infinite, "
      "equalities bounded by the same value on both sides, and written relations such as c <= e bounding e on the side they say. "
      "A malformed request (a size that differs, a lower bound above its upper bound, a constraint bound that depends on the problem's own "
      "variables or parameters, something that is not a relation) is rejected with an error and leaves the problem as it was.",
      ["inputs", "histories"], "all sizes, all bound values and forms (absent, scalar, vector, list), all expressions, any problem state the call may meet",
      "The tests include a handful of variables and constraints of sizes 1 to 4 with fixed numbers; a bound dropped, shifted or put on the wrong side "
      "for other sizes, forms or positions is not seen.",
      [AOP, "yaocptool/util/util.py"],
      [("variables and bounds", AOP + ":include_variable, create_variable"), ("constraints", AOP + ":include_inequality, include_equality, include_constraint"),
       ("objective and parameters", AOP + ":set_objective, include_parameter, create_parameter"), ("relation recognition", "yaocptool/util/util.py:is_equality, is_inequality")],
      note="All obligations of all contracts are discharged for unbounded sizes; casadi is modelled (see DESIGN.md)."),

    P("C02", "Solving solves the problem as it stands, with the options of that problem only",
      "Every solve builds the solver from, and passes to it, exactly the problem's current objective, constraints, variables, parameters and bounds, "
      "together with the initial guess, parameter values, multipliers and overriding bounds of that call, and returns what the solver returned with its statistics. "
      "Anything included or changed after an earlier solve is in the next one, a parameter vector of the wrong size is rejected, "
      "and neither the caller's arguments nor the solver options of other problems or of the library's defaults are changed.",
      ["inputs", "histories"], "all problems, all combinations of optional arguments, any sequence of changes and solves",
      "The tests solve small problems once; a stale solver, a dropped multiplier or a shared options dictionary shows only in longer histories.",
      [AOP, "yaocptool/optimization/nonlinear_problem.py", "yaocptool/optimization/quadratic_problem.py"],
      [("call arguments", AOP + ":solve, get_default_call_dict"), ("freshness", AOP + ":get_solver, get_problem_dict"),
       ("options", "yaocptool/optimization/nonlinear_problem.py:__init__")],
      note="All obligations discharged; casadi's nlpsol/qpsol are recorded, not modelled."),
    P("C03", "Finding and removing variables touches exactly the ones named",
      "Looking up variables in a vector of symbols gives, for each variable in the order asked, exactly the positions where it stands, and nothing for absent ones; "
      "looking up by name gives exactly the symbols whose name equals (or matches, as a regular expression) the request. "
      "Removing variables, or positions, removes exactly those and keeps the others in order; a request with nothing to remove, or with a position outside the vector, is rejected.",
      ["inputs"], "all vectors, selections, orders, positions (negative ones included)",
      "The tests remove one or two variables from short vectors.",
      ["yaocptool/util/util.py"], [("search", "yaocptool/util/util.py:find_variables_indices_in_vector, find_variables_in_vector_by_name"),
                                   ("removal", "yaocptool/util/util.py:remove_variables_from_vector, remove_variables_from_vector_by_indices")],
      technique=MIXED, note="Proved except the lookup by name, which is bounded (strings and regular expressions are outside the verifier)."),
    P("C04", "A model keeps every state paired with its own equation and initial value",
      "Whatever is created, included or removed, in any order, the state vector, the initial-value symbols and the differential equations of a model stay paired entry by entry, "
      "and algebraic variables, controls, parameters and finite-element parameters each stay in their own vector in the order they were included. "
      "An equation given for particular states reaches exactly those states, equations given without states reach the first states that have none, "
      "removing variables removes exactly them with what belongs to them, and including a state that is there already is rejected and changes nothing.",
      ["inputs", "histories"], "all model states, all sizes, all selections and orders of states",
      "The tests build a few fixed models in a natural order; an equation paired with the wrong state for another order or size is not seen.",
      ["yaocptool/modelling/system_model.py", "yaocptool/modelling/mixins/continuous_states_mixin.py"],
      [("states and equations", MIX + "continuous_states_mixin.py:include_state, include_equations, remove_state, ode"), ("algebraic", MIX + "algebraic_mixin.py"),
       ("controls", MIX + "control_mixin.py:include_control, remove_control"), ("parameters", MIX + "parameter_mixin.py"),
       ("by kind", SMF + ":include_variables, has_variable, get_variable_by_name")],
      technique=MIXED, note="Proved for vectors of any size; matrix-shaped variables and lookup by name are bounded."),
    P("C05", "Replacing a variable or parametrizing a control reaches every equation",
      "Replacing symbols by expressions substitutes them simultaneously in all differential equations, algebraic equations and control expressions of the model, and changes nothing else. "
      "Parametrizing controls does the same, takes them out of the vector of free control parameters, appends the new parameters to it and marks exactly those controls as parametrized. "
      "A request with sizes that differ, or that names a control that is already parametrized or not in the model, is rejected and leaves the model as it was.",
      ["inputs", "histories"], "all models, all selections of variables, all replacement expressions",
      "The tests substitute single variables in small models.",
      [MIX + "control_mixin.py", SMF], [("replacement", SMF + ":replace_variable and the mixins'"), ("parametrization", MIX + "control_mixin.py:parametrize_control, control_is_parametrized")],
      note="All obligations discharged."),
    P("C06", "Bounds, guesses and constraints of a problem stay with their variables",
      "Whatever is created, included, removed, connected or merged in an optimal control problem, every state, algebraic variable, control (value and move), optimized parameter and optimized finite-element parameter "
      "has exactly one lower and one upper bound, every state one initial value, and every given guess stands at its variable's position: the ones asked for, absent ones infinite (or zero for a guess). "
      "Costs and constraints hold exactly what was put in, each constraint row with the evaluation time asked for, a replaced or parametrized variable is replaced in all of them, "
      "and values that do not fit the size of their variable are rejected with the problem left as it was.",
      ["inputs", "histories"], "all problems in any consistent state, all sizes, all forms of the values (absent, vector, list, scalar for controls, wrong size), all selections and orders",
      "The tests include one or two scalar variables with fixed bounds and look at one vector at a time.",
      [OCPF], [("variables with bounds", OCPF + ":include_state, include_algebraic, include_control, include_optimization_parameter, include_optimization_theta"),
               ("constraints", OCPF + ":include_time_inequality, include_time_equality, include_initial_time_equality, include_final_time_equality, include_equality"),
               ("removal", OCPF + ":remove_algebraic, remove_control, connect"), ("costs", OCPF + ":create_quadratic_cost, create_cost_state"), ("consistency", OCPF + ":pre_solve_check")],
      note="All obligations discharged, for unbounded sizes."),
    P("C07", "Combining models or problems keeps every variable, equation and parametrization",
      "Including or merging models gives a model with all the variables, initial-value symbols, equations, control expressions and parametrizations of the parts, in order, in one common time, "
      "and leaves the included models as they were. Connecting controls to algebraic variables removes exactly those controls and either adds them as algebraic variables with the equation that ties them, "
      "or replaces them everywhere; controls that are not free, or sizes that differ, are rejected and nothing changes. "
      "Merging or connecting optimal control problems does the same to their models, joins their bounds, guesses, initial values and constraints in the same order, and adds their costs.",
      ["inputs", "histories"], "all models and problems, with and without missing equations and parametrized controls, any number of parts",
      "The tests merge two small models once.",
      [SMF, OCPF], [("inclusion", SMF + ":include_models, merge"), ("connection", SMF + ":connect"), ("problems", OCPF + ":merge, connect")],
      note="All obligations discharged."),
    P("C08", "A copy of a model shares nothing that a change could reach",
      "A copy of a model has the same variables and equations as the original, and no later change to either of them, of any kind, shows in the other. "
      "A deep copy has its own symbols for every variable, initial value, parameter and time, with the same names, and the same equations, control expressions and parametrizations written in them.",
      ["inputs", "histories"], "all models, every public kind of change, on either side",
      "A shared container shows only when a particular change follows the copy.",
      [SMF], [("copies", SMF + ":get_copy, get_deepcopy")],
      technique=MIXED, note="Shallow copies proved; the deep copy is bounded."),
    P("C09", "The time grid and the polynomials over it are what they are said to be",
      "The horizon is divided into elements of equal length from the initial to the final time, and an expression written in time or in the element's normalized time "
      "means the same after conversion to the other, on every interval. The approximating polynomials take exactly their parameters' values at the Radau points (and at zero where asked), "
      "for every degree and size, with the parameters ordered point by point; the controls of a solution method are those polynomials.",
      ["inputs", "configurations"], "all intervals, numbers of elements, expressions; all degrees up to 9 and sizes up to 3 for the polynomials",
      "The tests use horizons that start at zero and low degrees, where a wrong offset or node does not show.",
      ["yaocptool/util/util.py", "yaocptool/methods/base/solutionmethodsbase.py"],
      [("conversion", "yaocptool/util/util.py:convert_expr_from_tau_to_time"), ("grid", SMB + ":time_breakpoints, delta_t, collocation_points"),
       ("polynomials", SMB + ":create_variable_polynomial_approximation, create_control_approximation"), ("polynomials", "yaocptool/util/util.py:create_polynomial_approximation")],
      technique=MIXED, note="Conversions and grid proved; polynomials and control proved for listed degrees and sizes, exactly, over the numerical Radau points that casadi gives; random ones are bounded."),
    P("C10", "Decision vectors, guesses and results name the same thing at the same place",
      "Every entry of the decision vector stands for one entry of one variable at one point of one element, and is read from a solution, given its bounds and given its initial guess at that same place, for every number of elements, degree and size. "
      "Initial guesses hold the initial state, the given guesses (or zero), the given values of optimized parameters, or the simulated trajectory where that was asked for. "
      "A result reports, for every variable, its values with the times they belong to, its parameters with the optimized ones in place, and the method and problem it came from.",
      ["inputs", "configurations"], "all problem sizes, numbers of elements, degrees, both discretization schemes, all selections of optimized parameters in any order",
      "The tests look at optimal values of a few problems, in which most entries are alike.",
      [COLF, MSF], [("layout", COLF + ":unpack_decision_variables, repack_decision_variables, _create_nlp_symbolic_variables"), ("layout", MSF + ":unpack_decision_variables, _create_nlp_symbolic_variables"),
                    ("guess", COLF + ":create_initial_guess, create_initial_guess_with_simulation"), ("result", COLF + ":set_data_to_optimization_result_from_raw_data"), ("result", SMB + ":create_optimization_result")],
      technique=MIXED, note="Reading, repacking and guesses from the problem proved for any number of elements and any sizes; bounds, simulated guesses and results for listed configurations and all values; random larger problems bounded."),
    P("C11", "The nonlinear program is the discretized optimal control problem",
      "For every problem, the program handed to the solver has exactly the constraints that the discretization of that problem has, with the same bounds: initial condition, dynamics at every collocation point (or over every shooting interval), "
      "continuity, algebraic equations, path constraints at the times asked for, control move limits, final and parameter constraints; none is missing, repeated or taken at another place. "
      "Its objective is the final cost plus the integrated cost plus the cost per element.",
      ["inputs", "configurations"], "problems with any combination of features, both schemes, up to 4 elements, degree up to 4, control degree up to 3",
      "The tests solve a few small problems and compare an optimum; a constraint that is missing, or taken at a neighbouring point, seldom moves it.",
      [COLF, MSF], [("collocation", COLF + ":discretize, get_system_at_given_times"), ("shooting", MSF + ":discretize, get_system_at_given_times"), ("cost", "yaocptool/methods/classic/directmethod.py:_create_cost_state")],
      technique=MIXED, note="The whole program is proved for listed configurations (sizes, one to four elements, degrees, features; collocation and shooting) and all equations and values; the integrator is recorded. Larger random problems are bounded: compared with an independent transcription at random points."),
    P("C12", "A solve uses exactly the values it was given, every time",
      "The parameters, finite-element parameters, initial state, last control, initial guess and solver options given for a solve reach the solver, each at its place, whatever form they come in, and those not given are taken from the problem or rejected when needed. "
      "Solving changes neither the arguments nor the problem nor earlier results, so the same method can be solved again with other values as if it were new. "
      "Finite-element parameters are matched by element, joined in the order given, and rejected when given for different elements.",
      ["inputs", "histories"], "all sizes, forms and combinations of arguments; histories of three solves",
      "The tests solve each problem once, with one set of values.",
      [SMB], [("arguments", SMB + ":call_solver, solve, create_optimization_problem"), ("finite-element parameters", "yaocptool/util/util.py:join_thetas, create_constant_theta")],
      technique=MIXED, note="The vector passed to the program and the finite-element parameters are proved for any sizes; histories of solves for listed problems and all values (solver recorded); longer random histories are bounded."),
    P("C13", "A result keeps every value with the time it belongs to",
      "Data inserted into a result is appended to the named entry, column by column with its times, and data whose size or number of times does not fit is rejected with nothing changed. "
      "Sorting and joining results keep every value at its time, put the times in ascending order and keep the order of points at equal times, and leave the other result as it was; "
      "a joined simulation spans both horizons and counts the elements of both, and a copy shares nothing with its original.",
      ["inputs", "histories"], "all entries, sizes, numbers of points and times, in any order and with repetitions, any history of insertions",
      "The tests insert a few points in order and look at their number.",
      ["yaocptool/modelling/dataset.py", "yaocptool/modelling/simulation_result.py"],
      [("entries", "yaocptool/modelling/dataset.py:create_entry, insert_data, get_entry, sort, extend, get_copy"), ("simulations", "yaocptool/modelling/simulation_result.py:extend, final_condition"),
       ("export", "yaocptool/modelling/dataset.py:save, as_dataframe")],
      technique=MIXED, note="Proved for any number of points and any sizes; saving to a file and the dataframe are bounded."),
    P("C14", "A simulation integrates the model's equations with the inputs given",
      "Simulating a model integrates exactly its differential and algebraic equations, one element after the other from the end of the previous one, with the parameters, finite-element parameters and controls of that element and the integrator asked for, "
      "and reports the state at every element end with its time, the algebraic variables, and the controls that were applied. "
      "Simulating a problem does the same over the given or the problem's own horizon, in equal elements, from the given or its own initial state; systems of equations are joined, rewritten from normalized time and substituted in every equation. "
      "An empty horizon, an unknown integrator, or equations still in normalized time are rejected.",
      ["inputs", "configurations"], "all models, sizes and values; up to three elements in the proof of the simulation of a model, any number in the others",
      "The tests simulate small models once, mostly from time zero with one element.",
      [SMF, OCPF, "yaocptool/modelling/dae_system.py"],
      [("simulation of a model", SMF + ":simulate, get_dae_system"), ("simulation of a problem", OCPF + ":simulate"),
       ("equations", "yaocptool/modelling/dae_system.py:simulate, join, convert_from_tau_to_time, substitute_variable, dae_system_dict"), ("linear models, equilibria", SMF + ":linearize, find_equilibrium")],
      technique=MIXED, note="Proved with the integrator and the root finder recorded (their numerics are assumed); agreement with a Runge-Kutta integration and with numbers for linearization, equilibria and the matrix exponential is bounded."),
    P("C15", "Relaxed equations move into the cost, and their multipliers follow them",
      "The augmented Lagrangian method takes exactly the chosen algebraic equations, time equalities and state bounds out of the problem and adds each to the cost with its own multiplier and penalty; the freed variables become controls with their own bounds and guess, and everything else stays as it was. "
      "An update adds penalty times violation to every multiplier at every point of every element, reports the largest violation of every equation and moves the penalties by the chosen rule, never beyond the largest allowed. "
      "Every iteration solves with the current multipliers and penalties from the last solution, and they stop at the first one where all violations are below the tolerance or at the allowed number.",
      ["inputs", "configurations", "histories"], "all problems and choices of what is relaxed; in the proofs up to two relaxed equations and three iterations, any number of elements and any values",
      "The tests relax one equation of one problem and look at the optimum.",
      ["yaocptool/methods/augmented_lagrangian.py"],
      [("relaxation", "yaocptool/methods/augmented_lagrangian.py:__init__, _relax_algebraic_equations, _relax_time_equalities, _relax_states_constraints"),
       ("update", "yaocptool/methods/augmented_lagrangian.py:update_parameters, set_mu, _create_nu_update_func"), ("iterations", "yaocptool/methods/augmented_lagrangian.py:solve, call_solver")],
      technique=MIXED, note="Relaxation, update rule and iterations proved with the inner solver recorded; the violations at the solution and the agreement with the problem that was not relaxed are bounded."),
    P("C16", "A network is the composition of its nodes and their connections",
      "Every node of a network has an id of its own and is found by it and by its name; a connection keeps which outputs feed which inputs, in order, and is refused when the variables are not those of the nodes. "
      "The model and the problem of the network hold those of all nodes in the order of their ids, with every connected input an algebraic variable within its old bounds and equal to its output, all other inputs free, and the costs summed; the nodes' own models and problems stay as they were. "
      "Inserting intermediary nodes changes neither the nodes nor this behaviour, the proposed initial values are those at the end of a simulation of the whole network, and connected nodes never share a colour.",
      ["inputs", "configurations", "histories"], "all node models and problems (any sizes, equations, bounds) and connections; in the proofs two nodes and up to two connections, for any sizes",
      "The tests build one network with fixed models and look at its sizes.",
      ["yaocptool/modelling/network"],
      [("nodes and connections", "yaocptool/modelling/network/network.py:include_nodes, connect, remove_connection"), ("composition", "yaocptool/modelling/network/network.py:get_model, get_problem"),
       ("intermediary nodes, initial values, colours", "yaocptool/modelling/network/network.py:insert_intermediary_nodes, get_initial_condition, get_map_coloring_groups")],
      technique=MIXED, note="Ids, lookups, connections, the composed model and problem proved for two nodes of any size (networkx modelled); whole random networks, intermediary nodes, initial values and colours are bounded."),
    P("C17", "The closed loop applies to the plant what was solved for its measured state",
      "A simulated plant starts at the given state and time; every control advances it by exactly one sampling time, through its sampling points, integrating its model from where it was with that control "
      "(or with the value of the control function at the start of each point), and records the state, algebraic variables and control of every point. "
      "Its measurement is the output matrix times states and algebraic variables, plus noise only where noise is on, together with the time and the control that was applied; a control of the wrong size is refused. "
      "The controller runs the number of iterations asked for (or until stopped): every one measures, estimates, solves from the estimated state with the last control and the given parameters, and applies the first element of that solution as the polynomial of time it is. "
      "Running with a fixed control applies that control, and the given parameters stay as they were.",
      ["inputs", "histories"], "all plants (sizes, output matrices, noise, sampling), controllers and parameters; in the proofs the listed sizes, up to three sampling points and three iterations, any values and equations",
      "The tests never run the closed loop.",
      ["yaocptool/mpc"],
      [("plant", "yaocptool/mpc/plant.py:PlantSimulation"), ("controller", "yaocptool/mpc/mpc.py:MPC")],
      technique=PROOF, note="Proved for listed sizes, numbers of sampling points and iterations, with the integrator, the solution method, the estimator and the random numbers recorded (arbitrary results)."),
    P("C18", "Uncertain values keep their mean, covariance and distribution",
      "Parameters and initial conditions declared uncertain keep, in the order declared, exactly the mean, the block of the covariance and the distribution they were given, and nothing else becomes uncertain; "
      "their positions in the model and the parameters that remain certain are exact, and means or covariances of another size are refused with nothing changed. "
      "Every chance constraint has its own right hand side (zero if none is given) and its own probability; other sizes are refused. "
      "Samples are the mean plus the Cholesky factor of the covariance times normal quantiles of Sobol points (the exponential of that around the logarithm of the mean for log-normal ones), "
      "and the polynomials of an expansion are the products of Hermite polynomials up to its order.",
      ["inputs", "histories"], "all means, covariances, probabilities, expressions; in the proofs up to three declarations of up to two values",
      "The tests never declare an uncertain value or draw a sample.",
      ["yaocptool/modelling/stochastic_ocp.py", "yaocptool/stochastic"],
      [("uncertain values", "yaocptool/modelling/stochastic_ocp.py:set_parameter_as_uncertain_parameter, set_initial_condition_as_uncertain, get_p_unc_indices"), ("chance constraints", "yaocptool/modelling/stochastic_ocp.py:include_time_chance_inequality"),
       ("samples", "yaocptool/stochastic/util.py"), ("expansion", "yaocptool/stochastic/pce.py:get_ls_factor")],
      technique=MIXED, note="Declarations and chance constraints proved for the listed sizes; samples and polynomials are bounded."),
    P("C19", "Kalman filters predict with the model and correct by the measurement",
      "Every estimate starts from the last one (the first from the given mean and covariance) and simulates the given model from the time of the filter for one sampling time with the given control and parameters; the time of the filter advances by that. "
      "The unscented filter simulates the sigma points (the mean, and the mean plus and minus each column of the root of the scaled covariance) and takes their weighted mean and covariance plus the noise; "
      "the chaos filter simulates samples of the estimate and takes mean and covariance of the polynomials fitted to them, weighted by the expectations of their squares, plus the noise; "
      "the extended filter simulates the mean and carries the covariance through the exponential of the linearization at the prediction (with the algebraic equations eliminated), plus the noise. "
      "All correct the prediction by the gain (cross covariance times the inverse of the covariance of the measurement with its noise) times the difference between the given and the predicted measurement, and the covariance accordingly. "
      "The state and its covariance are returned, and the estimate is recorded at the time of the measurement.",
      ["inputs", "histories"], "all means, covariances, noises, measurement matrices, controls, models; in the proofs up to two estimates, two states, two algebraic variables, two measurements",
      "No test creates a Kalman filter.",
      ["yaocptool/estimation"],
      [("unscented", "yaocptool/estimation/unscented_kalman_filter.py:UnscentedKalmanFilter.estimate"), ("extended", "yaocptool/estimation/extended_kalman_filter.py:ExtendedKalmanFilter.estimate"),
       ("polynomial chaos", "yaocptool/estimation/pce_kalman_filter.py:PCEKalmanFilter.estimate"), ("ideal", "yaocptool/estimation/ideal_estimator.py:IdealEstimator.estimate")],
      technique=PROOF, note="Proved for the listed sizes with integrators, samples and the matrix exponential recorded (arbitrary results), and Cholesky root, solution of linear systems and inverse as uninterpreted functions of the entries."),
]
