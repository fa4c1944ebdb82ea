"""The property table: python3 tools/mk.py writes properties.jsonl and
MANIFEST.json from it."""
# id: (title, statement, over, quantifier text, why tests cannot, files,
#      [(mechanism, where)], observe_at, level note)
P = {}

P["C01"] = dict(
    title="Operator arithmetic equals matrix algebra and leaves operands alone",
    statement="Sums, differences, products and quotients of operators with operators, arrays and scalars equal the entries of the corresponding matrix expression. The binary forms leave both operands unchanged and return independent storage, the in-place forms change only the left operand, also when both operands are the same object. Operands of other kinds are rejected without changing anything.",
    over=["inputs"], q="every complex entry of every operand, for each operand kind and small dimension",
    why="The tests evaluate a handful of numeric matrices; a wrong sign, order or alias that cancels for those values stays unseen.",
    files=["qopt/matrix.py"],
    mech=[("operator arithmetic", "qopt/matrix.py: DenseOperator.__add__ .. __itruediv__"), ("element access and copies", "qopt/matrix.py: DenseOperator.__getitem__, copy")],
    observe="entries of the returned operator and of the operands after the operation",
    note="entries and scalars are free real variables; dimensions 1..3 (4 thorough)")

P["C02"] = dict(
    title="Adjoint, transpose, trace, Kronecker product and partial trace",
    statement="Adjoint, conjugate, transpose, trace, flattening, Frobenius norm and tensor product equal their textbook entrywise definitions, and the copying forms never alter or alias the operand while the in-place forms return the same object. The partial trace over any subset of subsystems, listed in any order, equals the sum over the removed indices, preserves the trace, and treats a ket as its projector.",
    over=["inputs"], q="all entries, all subsets and orders of removed subsystems for two and three (four thorough) subsystems",
    why="Tests use one or two numeric states and mostly symmetric dimensions; index permutation errors need unequal dimensions and general matrices.",
    files=["qopt/matrix.py"],
    mech=[("adjoint, conjugate, transpose, trace", "qopt/matrix.py: DenseOperator.dag, conj, transpose, tr"), ("partial trace", "qopt/matrix.py: DenseOperator.ptrace"), ("tensor product", "qopt/matrix.py: DenseOperator.kron")],
    observe="entries of returned operators and of the operand",
    note="exact polynomial identities over all entries; dimensions up to 12 for the partial trace")

P["C03"] = dict(
    title="Vectorized density matrices and unitary superoperators agree",
    statement="Vectorizing a density matrix stacks its columns, unstacking restores it, and the superoperator of a unitary applied to the vectorized matrix equals the vectorized conjugation by the unitary. Superoperators multiply like the unitaries, and inputs of the wrong shape or type are rejected.",
    over=["inputs"], q="all complex matrices of dimension 1..3 (4 thorough), given as operator or array",
    why="Tests use fixed matrices where row and column stacking can coincide.",
    files=["qopt/matrix.py"],
    mech=[("vectorization", "qopt/matrix.py: ket_vectorize_density_matrix, convert_ket_vectorized_density_matrix_to_square"), ("superoperator", "qopt/matrix.py: convert_unitary_to_super_operator")],
    observe="entries of the returned objects",
    note="exact polynomial identities over all entries")

P["C04"] = dict(
    title="Truncation to a subspace and mapping to the closest unitary",
    statement="Truncating an operator, ket or bra to an ordered list of states selects exactly those entries and leaves the original alone; without a list the original object is returned. When rescaling is requested, a truncated vector keeps its direction with norm one and a truncated matrix becomes the unitary factor of its polar decomposition.",
    over=["inputs"], q="all entries and every ordered index selection of up to 3 out of 4 states; polar factor for all 2x2 subspaces",
    why="Tests truncate one square matrix; vectors and rescaling are never exercised.",
    files=["qopt/matrix.py", "qopt/util.py"],
    mech=[("truncation", "qopt/matrix.py: DenseOperator.truncate_to_subspace"), ("closest unitary", "qopt/matrix.py: closest_unitary; qopt/util.py: closest_unitary")],
    observe="entries of the returned operator",
    note="the singular value decomposition is a pair of symbolic unitary factors")

P["C05"] = dict(
    title="Matrix exponentials and their directional derivatives are exact",
    statement="The exponential of an operator equals the requested Taylor polynomial, the library exponential, or the exponential of the spectrum, and the directional derivative returned for each method is the exact derivative of that function, for complex step sizes, degenerate spectra and non-normal matrices. Exponentials of skew-hermitian operators are unitary and compose additively. Argument and direction are left unchanged and unknown methods are rejected.",
    over=["inputs"], q="all matrices, directions and step sizes within the stated dimensions",
    why="Tests compare two numeric examples to tolerance, only with the default method for derivatives.",
    files=["qopt/matrix.py"],
    mech=[("matrix exponential", "qopt/matrix.py: DenseOperator.exp, _exp_diagonalize"), ("Frechet derivative", "qopt/matrix.py: DenseOperator.dexp, _dexp_diagonalization")],
    observe="entries of the exponential and of the derivative",
    note="Taylor methods are polynomial identities; spectral methods assume the eigensolver contract and use divided differences")

P["C06"] = dict(
    title="Propagators solve the piecewise constant Schroedinger equation",
    statement="For every pulse the solver's step propagators are the exponentials of -i times the step duration times the drift plus the amplitude weighted control Hamiltonians, with the drift given per step or once; forward propagators are their ordered products on the initial state and reversed propagators the products from the end. Amplitudes and step durations come from the transfer and amplitude function, and the operators, durations and parameters given by the caller stay unchanged. Parameters of the wrong shape are rejected and leave the solver with its previous pulse.",
    over=["inputs"], q="every hermitian operator, amplitude and positive duration for 1..3 steps and 1..2 controls",
    why="Tests use commuting or single qubit numeric examples; ordering and index errors that cancel there are invisible.",
    files=["qopt/solver_algorithms.py"],
    mech=[("propagators", "qopt/solver_algorithms.py: SchroedingerSolver._compute_propagation"), ("generators", "qopt/solver_algorithms.py: SchroedingerSolver._compute_dyn_gen"), ("forward and reversed products", "qopt/solver_algorithms.py: Solver._compute_forward_propagation, _compute_reversed_propagation")],
    observe="solver.propagators, forward_propagators, reversed_propagators",
    note="the matrix exponential is an uninterpreted function of its argument, so the argument itself is decided exactly")

P["C07"] = dict(
    title="Propagator derivatives are exact and indexed by control, then time",
    statement="The derivative propagators of the Schroedinger solver are, at position control then time, the exact derivative of that step propagator by that amplitude, whether computed eagerly or on demand, for every exponential method supporting derivatives. Composed with the forward and reversed propagators they give the derivative of the total propagator. The GRAPE option returns the documented first order approximation in the same order.",
    over=["inputs"], q="every hermitian operator, amplitude and duration for up to 3 steps and 3 controls",
    why="Finite difference tests use one numeric system with tolerance and one derivative method.",
    files=["qopt/solver_algorithms.py", "qopt/matrix.py"],
    mech=[("derivative computation", "qopt/solver_algorithms.py: SchroedingerSolver._compute_propagation_derivatives, _compute_propagation"), ("directions", "qopt/solver_algorithms.py: SchroedingerSolver._compute_derivative_directions")],
    observe="solver.frechet_deriv_propagators",
    note="the Frechet derivative is an uninterpreted linear map of the direction; Taylor methods are polynomial identities")

P["C08"] = dict(
    title="Monte Carlo solver propagates each noise trace exactly",
    statement="For every noise trace the Monte Carlo solver's noise propagators, forward and reversed products and derivatives are those of the noiseless Hamiltonian plus the sampled noise times its operator, scaled by the noise amplitude function when given, while the noiseless propagators ignore the noise. Traces are kept in order, equal for one or several processes, and the same sample multiplies the same operator and time step. Zero noise reproduces the noiseless solver.",
    over=["inputs"], q="every noise sample, operator, duration and amplitude for up to 3 traces, 2 noise operators and 3 steps",
    why="Tests draw a few random traces and check statistics, so swapped indices or signs stay unseen.",
    files=["qopt/solver_algorithms.py"],
    mech=[("noise propagation", "qopt/solver_algorithms.py: SchroedingerSMonteCarlo._compute_propagation"), ("noise derivatives", "qopt/solver_algorithms.py: SchroedingerSMonteCarlo._compute_propagation_derivatives"), ("parallel work", "qopt/solver_algorithms.py: SchroedingerSMonteCarlo._create_dyn_gens")],
    observe="solver.propagators_noise, forward_propagators_noise, reversed_propagators_noise, frechet_deriv_propagators_noise",
    note="noise samples are free symbolic values supplied by a trace generator; the process pool is replaced by an ordered map")

P["C09"] = dict(
    title="Control noise is added to the transferred optimization parameters",
    statement="The control noise Monte Carlo solver propagates, for every trace, the amplitude function evaluated at the transferred parameters plus the sampled control noise of the same control and time step. The noiseless propagators use the parameters without noise, and zero samples reproduce them.",
    over=["inputs"], q="every sample, parameter, operator and duration for up to 2 traces, 2 controls and 2 steps (3 thorough), arbitrary amplitude functions",
    why="Tests only run one scenario numerically.",
    files=["qopt/solver_algorithms.py"],
    mech=[("noise on controls", "qopt/solver_algorithms.py: SchroedingerSMCControlNoise._compute_dyn_gen_noise")],
    observe="solver.propagators_noise and solver.propagators",
    note="noise samples and amplitude functions are arbitrary; matrix exponential uninterpreted")

P["C10"] = dict(
    title="Lindblad solver implements the master equation and its derivative",
    statement="The generator of every step is the Liouvillian of the Hamiltonian plus the dissipator of each Lindblad operator, or the given superoperators, scaled by the amplitude dependent prefactors, acting on column stacked density matrices; it preserves trace and hermiticity. The derivative propagators are exact, including the derivative of the prefactors or superoperator function. Operators given by the caller are never changed, also when the solver is reused for other pulses, and the functions may do anything with the arrays they get.",
    over=["inputs", "histories"], q="every Hamiltonian, Lindblad operator, rate, duration and amplitude in dimension 2 with up to 2 dissipation channels",
    why="Tests compare few numeric decays in which conjugation, transposition or factor ordering errors cancel.",
    files=["qopt/solver_algorithms.py"],
    mech=[("dissipator", "qopt/solver_algorithms.py: LindbladSolver._calc_diss_sup_op"), ("dissipator derivative", "qopt/solver_algorithms.py: LindbladSolver._calc_diss_sup_op_deriv, _compute_derivative_directions"), ("generator", "qopt/solver_algorithms.py: LindbladSolver._compute_dyn_gen")],
    observe="solver.propagators, forward_propagators, frechet_deriv_propagators on the vectorized density matrix",
    note="generator and derivative directions decided exactly; exponential uninterpreted, its first order form used for trace and hermiticity")

P["C11"] = dict(
    title="Solver results depend only on the current pulse and times",
    statement="After any sequence of setting parameters, reading results, changing the times, rejected parameters, or the caller changing arrays it passed in or got back, every quantity a solver returns equals that of a fresh solver given the current pulse and times. Setting the same parameters again changes nothing and reading twice gives the same result. This holds for every solver, eager or lazy, with and without transfer functions.",
    over=["inputs", "histories"], q="all operation sequences up to the stated length with symbolic pulses",
    why="Caching errors need a particular order of reads and writes; the tests set parameters once and read once.",
    files=["qopt/solver_algorithms.py", "qopt/transfer_function.py"],
    mech=[("parameter setting and invalidation", "qopt/solver_algorithms.py: Solver.set_optimization_parameters"), ("lazy results", "qopt/solver_algorithms.py: Solver.propagators, forward_propagators, reversed_propagators, frechet_deriv_propagators"), ("times", "qopt/solver_algorithms.py: Solver.set_times")],
    observe="all result properties of the solver after each operation",
    note="every operation sequence of length 3 (4 thorough) is a path; pulses are free real variables")

P["C12"] = dict(
    title="Coherent fidelity costs equal their defining overlaps",
    statement="State, subspace state, gate and channel infidelities equal one minus the defining overlap of target and final propagator for every pulse, including truncation to a computational subspace, rescaling and mapping to the closest unitary. The superoperator and unitary formalisms agree on unitary evolutions, a perfect gate has fidelity one, and a global phase changes nothing. Evaluating a cost leaves the solver's results and the target as they were.",
    over=["inputs"], q="every propagator, state and target with free entries in the stated dimensions",
    why="Tests compare a few analytic gates; conjugation, transposition and index errors vanish for real or symmetric targets.",
    files=["qopt/cost_functions.py", "qopt/matrix.py"],
    mech=[("fidelities", "qopt/cost_functions.py: state_fidelity, state_fidelity_subspace, entanglement_fidelity, entanglement_fidelity_super_operator"), ("cost functions", "qopt/cost_functions.py: StateInfidelity, StateInfidelitySubspace, OperationInfidelity, OperatorMatrixNorm: costs")],
    observe="return value of costs() and of the fidelity functions",
    note="the propagator is an uninterpreted function of the generator with free entries, so identities hold for any final operator")

P["C13"] = dict(
    title="Noise averaged infidelities are means over the noise traces",
    statement="State, gate and Liouville Monte Carlo infidelities equal the mean over all noise traces of the infidelity of that trace's final propagator, compared with the target or, when systematic errors are neglected or no target is given, with the noiseless propagator. Truncation, rescaling and mapping to the closest unitary apply to both sides alike, and without noise only the systematic error remains. Evaluation leaves the solver's results and the target unchanged.",
    over=["inputs"], q="every noise sample, operator, amplitude and target for up to 3 traces (4 thorough)",
    why="Tests use random noise and compare to loose tolerances, so a wrong average or reference passes.",
    files=["qopt/cost_functions.py"],
    mech=[("noise averaged costs", "qopt/cost_functions.py: StateNoiseInfidelity, OperationNoiseInfidelity, LiouvilleMonteCarloEntanglementInfidelity: costs")],
    observe="return value of costs()",
    note="samples and operators are free variables; truncated cases use solvers with free final propagators")

P["C14"] = dict(
    title="Leakage costs equal the population outside the computational states",
    statement="Coherent and incoherent leakage equal one minus the mean population that stays in the computational states, and the Liouville leakage equals the mean population transferred to the other states, for unitaries, channels and averages over noise traces. For unitaries all formulations agree and lie between zero and one. Evaluation leaves the solver's results unchanged.",
    over=["inputs"], q="every propagator entry, dimension 2..4, every listed order of computational states, up to 3 traces",
    why="Tests use a single three level example with symmetric subspaces.",
    files=["qopt/cost_functions.py"],
    mech=[("leakage", "qopt/cost_functions.py: LeakageError, IncoherentLeakageError, LeakageLiouville: costs")],
    observe="return value of costs()",
    note="final propagators have free entries")

P["C15"] = dict(
    title="Cost gradients are the exact derivatives of the costs",
    statement="For every cost function with a gradient, entry [time, control] of grad() is the derivative of costs() by that control amplitude at that time step, including computational subspaces, rescaled states, superoperators, noise averages and neglected systematic errors. Costs without gradient raise NotImplementedError. Computing the gradient leaves the solver's results unchanged.",
    over=["inputs"], q="every propagator, derivative, state and target for up to 3 steps, 3 controls and 2 traces",
    why="Finite difference tests use one system per cost with loose tolerance and skip most options.",
    files=["qopt/cost_functions.py"],
    mech=[("gradients", "qopt/cost_functions.py: derivative_state_fidelity, derivative_state_fidelity_subspace, derivative_entanglement_fidelity_with_du, deriv_entanglement_fid_sup_op_with_du, LeakageError.grad, OperationNoiseInfidelity.grad")],
    observe="return value of grad() compared with the formal derivative of costs()",
    note="step propagators are arbitrary differentiable functions of their amplitudes; two known findings with map_to_closest_unitary are listed")

P["C17"] = dict(
    title="Transfer functions give the defined amplitudes and durations",
    statement="For every pulse a transfer function returns the repeated, padded, filtered or matrix transformed amplitudes it is defined by plus its offset, on time slices whose durations follow the oversampling and padding rules, also after the times are changed. The transfer matrix reproduces the call, and pulse and times of the caller stay unchanged. Pulses or times of the wrong shape or type, and missing times, are rejected.",
    over=["inputs", "histories"], q="every pulse, duration, matrix, offset, rise time and kernel; 1..3 slices (4 thorough), 1..2 controls, oversampling 1..3, every padding kind",
    why="Tests evaluate single numeric pulses for a few of the padding and oversampling combinations.",
    files=["qopt/transfer_function.py"],
    mech=[("durations and padding", "qopt/transfer_function.py: TransferFunction.set_times, num_padding_elements"), ("values", "qopt/transfer_function.py: OversamplingTF, OversamplingMTF, ExponentialMTF, CustomMTF, ConvolutionTF, GaussianConvolution"), ("matrices", "qopt/transfer_function.py: MatrixTF.transfer_matrix")],
    observe="tf(y), tf.x_times, tf.num_x, tf.transfer_matrix",
    note="exact identities; exponentials are uninterpreted positive functions; Gaussian kernels have fixed widths")

P["C18"] = dict(
    title="Transfer function gradients follow the chain rule",
    statement="gradient_chain_rule returns, at position time, function, control, the derivative of each function by the raw pulse, which is the transpose of the transfer function applied to the given gradient, including padding and boundary modes. The given gradient is left unchanged. Gradients of the wrong shape are rejected.",
    over=["inputs"], q="every gradient and every transfer function parameter; 1..3 slices (4 thorough), 1..2 controls, 1..2 functions",
    why="Tests compare a few numeric gradients and none for most padding and boundary modes.",
    files=["qopt/transfer_function.py"],
    mech=[("chain rule", "qopt/transfer_function.py: MatrixTF.gradient_chain_rule, OversamplingTF.gradient_chain_rule, ConvolutionTF.gradient_chain_rule, GaussianConvolution.gradient_chain_rule")],
    observe="return value of gradient_chain_rule",
    note="compared with the formal derivative of the transfer function's own values")

P["C19"] = dict(
    title="Concatenated and parallel transfer functions compose exactly",
    statement="Concatenation applies the first transfer function and then the second, parallel composition applies each to its own controls, with the durations, matrix, offsets and chain rule of that composition, to any nesting depth and for times set before or after composing and changed later. Incompatible parts are rejected.",
    over=["inputs", "histories"], q="every pulse, duration and parameter of 20 pairs and 8 nestings",
    why="Tests compose two oversampling functions with one numeric pulse; offsets, caches and asymmetric parts are not combined.",
    files=["qopt/transfer_function.py"],
    mech=[("concatenation", "qopt/transfer_function.py: ConcatenateTF, ConcatenateMTF"), ("parallel composition", "qopt/transfer_function.py: ParallelTF, ParallelMTF")],
    observe="values, x_times, transfer_matrix and gradient_chain_rule of the composition",
    note="exact identities against independently composed reference functions")

P["C20"] = dict(
    title="Amplitude functions and their chain rule",
    statement="Amplitude functions map every row of optimization parameters to control amplitudes by the supplied function, elementwise for the unary kind and unchanged for the identity. derivative_by_chain_rule returns, at position time, function, parameter, the derivative of each function by the raw parameter. Inputs and the given derivative stay unchanged.",
    over=["inputs"], q="every amplitude, gradient and differentiable amplitude function; 1..3 (4 thorough) slices, 1..3 controls and functions",
    why="Tests use one numeric function and rely on floating point inputs.",
    files=["qopt/amplitude_functions.py"],
    mech=[("amplitude functions", "qopt/amplitude_functions.py: UnaryAnalyticAmpFunc, CustomAmpFunc, IdentityAmpFunc")],
    observe="values and derivative_by_chain_rule of each amplitude function",
    note="value functions are uninterpreted functions with derivatives, or piecewise linear")

P["C21"] = dict(
    title="The simulator returns the stacked costs and their exact gradient",
    statement="For every pulse the simulator returns the costs of all cost functions in their order, named by cost_indices, and a Jacobian whose entry [time, cost, control] is their derivative by the raw pulse, through transfer and amplitude functions and with several solvers, whatever was evaluated before. The difference quotient gradient and the comparison report follow their definition. Pulses stay unchanged and the recorded times have one entry per evaluation and cost function; recording them does not change costs and gradients, and check() rejects a pulse that does not fit the times.",
    over=["inputs", "histories"], q="every pulse, operator, duration, weight and step size; up to 2 solvers, 3 cost functions, 2 steps, 2 controls",
    why="Tests run single configurations of one solver with fixed numbers.",
    files=["qopt/simulator.py", "qopt/performance_statistics.py", "qopt/solver_algorithms.py", "qopt/transfer_function.py"],
    mech=[("costs", "qopt/simulator.py: Simulator.wrapped_cost_functions"), ("gradient", "qopt/simulator.py: Simulator.wrapped_jac_function"), ("difference quotient", "qopt/simulator.py: Simulator.numeric_gradient, compare_numeric_to_analytic_gradient")],
    observe="return values of the simulator methods and its statistics",
    note="cost functions are linear functionals of the propagator with free weights, or a state infidelity")

P["C22"] = dict(
    title="Optimizers hand ordered costs, gradients and limits to the algorithm",
    statement="The optimization algorithm receives the initial pulse flattened control by control, and its functions return for every flat vector the weighted costs (their sum for scalar minimizers) of the corresponding pulse and their exact gradient in the same order. Bounds, tolerances and iteration limits are passed on, and no analytic gradient is used when it is switched off. The initial pulse is left unchanged.",
    over=["inputs", "schedules"], q="every pulse, weight, tolerance and differentiable cost function; up to 3 (4 thorough) steps, 3 controls, 3 costs; evaluations in any order",
    why="Tests run few optimizations with symmetric shapes and mostly without weights, where a wrong order converges as well.",
    files=["qopt/optimize.py"],
    mech=[("costs and gradients", "qopt/optimize.py: Optimizer.cost_func_wrapper, cost_jacobian_wrapper, ScalarMinimizingOptimizer"), ("calls of scipy", "qopt/optimize.py: LeastSquaresOptimizer.run_optimization, ScalarMinimizingOptimizer.run_optimization")],
    observe="arguments given to scipy.optimize and values of the given functions",
    note="scipy's algorithms are replaced by an arbitrary sequence of evaluations")

P["C23"] = dict(
    title="Optimizations record every evaluation and return the final state",
    statement="The optimization summary holds, in order, the unweighted costs, pulses and gradients of every evaluation, whatever the algorithm does with its arrays afterwards. The result holds the parameters, cost, gradient norm, status and reason the algorithm ended with; summary, statistics and optimizer are stored only on request. A further run starts afresh and leaves earlier results untouched.",
    over=["inputs", "schedules", "histories"], q="every pulse, cost, weight and result; 2..3 (4 thorough) evaluations in any order, two runs, every optimizer",
    why="Tests look at final numbers; a record that is a view or is scaled later needs several evaluations with weights.",
    files=["qopt/optimize.py", "qopt/optimization_data.py", "qopt/performance_statistics.py"],
    mech=[("summary", "qopt/optimize.py: Optimizer.cost_func_wrapper, cost_jacobian_wrapper, prepare_optimization"), ("result", "qopt/optimize.py: run_optimization of the optimizers")],
    observe="OptimizationResult, OptimizationSummary and PerformanceStatistics after run_optimization",
    note="scipy's algorithms are replaced by an arbitrary sequence of evaluations that reuses its array")

P["C24"] = dict(
    title="Wall time limit returns the best result, conditions are not shared",
    statement="An optimization stops at the first evaluation after its maximum wall time and not before, and then returns costs and pulse of one evaluation that no other evaluation beats in norm, with status 5, the number of evaluations and the gradient norm of that pulse; a later run has its own time. Termination conditions given to one optimizer change neither other optimizers nor the defaults.",
    over=["inputs", "schedules", "histories"], q="every limit, sequence of clock readings, pulse, cost and weight; up to 3 (4 thorough) evaluations, two runs, every optimizer",
    why="Tests never exceed the wall time and never create two optimizers with different conditions.",
    files=["qopt/optimize.py"],
    mech=[("limit", "qopt/optimize.py: Optimizer.cost_func_wrapper, write_state_to_result"), ("conditions", "qopt/optimize.py: Optimizer.__init__, default_termination_conditions, SimulatedAnnealing.__init__")],
    observe="OptimizationResult and termination_conditions",
    note="the clock is a symbolic monotonic sequence; two defects found here were repaired")

P["C25"] = dict(
    title="Simulated annealing moves stay within bounds and integer steps",
    statement="A move changes each masked-in entry of the pulse by a random integer of at most step_size, clipped to its limits, keeps the other entries and the previous pulse array, and every such integer is possible. Step sizes that are no nonzero integer are rejected, and the annealer receives the given temperatures, steps, updates and step ratio. The energy is the norm of the costs of the current pulse, and the result holds the pulse and cost the annealer returned.",
    over=["inputs", "schedules"], q="every pulse, limit, step ratio, random draw and cost; up to 3 entries, step sizes 1..2 (3 thorough), 2 (3 thorough) moves",
    why="No test runs the annealer with limits that are reached, and random moves hide an off by one.",
    files=["qopt/optimize.py"],
    mech=[("moves", "qopt/optimize.py: PulseAnnealer.move, energy"), ("result", "qopt/optimize.py: SimulatedAnnealing.run_optimization, prepare_optimization")],
    observe="PulseAnnealer.state, energy() and the optimization result",
    note="simanneal's loop is replaced by an arbitrary sequence of moves; initial pulses lie within their limits")

P["C26"] = dict(
    title="Results survive storing, copying and analysis",
    statement="Dictionaries of results, appended, deep copied, pickled and reloaded data containers keep every value, and copies are independent of the original; results of other cost functions are rejected without effect. The analyser names a run with the smallest squared sum of final costs, gives the root of the squared sum of costs for each iteration (NaN after the end of a run), and sums durations and their shares as defined.",
    over=["inputs", "histories"], q="every stored value and time; up to 3 runs of up to 3 (4 thorough) iterations with up to 2 (3 thorough) costs",
    why="Tests store one result and check few fields.",
    files=["qopt/data_container.py", "qopt/optimization_data.py", "qopt/analyser.py", "qopt/performance_statistics.py"],
    mech=[("storage", "qopt/data_container.py: DataContainer.append_optim_result, __deepcopy__, to_pickle, from_pickle"), ("dictionaries", "qopt/optimization_data.py: OptimizationResult.to_dict, from_dict"), ("analysis", "qopt/analyser.py: Analyser.n_least_square, absolute_costs, opt_times, time_share_cost_fkt")],
    observe="fields of restored objects and return values of the analyser",
    note="in the symbolic run a deep copy stands for writing and reading the pickle file")

P["C27"] = dict(
    title="Quasi static noise samples the requested normal distribution",
    statement="Sampled quasi static traces are constant in time. Deterministic sampling varies one operator at a time, in samples separated by equal probability of the normal distribution and, when corrected, with exactly the requested standard deviation; Monte Carlo samples are independent normal draws with it. Samples are kept or redrawn as requested, the caller's deviations stay unchanged, and impossible requests are rejected.",
    over=["inputs", "histories"], q="every deviation, mean and random draw; up to 3 operators, 4 (6 thorough) traces, 3 samples per trace",
    why="Tests compare a large sample of one operator roughly with its deviation.",
    files=["qopt/noise.py"],
    mech=[("samples", "qopt/noise.py: NTGQuasiStatic._sample_noise, noise_samples"), ("distribution", "qopt/noise.py: sample_1dim_gaussian_distribution, inverse_cumulative_gaussian_distribution_function, bell_curve_1dim, bell_curve_2dim")],
    observe="noise_samples and the sampling functions",
    note="five defects found here were repaired; the error function is uninterpreted with its inverse")

P["C28"] = dict(
    title="Colored noise has the requested spectral density",
    statement="Traces of colored noise are linear in their white noise draws, and over all draws each trace has exactly the autocovariance that the requested spectral density has on the frequencies of the trace, extended to low frequencies if requested. Different traces and operators are independent, drawing them never evaluates the density at frequency zero, samples are redrawn only on request, and incomplete requests are rejected. The averaged periodogram shown for a generator has the requested density as its mean, and the deviation returned is the norm of the difference of the curves shown.",
    over=["inputs", "schedules"], q="every positive density, sample distance and draw; up to 8 (12 thorough) samples, 2 operators, 2 traces, extension up to 3",
    why="Tests compare a periodogram of one long even sample with wide tolerance.",
    files=["qopt/noise.py"],
    mech=[("spectrum", "qopt/noise.py: fast_colored_noise"), ("traces", "qopt/noise.py: NTGColoredNoise._sample_noise")],
    observe="fast_colored_noise and noise_samples",
    note="the density is an uninterpreted positive function and the Fourier transform its definition")

P["C16"] = dict(
    title="Filter functions receive the physical pulse, noise and frequencies",
    statement="A pulse sequence created for the filter functions holds the solver's durations, control operators with their amplitudes, noise operators with their susceptibilities and the decomposition of the total Hamiltonian including the drift, for the current parameters and however often it was created before, without anything cached for another pulse; the Bloch sphere shows this pulse sequence. The filter function cost hands it over with spectrum, frequencies and identifiers in matching order, and returns its infidelity and gradient with axes time, noise, control.",
    over=["inputs", "histories"], q="every Hamiltonian, amplitude, duration, susceptibility, spectrum; up to 2 (3 thorough) steps, 12 controls, 3 noise operators; sequences of evaluations for several pulses",
    why="No stable test evaluates filter functions, and their operators are sorted by identifier, which shows only with unsorted names or more than ten controls.",
    files=["qopt/solver_algorithms.py", "qopt/cost_functions.py"],
    mech=[("pulse", "qopt/solver_algorithms.py: Solver.create_pulse_sequence, create_ff_h_n, _diagonalize_and_propagate_pulse_sequence"), ("cost", "qopt/cost_functions.py: OperatorFilterFunctionInfidelity")],
    observe="PulseSequence, arguments given to filter_functions, return values of costs and grad",
    note="the filter_functions package is replaced by its interface; a defect found here was repaired")

P["C30"] = dict(
    title="Parallel optimization equals one optimization per initial pulse",
    statement="Optimizing several initial pulses in parallel runs exactly one optimization for each pulse, whatever the schedule of the worker processes and however tasks are pickled together. The returned container holds final parameters, costs and the recorded evaluations of each run in the order of the initial pulses, and each run starts from the state of the given optimizer. Initial pulses, optimizer and simulator of the caller stay unchanged, and the requested number of processes is used.",
    over=["inputs", "schedules", "histories"], q="every pulse, cost and weight; up to 3 (4 thorough) pulses, every completion order, tasks pickled alone or together",
    why="No test runs optimizations in parallel, and the schedule of worker processes is not under a test's control.",
    files=["qopt/parallel.py", "qopt/data_container.py", "qopt/optimize.py"],
    mech=[("tasks", "qopt/parallel.py: run_optimization_parallel, run_optimization"), ("collection", "qopt/data_container.py: DataContainer.append_optim_result")],
    observe="DataContainer returned by run_optimization_parallel",
    note="multiprocessing.Pool is replaced by tasks on copied arguments in any order")

P["C29"] = dict(
    title="Plots show the data they are made from",
    statement="The plotting functions hand matplotlib exactly the data: plot_costs one curve per cost function of the chosen run, with its label and one value per iteration; plot_absolute_costs one curve per run with the root of the squared sum; plot_energy_spectrum one set of points per level with the eigenvalues of every Hamiltonian over its x value; plot_pulse the parameters and the control amplitudes at the centers of their time steps, for a concatenation those of its second part; plot_bloch_vector_evolution (qutip) the Bloch vectors of the propagated state, and only of one qubit. vector_color_map mixes the basis colors by the weights of each vector, at full brightness. Given axes are used, and the arguments stay unchanged.",
    over=["inputs"], q="every cost, eigenvalue, eigenvector, pulse and step duration; up to 3 runs, 3 Hamiltonians, 3 steps, 2 controls",
    why="Nothing in the test suite plots.",
    files=["qopt/analyser.py", "qopt/energy_spectrum.py", "qopt/transfer_function.py", "qopt/plotting.py"],
    mech=[("costs", "qopt/analyser.py: Analyser.plot_costs, plot_absolute_costs"), ("spectrum", "qopt/energy_spectrum.py: plot_energy_spectrum, vector_color_map"), ("pulse", "qopt/transfer_function.py: TransferFunction.plot_pulse"), ("Bloch vectors", "qopt/plotting.py: plot_bloch_vector_evolution")],
    observe="data handed to plot, scatter, bar and add_points",
    note="matplotlib and qutip are replaced by recorders; a defect found here was repaired")

P["C31"] = dict(
    title="Rotation axis and angle and gate fidelity describe the unitary",
    statement="For every 2x2 unitary the angle axis representation returns the angle between 0 and pi and a unit axis that reproduce the unitary up to a global phase, without changing its argument, and a matrix that is not unitary is rejected. The average gate fidelity of two such unitaries follows from the squared trace of their overlap, the operators used for it form a unitary basis, and its derivative is exact for propagators with any derivative that keeps them unitary.",
    over=["inputs"], q="every 2x2 unitary with any global phase (no rotation or more than 0.02 rad), every matrix with a scaled row, every derivative of up to 2 steps",
    why="Tests do not call these functions; signs, phases and special axes need all unitaries.",
    files=["qopt/cost_functions.py"],
    mech=[("representation", "qopt/cost_functions.py: angle_axis_representation"), ("fidelity", "qopt/cost_functions.py: averge_gate_fidelity, default_set_orthorgonal, derivative_average_gate_fid_with_du")],
    observe="return values and ValueError",
    note="a missing unitarity check found here was repaired")
