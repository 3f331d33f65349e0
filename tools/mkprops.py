"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))
S='qopt/solver_algorithms.py'; M='qopt/matrix.py'; T='qopt/transfer_function.py'; A='qopt/amplitude_functions.py'
C='qopt/cost_functions.py'; N='qopt/noise.py'; O='qopt/optimize.py'; SIM='qopt/simulator.py'
OD='qopt/optimization_data.py'; DC='qopt/data_container.py'; AN='qopt/analyser.py'; PA='qopt/parallel.py'; PS='qopt/performance_statistics.py'

prop('Q01','A solver answers for its current settings, whatever happened before',
 'After any sequence of parameter updates, time-grid changes, rejected (raising) updates and queries in any order, every quantity a solver reports (slice propagators, forward and reverse accumulated propagation, propagator derivatives, the same per noise trace, pulse description) equals what a newly built solver reports for the same current settings. Re-submitting equal parameters changes nothing; an update that raises never causes a later accepted update, or a repetition of a value, to report results that belong to other parameters.',
 ['histories','fault_sequences'],'all interleavings of update / re-grid / rejected update / query / explicit reset, for the closed-system, Monte Carlo, control-noise and master-equation solvers, with identity and with stateful pulse shaping',
 'Tests build a solver, query once and drop it; none re-uses a solver across two parameter sets and compares with a fresh one, and none continues after an exception.',
 [S,T],[('cached propagation','propagators, accumulated products, derivatives, generators, pulse description held lazily',S+':Solver.reset_cached_propagators'),('current parameters','last accepted optimisation parameters and the amplitudes derived from them',S+':Solver.set_optimization_parameters')],
 [('lazy evaluation with whole-cache reset',S+':Solver.propagators'),('early return on equal parameters',S+':Solver.set_optimization_parameters'),('time-grid change',S+':Solver.set_times'),('transfer matrix cache',T+':MatrixTF.transfer_matrix')],
 ['solver properties propagators, forward_propagators, reversed_propagators, frechet_deriv_propagators and their per-noise-trace counterparts','create_pulse_sequence'])
prop('Q02','Closed-system evolution is the time-ordered product of exact slice exponentials',
 'For every piecewise-constant control, the propagator of slice t is the exponential of -i times its duration times (drift of slice t plus the sum of control amplitudes times control Hamiltonians), for every exact exponentiation method. The k-th accumulated forward result is slices 1..k in time order applied to the initial state, the k-th reverse result is the product of the last k slices, so reverse(n-k) times forward(k) is the same total for every k, and all closed-system propagators are unitary.',
 ['inputs','configurations'],'all dimensions, slice counts, unequal durations, negative or zero amplitudes, constant or per-slice drift, any number of controls, initial states (identity, operator, ket) and exponentiation methods',
 'One two-level, four-slice example with equal unit durations and one method is tested.',
 [S,M],[('slice propagators','one matrix per transferred time step',S+':Solver.propagators')],
 [('generator assembly',S+':SchroedingerSolver._compute_dyn_gen'),('slice exponentials',S+':SchroedingerSolver._compute_propagation'),('accumulated products',S+':Solver._compute_forward_propagation')],
 ['propagators','forward_propagators','reversed_propagators'])
prop('Q03','Every noise realisation is solved as its own deterministic evolution',
 'A Monte Carlo solver returns, in trace order, exactly the evolution of the control problem with that trace\'s noise values added slice by slice to the named noise operators (after the noise amplitude function, or through the amplitude function for noise on the controls); the noiseless evolution is reported alongside unchanged. The result does not depend on the number of worker processes, zero noise reproduces the noiseless evolution on every trace, and all quantities of one evaluation refer to the same drawn noise.',
 ['inputs','configurations','schedules'],'all trace counts, operator counts, slice counts and noise values; serial and parallel execution; fixed and redrawn samples; with and without a noise amplitude function',
 'One trace with one operator and one non-zero sample is tested; no test uses several traces with distinct values per operator, or more than one process.',
 [S,N],[('noise samples','values per operator, trace and slice',N+':NoiseTraceGenerator.noise_samples')],
 [('per-trace generators',S+':SchroedingerSMonteCarlo._compute_dyn_gen_noise'),('parallel exponentials',S+':_compute_matrix_exponentials'),('noise on controls',S+':SchroedingerSMCControlNoise')],
 ['propagators_noise','forward_propagators_noise','reversed_propagators_noise','frechet_deriv_propagators_noise'])
prop('Q04','Master-equation propagation implements the Lindblad generator',
 'The master-equation solver propagates vectorised density matrices with the generator built from the commutator with the Hamiltonian plus the (prefactor-weighted, time-dependent) sum of all dissipators; a generator function takes precedence over jump operators, which take precedence over given dissipation super-operators. Consequently evolution from jump operators with non-negative prefactors preserves trace, Hermiticity and positivity, and without dissipation equals the closed-system evolution of the density matrix.',
 ['inputs','configurations'],'all dimensions, Hamiltonians, sets of several jump operators, prefactor functions of amplitudes and transferred parameters, all three ways to specify dissipation and their combinations',
 'Tests cover zero dissipation and one jump operator, on one qubit, comparing against the same formula.',
 [S],[('dissipation super-operator','one matrix per time step',S+':LindbladSolver._calc_diss_sup_op')],
 [('dissipator assembly',S+':LindbladSolver._calc_diss_sup_op'),('super-operator generator',S+':LindbladSolver._compute_dyn_gen')],
 ['propagators and forward_propagators of the master-equation solver'])
prop('Q05','Analytic gradients are the derivatives of the reported costs',
 'Whenever a cost function offers a gradient, the value reported for time step x, and parameter y is the partial derivative of the corresponding reported cost with respect to exactly that optimisation parameter, through cost, evolution, amplitude function and pulse shaping. This holds for slice derivatives of the evolution as well (indexed by control, then time), for every exponentiation method with an exact derivative, and for the gradient assembled by the simulator from several cost functions.',
 ['inputs','configurations'],'all costs with gradients x closed-system / Monte Carlo / master-equation evolutions x pulse shapings x amplitude functions x initial states and targets, away from points where the cost is not differentiable',
 'Gradient tests use the two Rabi-driving examples and one T1 example with loose tolerances on a norm, not per entry, and a single cost each.',
 [C,S,M,T,A,SIM],[('propagator derivatives','one matrix per control and slice (and trace)',S+':Solver.frechet_deriv_propagators')],
 [('cost gradients',C+':CostFunction.grad'),('chain rule through amplitude and pulse shaping',SIM+':Simulator.wrapped_jac_function'),('matrix exponential derivative',M+':DenseOperator.dexp')],
 ['CostFunction.grad()','Simulator.wrapped_jac_function','frechet_deriv_propagators'])
prop('Q06','Pulse shaping maps parameters to the documented pulse on the documented grid',
 'For every shaping stage the number of output samples equals the number of reported output time steps and padding counts, the output durations are the input durations subdivided by the oversampling factor with the documented padding before and after, and set again from scratch on every re-grid. The output values are those documented: repetition for oversampling, exponential settling towards each new value, the given transfer matrix, the discrete convolution, with offset added and padding holding the offset (idle) value.',
 ['inputs','histories','configurations'],'all parameter arrays, grids (also unequal durations where supported), oversampling factors, padding kinds and widths, offsets, control counts, and repeated re-gridding of one object',
 'Tests check a handful of fixed sizes with one control and equal durations and never re-grid an object.',
 [T],[('time grids','durations before and after shaping',T+':TransferFunction.set_times')],
 [('grid construction and padding',T+':TransferFunction.set_times'),('oversampling',T+':OversamplingTF.__call__'),('matrix stages',T+':MatrixTF.__call__'),('exponential response',T+':ExponentialMTF._calculate_transfer_matrix')],
 ['calling the stage','x_times','num_x','num_padding_elements','transfer_matrix'])
prop('Q07','Shaping stages compose, run in parallel and back-propagate consistently',
 'Every shaping stage is affine in the parameters and its gradient back-propagation is the transpose of its linear part, for every cost column and control. Concatenating two stages equals applying them one after the other (values, time grid and gradient), and running two stages in parallel applies each to its own block of controls, in matrix form and in functional form alike; an amplitude function and its derivative obey the same chain rule pointwise in time.',
 ['inputs','programs','configurations'],'all stages and nested combinations of stages, all grids, control counts and gradient arrays',
 'Tests check two concatenations (one only for shapes) and two parallel pairs; back-propagation is only compared for a quadratic cost, with a tolerance that cannot fail for the convolution stages.',
 [T,A],[('stage tree','stages nested by concatenation and parallel composition',T+':ConcatenateTF')],
 [('back-propagation',T+':TransferFunction.gradient_chain_rule'),('concatenation',T+':ConcatenateTF'),('parallel',T+':ParallelTF'),('amplitude chain rule',A+':AmplitudeFunction.derivative_by_chain_rule')],
 ['calling the stage','gradient_chain_rule','derivative_by_chain_rule','x_times'])
prop('Q08','Operator algebra is exact and only explicit in-place operations modify operands',
 'Sums, differences, products, scalar products and quotients, adjoint, conjugate, transpose, trace, partial trace, Kronecker product, truncation to a subspace, (un)vectorisation and conversion to super-operators return the matrices defined by linear algebra, in every dimension. No such operation changes any existing operator or array except the left operand of an augmented assignment or the receiver of an explicitly in-place call (with the array it wraps), and a copy is independent of its original.',
 ['programs','inputs'],'all programs over a set of operators and arrays mixing in-place, pure and copying operations, including an operator combined with itself; all complex matrices incl. kets and bras, all subsystem dimensions and removed-subsystem sets',
 'Tests check one or two 2x2 examples per operation and never check that operands are unchanged.',
 [M],[('operator data','complex matrix owned by each operator',M+':DenseOperator')],
 [('arithmetics',M+':DenseOperator.__mul__'),('copy flags',M+':DenseOperator.dag'),('partial trace',M+':DenseOperator.ptrace'),('vectorisation',M+':ket_vectorize_density_matrix')],
 ['every public operator method and module function'])
prop('Q09','Reported costs are the documented fidelity measures',
 'Each infidelity reports one minus the documented fidelity of the current evolution with its target: zero exactly when the target is reached, within [0, 1] for physical evolutions, unchanged by a global phase of the evolution or target, and restricted to the computational subspace when one is given. Super-operator and operator forms agree on unitary evolution, noise costs average over all traces with equal weight (optionally relative to the noiseless evolution), and leakage measures the population leaving the computational subspace.',
 ['inputs','configurations'],'all dimensions, targets, evolutions, computational subspaces, trace counts and option combinations of every cost function',
 'Tests check single matrices for three of the measures; noise averaging, subspace and leakage options are not compared with an independent definition.',
 [C],[('cost inputs','final forward propagation, target, subspace',C+':CostFunction')],
 [('entanglement fidelity',C+':entanglement_fidelity'),('super-operator fidelity',C+':entanglement_fidelity_super_operator'),('state fidelity',C+':state_fidelity'),('noise average',C+':OperationNoiseInfidelity.costs'),('leakage',C+':LeakageError.costs')],
 ['CostFunction.costs()','fidelity functions'])
prop('Q10','Noise generators deliver the requested traces and redraw only when told to',
 'A noise generator delivers an array with one entry per operator, trace and time step, where quasi-static noise is constant along each trace and deterministic quasi-static sampling varies one operator at a time over equal-probability points with the others at zero. Requested standard deviations are honoured per operator, given samples are returned unchanged, fixed samples stay identical over any number of reads, and redrawing generators deliver new samples on each read.',
 ['inputs','histories','configurations'],'all operator counts, trace counts, trace lengths, standard deviations, sampling modes and read sequences',
 'Tests check shapes implicitly, one operator only, and a one-sided standard-deviation inequality.',
 [N],[('cached samples','last drawn sample array',N+':NoiseTraceGenerator.noise_samples')],
 [('quasi-static sampling',N+':NTGQuasiStatic._sample_noise'),('coloured sampling',N+':NTGColoredNoise._sample_noise'),('equal-probability points',N+':sample_1dim_gaussian_distribution')],
 ['noise_samples','n_traces','n_samples_per_trace','n_noise_operators'])
prop('Q11','An optimiser reports what it evaluated, and stops when told to',
 'Whatever the simulator returns and whenever the run ends (convergence, iteration limit, wall time), the result\'s final parameters are parameters that were evaluated, in their original two-dimensional shape, and the final costs are those the simulator reported for them (their sum for a scalar minimiser; weights applied at most once); after an early stop they belong to the evaluation with the smallest costs (Euclidean norm, unweighted) so far. The result also holds the parameters the run began with. The recorded history lists the unweighted costs, parameters and gradients of the evaluations in order, the weights enter the minimised objective and its gradient exactly once, bounds are respected, and runs and optimisers do not influence one another\'s settings or results.',
 ['histories','inputs','fault_sequences'],'all cost landscapes, weights, parameter shapes, termination settings, wall-time expiry at any evaluation, repeated runs of one optimiser and several optimisers in one process',
 'Tests run three optimisations to convergence on one problem and look only at the final cost.',
 [O,OD],[('best so far','smallest costs and their parameters',O+':Optimizer._min_costs'),('iteration history','costs, parameters, gradients per evaluation',OD+':OptimizationSummary')],
 [('cost wrapper',O+':Optimizer.cost_func_wrapper'),('early stop',O+':Optimizer.write_state_to_result'),('minimisation',O+':ScalarMinimizingOptimizer.run_optimization')],
 ['OptimizationResult returned by run_optimization','calls made to the simulator'])
prop('Q12','Parallel multi-start optimisation equals running each start separately',
 'Running many initial pulses with any number of worker processes yields one result per initial pulse, in the order of the initial pulses, each equal to the result of optimising that pulse alone with a fresh optimiser. The starting points and the optimiser passed in are left unchanged by the call, and runs do not see state (costs, counters, random numbers) left behind by other runs.',
 ['schedules','inputs'],'all numbers of starts and processes, all orders of completion',
 'No test runs the parallel module.',
 [PA],[('work list','optimiser and initial pulse per start',PA+':run_optimization_parallel')],
 [('worker pool',PA+':run_optimization_parallel')],
 ['returned data container / list of results'])
prop('Q13','Optimisation data survives storage, and containers keep order and content',
 'Converting an optimisation result or data container to its stored form and back, pickling or copying it yields an equal object with every field; changes made to a pickled or (deep) copied object never show in the original. A container lists results in the order they were appended with the final costs, final parameters, status, iterations, initial parameters and statistics of run i at position i in every accessor, and the analysis tools select the run with the lowest final cost, give the costs of every iteration in order, handle runs of different length or without history, and compute the times and totals from the recorded statistics.',
 ['histories','inputs'],'all result contents, container histories (append, store, load, copy) and run lengths',
 'No stable test stores, loads, copies or analyses data.',
 [OD,DC,AN],[('container content','list of results and summaries',DC+':DataContainer')],
 [('conversion',OD+':OptimizationResult.to_dict'),('storage',DC+':DataContainer.to_pickle'),('analysis',AN+':Analyser')],
 ['to_dict / from_dict','to_pickle / from_pickle','Analyser methods'])
prop('Q14','The simulator evaluates every cost function on the submitted pulse, in order',
 'One evaluation passes the given pulse to every solver and returns the concatenation of all costs in the order of the cost functions, aligned with the cost labels, and likewise stacks gradients along the cost axis; the result depends only on the pulse given. With statistics enabled every evaluation is recorded exactly once per cost function, and statistics never change results.',
 ['histories','configurations'],'all lists of solvers and of scalar- and vector-valued cost functions, pulses, and alternations of cost, gradient and numeric-gradient evaluations',
 'Tests use the simulator with one solver and at most two scalar costs.',
 [SIM,PS],[('cost list','ordered cost functions with labels',SIM+':Simulator.cost_funcs'),('statistics','durations per evaluation',PS+':PerformanceStatistics')],
 [('cost assembly',SIM+':Simulator.wrapped_cost_functions'),('gradient assembly',SIM+':Simulator.wrapped_jac_function')],
 ['Simulator.wrapped_cost_functions','Simulator.wrapped_jac_function','Simulator.stats'])
prop('Q15','Filter-function costs describe the pulse currently set',
 'The pulse description handed to the filter-function formalism always has the current control amplitudes, durations, control and noise Hamiltonians (with noise susceptibilities computed from the current parameters) and the drift in its evolution, so its total propagator equals the solver\'s. The filter-function infidelity computed from it equals that of a description built from scratch for the same pulse, per noise operator and in their order, and so does its gradient, which is the derivative of the infidelity by the control amplitudes wherever the filter-function formalism gives it exactly (traceless controls, non-degenerate step Hamiltonians).',
 ['histories','inputs'],'all pulses, drifts, noise Hamiltonians (constant or computed), bases, spectra and sequences of pulse updates on one solver',
 'No stable test evaluates a filter-function cost.',
 [S,C],[('pulse description','filter-function pulse sequence object',S+':Solver.create_pulse_sequence')],
 [('creation / update',S+':Solver.create_pulse_sequence'),('cost',C+':OperatorFilterFunctionInfidelity')],
 ['create_pulse_sequence','OperatorFilterFunctionInfidelity.costs / grad'])
prop('Q16','Caller-owned objects are never modified, and later edits do not leak in',
 'Building and using solvers, cost functions, shaping stages, noise generators, simulators, optimisers and data containers never changes operators, arrays, lists or dictionaries the caller passed in, so the same objects can be shared between several of them with the results of separate copies. Editing a parameter array after a solver or simulator accepted it changes neither answers already computed nor those computed later for the accepted parameters.',
 ['histories','programs'],'all public constructors and calls, all sharing patterns of Hamiltonians, dissipators, noise settings and parameter arrays between objects, and edits by the caller between calls',
 'Tests do not compare inputs before and after, nor share inputs between objects.',
 [S,M,T,N,O,C],[('caller objects','operators, arrays, lists and dictionaries passed to constructors and calls','all public entry points')],
 [('generator assembly without aliasing',S+':SchroedingerSolver._compute_dyn_gen'),('parameter copy',S+':Solver.set_optimization_parameters'),('noise settings',N+':NTGQuasiStatic._sample_noise')],
 ['caller-held objects before and after','answers of objects sharing inputs'])
prop('Q17','All exponential methods agree with the matrix exponential and its derivative',
 'For every generator on which a method is valid, the exponential returned by each method equals the matrix exponential of the scaled generator, and every exact derivative method returns its directional derivative for any direction, also for degenerate and non-Hermitian generators where allowed; the finite-order methods return the documented truncated series and its derivative. For the exact methods, requesting exponential and derivative together gives the same values as requesting them separately, and neither the generator nor the direction is changed.',
 ['inputs','configurations'],'all generators, directions, complex scalings, dimensions and methods',
 'One commuting 2x2 example is tested, for which wrong basis changes cancel.',
 [M],[('method table','names of exponentiation methods',M+':VALID_HERMITICITY_ASSUMPTIONS or method switch in DenseOperator.exp')],
 [('exponential',M+':DenseOperator.exp'),('derivative',M+':DenseOperator.dexp')],
 ['DenseOperator.exp','DenseOperator.dexp','DenseOperator.prop'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
