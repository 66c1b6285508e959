"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, S, T, A, C = ('qopt/matrix.py', 'qopt/solver_algorithms.py',
                 'qopt/transfer_function.py', 'qopt/amplitude_functions.py',
                 'qopt/cost_functions.py')
O, N = 'qopt/optimize.py', 'qopt/noise.py'

# id, title, statement, over, quantifier text, why tests cannot, files,
# mechanisms [(name, where)], technique, level note
P = [
 ('C01', 'Operator arithmetic is matrix algebra and leaves operands untouched',
  'Sums, differences, products (with operators, arrays and numbers), '
  'quotients, adjoint, conjugate, transpose, trace, Kronecker product, norms '
  'and element access of operators give what complex matrix algebra gives. '
  'Operations which are not in-place return new operators and never change '
  'any operand or argument, not even later through shared memory; in-place '
  'operations change exactly the left operand. Operands of unsupported '
  'types are refused.',
  ['inputs', 'histories'],
  'every sequence of operations on a pool of operators of any shape, data '
  'type and construction',
  'tests apply a few operations once to fixed matrices; aliasing and '
  'mutation need a history and a look at all the other live operators',
  [M], [('operator overloads', M + ':DenseOperator'),
        ('constructor conversions', M + ':DenseOperator.__init__')],
  'shadow-state monitor: every operation of a random history is mirrored on '
  'numpy arrays, the whole operator pool is compared after each step',
  'numpy is trusted'),
 ('C02', 'Matrix exponentials are correct for every method and matrix',
  'The exponential of tau times a matrix agrees with the power series of the '
  'matrix exponential to numerical accuracy for every exact method '
  '(including complex tau, degenerate, zero and non-normal diagonalizable '
  'matrices), and the first, second and third order methods return exactly '
  'the truncated series. Exponentials of anti-Hermitian matrices are unitary '
  'and obey the group law, and an unknown method is refused.',
  ['inputs', 'configurations'],
  'all square matrices (diagonalizable ones for the spectral method), all '
  'tau, all methods',
  'tests compare methods for a few 2x2 Hermitian matrices; degenerate, '
  'non-normal, rectangular-dissipator-like matrices and complex tau are not '
  'reached',
  [M], [('exponential methods', M + ':DenseOperator.exp'),
        ('diagonalization', M + ':DenseOperator._exp_diagonalize')],
  'runtime oracle: own scaling-and-squaring Taylor series, exact polynomials '
  'and algebraic laws checked on thirteen random matrix families',
  'tolerance of the spectral method grows with the eigenvector condition'),
 ('C03', 'Directional derivatives of matrix exponentials are exact',
  'For every method the reported derivative of exp(tau A) in a direction B '
  'is the Frechet derivative of the function which the method evaluates: the '
  'true one for the exact methods, that of the truncated series for the '
  'Taylor methods, and a finite difference of the stated accuracy for the '
  'approximate one. It is linear in the direction, the exponential returned '
  'along with it is the right one, and neither matrix nor direction is '
  'modified.',
  ['inputs', 'configurations'],
  'all matrices, directions (commuting, Hermitian, general, zero), tau and '
  'methods',
  'tests use one or two Hermitian matrices, degenerate eigenvalues and '
  'non-normal matrices are not reached',
  [M], [('derivative methods', M + ':DenseOperator.dexp'),
        ('spectral derivative', M + ':DenseOperator._dexp_diagonalization')],
  'runtime oracle: block-matrix theorem with own exponential, differentiated '
  'polynomials, linearity monitor',
  'ill-conditioned eigenvectors excluded for the spectral method'),
 ('C04', 'Tensor products, partial traces, vectorisation, projections',
  'The partial trace over any set of subsystems given in any order sums '
  'exactly over those subsystems, and is consistent with the tensor product. '
  'Vectorising density matrices and turning a unitary into a super operator '
  'satisfy S(U) vec(rho) = vec(U rho U^dagger) and are inverted by the '
  'conversion back. Truncation to a subspace selects exactly the requested '
  'levels in the requested order (rescaled to norm one, or to the closest '
  'unitary, if requested), and the closest unitary is the minimiser of the '
  'distance.',
  ['inputs', 'configurations'],
  'all tensor product structures, subsets and orders of subsystems, states, '
  'operators and subspaces',
  'tests trace out one fixed subsystem of one example',
  [M, 'qopt/util.py'],
  [('partial trace', M + ':DenseOperator.ptrace'),
   ('truncation', M + ':DenseOperator.truncate_to_subspace'),
   ('vectorisation', M + ':convert_unitary_to_super_operator')],
  'runtime oracle: explicit index sums, defining equations, optimality '
  'against random competitors',
  'column-wise vectorisation as documented'),
 ('C05', 'The Schroedinger solver solves the Schroedinger equation',
  'For any drift, controls, pulse, transfer function, amplitude function, '
  'initial state and exponential method, the propagators of the time steps, '
  'their time ordered products from the start and to the end are those of '
  'the Schroedinger equation with hbar=1 on the transferred time grid. '
  'Propagators are unitary, forward and backward products multiply to the '
  'same total evolution at every step, arguments given by the user are not '
  'modified, and inconsistent set-ups are refused.',
  ['inputs', 'configurations'],
  'all control problems: dimension, number of controls and steps, ways to '
  'give the drift, nested transfer functions, methods',
  'tests run one or two fixed two-level set-ups with constant drift',
  [S], [('time slices', S + ':SchroedingerSolver._compute_propagation'),
        ('time ordering', S + ':Solver._compute_forward_propagation'),
        ('consistency', S + ':Solver.consistency_checks')],
  'model-based monitor: independent propagation and Runge-Kutta integration '
  'of randomly generated control problems',
  'piecewise constant Hamiltonians; the transfer and amplitude models are '
  'those of C10 and C12'),
 ('C06', 'Solvers never answer with stale or foreign results',
  'Whatever sequence of parameter updates, repeated or rejected updates, '
  'changes of the time steps, changes of arrays by the caller and reads was '
  'executed before, every result read from a solver is the one of the last '
  'accepted parameters and times. A rejected update leaves no mixture of old '
  'and new results behind, and two solvers built from the same objects do '
  'not influence each other. A calculation which failed or was interrupted, '
  'at whatever point, leaves nothing incomplete behind, and what a solver '
  'cannot calculate it refuses every time it is asked. Results of '
  'Schroedinger, Monte Carlo and Lindblad solvers, derivatives and filter function pulse sequences are '
  'included.',
  ['histories', 'fault_sequences'],
  'all histories of updates, failures and reads on a live solver',
  'tests set parameters once and read once; staleness needs particular '
  'sequences of operations',
  [S], [('cache invalidation', S + ':Solver.set_optimization_parameters'),
        ('reset', S + ':Solver.reset_cached_propagators')],
  'online history checker: random operation sequences with injected '
  'rejections, each read compared with the reference of the last accepted '
  'state',
  'returned operators are not modified by the caller'),
 ('C07', 'Propagator derivatives are exact for every control and step',
  'For every control and time step, the reported derivative of the '
  'propagator by the control amplitude is the exact derivative (or the '
  'first order GRAPE approximation when requested), with and without noise, '
  'for all methods. This holds whether it is calculated on demand or '
  'always, before or after the propagators, and assembling the final '
  'propagator derivative from them gives the true derivative of the total '
  'evolution.',
  ['inputs', 'configurations', 'histories'],
  'all control problems, derivative methods and orders of reading',
  'the tests compare one problem with a finite difference of low accuracy',
  [S], [('derivatives',
         S + ':SchroedingerSolver._compute_propagation_derivatives'),
        ('noisy derivatives',
         S + ':SchroedingerSMonteCarlo._compute_propagation_derivatives')],
  'runtime oracle: block-matrix Frechet derivatives per control and step, '
  'sixth order differences of the independent total propagator',
  'derivatives by control amplitudes'),
 ('C08', 'The Lindblad solver solves the master equation',
  'For Lindblad operators, dissipative super operators or functions of the '
  'control amplitudes and transferred parameters, the super propagators and '
  'their products are those of the Lindblad master equation with the '
  'current Hamiltonian, and their derivatives by the controls include the '
  'control dependent dissipation. The evolution is completely positive and '
  'trace preserving, equals the unitary evolution without dissipation, the '
  'documented ways of giving the dissipator agree, and user supplied '
  'operators are not modified.',
  ['inputs', 'configurations'],
  'all Hamiltonians, Lindblad operators, prefactors, ways of giving the '
  'dissipator, pulses and methods',
  'tests solve one decay problem',
  [S], [('dissipator', S + ':LindbladSolver._calc_diss_sup_op'),
        ('generator', S + ':LindbladSolver._compute_dyn_gen'),
        ('derivative', S + ':LindbladSolver._calc_diss_sup_op_deriv')],
  'model-based monitor: generator rebuilt from its action on matrix units, '
  'Runge-Kutta integration, invariants (CPTP, unitary limit)',
  'a dissipator is always given; column-wise vectorisation'),
 ('C09', 'Monte Carlo solvers propagate every noise trace correctly',
  'Each trace of the Monte Carlo solver is the evolution under the '
  'Hamiltonian with exactly the noise samples of that trace, scaled with the '
  'noise amplitude of each step, in the order of the draws; the unperturbed '
  'propagators contain no noise. All results read between two changes of '
  'the parameters belong to one draw, neither the number of processes nor '
  'the order in which they finish changes any result, and noise on the controls equals a shifted pulse.',
  ['inputs', 'histories', 'schedules', 'configurations'],
  'all noise draws, numbers of operators, traces and processes, orders of '
  'reading, redrawing policies',
  'tests average a few traces and compare with loose statistics; mixed up '
  'traces, steps or operators give the same averages',
  [S], [('noisy slices', S + ':SchroedingerSMonteCarlo._compute_propagation'),
        ('noise Hamiltonian',
         S + ':SchroedingerSMonteCarlo._compute_dyn_gen_noise'),
        ('control noise', S + ':SchroedingerSMCControlNoise')],
  'recording noise generator + per-trace offline comparison with the '
  'reference evolution; process-count metamorphic monitor',
  'one noise sample per transferred time step'),
 ('C10', 'Transfer functions map pulses and times as documented',
  'Oversampling repeats, convolution filters, exponential and custom '
  'matrices, padding at start and end, concatenation and parallel '
  'combination map every pulse and time grid to the documented transferred '
  'pulse and transferred time grid, independent of earlier calls and earlier '
  'time grids. The time arrays of the caller are never modified. The '
  'transfer matrix, where there is one, reproduces the map; wrong shapes are '
  'refused without side effect.',
  ['inputs', 'histories', 'configurations'],
  'all transfer functions, nestings, boundary modes, kernels, oversampling '
  'factors, time grids and histories of changed time grids',
  'tests use fixed pulses with one transfer function of each kind',
  [T], [('oversampling', T + ':OversamplingTF'),
        ('convolution', T + ':ConvolutionTF'),
        ('matrices', T + ':MatrixTF'),
        ('combination', T + ':ConcatenateTF, ParallelTF'),
        ('times', T + ':TransferFunction.set_times')],
  'model-based history monitor against an explicit loop model',
  'ExponentialMTF with equal time steps only (documented)'),
 ('C11', 'Gradients of transfer functions are the exact adjoint',
  'For every transfer function and combination, the chain rule maps '
  'derivatives by transferred parameters to the derivatives by the '
  'optimization parameters, i.e. it multiplies with the transposed Jacobian '
  'of the map for each cost function separately. It is linear, does not '
  'depend on earlier calls, and does not modify its argument.',
  ['inputs', 'histories', 'configurations'],
  'all transfer functions, nestings, boundary modes, time grids and cost '
  'derivatives',
  'tests check two transfer functions at one point',
  [T], [('chain rule', T + ':*.gradient_chain_rule')],
  'runtime oracle: explicit Jacobian of the loop model, adjoint identity on '
  'the observed map',
  'transfer functions are affine'),
 ('C12', 'Amplitude functions and their chain rule are exact',
  'Amplitude functions apply the user function to every time step (and, if '
  'unary, to every element) and return amplitudes of the right shape and '
  'full precision. The chain rule returns the derivative of the costs by the '
  'transferred parameters, also when one parameter acts on several controls, '
  'for any number of steps, controls and cost functions.',
  ['inputs', 'configurations'],
  'all user functions (also integer valued at some points), shapes and '
  'values',
  'tests use the identity and one linear example',
  [A], [('unary', A + ':UnaryAnalyticAmpFunc'),
        ('custom', A + ':CustomAmpFunc')],
  'runtime oracle: element-wise evaluation and sixth order differences',
  'user functions are deterministic'),
 ('C13', 'Fidelities and costs have their defining values',
  'State, sub-space, operation (Hilbert and Liouville space), noise averaged '
  'and channel averaged infidelities and matrix norm costs have the values '
  'given by their textbook definition for the evolution of the solver, '
  'including computational subspaces, rescaling, closest unitaries and '
  'missing targets. Fidelities lie in [0, 1] for physical arguments, do not '
  'depend on global phases or on a common rotation. The fidelity of a process '
  'is linear in the process. Each value carries the label given for it, or '
  'by default one which tells it from the others. Evaluation changes '
  'neither solver nor target.',
  ['inputs', 'configurations'],
  'all states, gates, subspaces, tensor decompositions, noise draws and '
  'control problems',
  'tests evaluate a few perfect and orthogonal pairs',
  [C], [('fidelities', C + ':state_fidelity, entanglement_fidelity, '
         'entanglement_fidelity_super_operator'),
        ('classes', C + ':StateInfidelity ... '
         'LiouvilleMonteCarloEntanglementInfidelity')],
  'runtime oracle: explicit sums, Choi states, metamorphic relations',
  'targets are normalised states or unitaries'),
 ('C14', 'Cost gradients are the derivatives of the costs',
  'Every cost function which offers a gradient returns the derivative of its '
  'own cost value by every control amplitude at every time step, for '
  'unitary, noisy and dissipative evolution, subspaces, rescaled states and '
  'closest unitaries. At a perfect gate the gradient of an infidelity '
  'vanishes, and a small step against the gradient lowers the cost by the '
  'predicted amount.',
  ['inputs', 'configurations'],
  'all control problems, cost functions with gradients, options and points '
  '(generic and special)',
  'tests compare three cost functions at one point with a coarse finite '
  'difference',
  [C, S], [('gradients', C + ':*.grad'),
           ('derivatives', C + ':derivative_entanglement_fidelity_with_du, '
            'deriv_entanglement_fid_sup_op_with_du, '
            'derivative_state_fidelity')],
  'runtime oracle: sixth order differences of the independent reference cost',
  'noise amplitudes independent of the controls; full rank'),
 ('C15', 'The simulator composes costs, Jacobians and statistics',
  'The simulator returns the concatenated costs of all its cost functions '
  'for the given pulse, and the Jacobian of these costs by the optimization '
  'parameters including transfer and amplitude functions, in the order of '
  'the cost indices. Every solver gets the pulse, evaluation times are '
  'recorded for each call, and the numerical gradient and its comparison '
  'with the analytical one report true deviations.',
  ['inputs', 'histories', 'configurations'],
  'all combinations of solvers and cost functions, histories of evaluations',
  'tests use one solver with one cost function',
  ['qopt/simulator.py'],
  [('costs', 'qopt/simulator.py:Simulator.wrapped_cost_functions'),
   ('jacobian', 'qopt/simulator.py:Simulator.wrapped_jac_function')],
  'model-based history monitor: reference costs and differences, shadow '
  'counters',
  'solvers of one simulator accept the same parameters'),
 ('C16', 'Optimizers return and record what they evaluated',
  'The optimizer hands the weighted costs and Jacobians of the simulation to '
  'the minimiser, every recorded step is a step that was evaluated with '
  'exactly those values, bounds are respected and the final parameters and '
  'costs belong together and are not worse than the start. The termination '
  'conditions reach the minimiser with their documented meaning. Time limits, '
  'other termination conditions and errors inside the simulation end the '
  'run with the best (or, for errors, no) result and never influence a '
  'later run or another optimizer.',
  ['inputs', 'histories', 'fault_sequences', 'configurations'],
  'all problems, methods, weights, bounds, termination conditions, points of '
  'interruption and repeated runs',
  'tests run one optimization to convergence; interruptions and repeated '
  'runs are not reached',
  [O], [('recording', O + ':Optimizer.cost_func_wrapper'),
        ('state', O + ':Optimizer.write_state_to_result'),
        ('runs', O + ':LeastSquaresOptimizer.run_optimization, '
         'ScalarMinimizingOptimizer.run_optimization')],
  'shadow evaluation log + fault injection (clock, exceptions) + offline '
  'checker of the recorded run',
  'scipy is trusted'),
 ('C17', 'Parallel optimization equals serial optimization',
  'Optimizing many initial pulses in parallel returns one result per initial '
  'pulse in the given order, each identical to a serial run from that pulse '
  'with an untouched optimizer, for every number of processes and every '
  'order in which the runs finish. Errors in one '
  'run are reported, not swallowed.',
  ['schedules', 'inputs', 'configurations'],
  'all problems, initial pulses, process counts and schedulings',
  'tests run two processes and look at the number of results',
  ['qopt/parallel.py', O],
  [('pool', 'qopt/parallel.py:run_optimization_parallel')],
  'differential monitor: complete histories of parallel and serial runs',
  'deterministic simulations'),
 ('C18', 'Noise traces have the requested statistics and shapes',
  'Generated noise has the requested number of traces, operators and '
  'samples, the requested standard deviation (quasi static) or spectral '
  'density (coloured), zero mean and no correlation between operators and '
  'traces; deterministic samples are the quantiles of the Gaussian. '
  'Parameters of the user are not changed, stored samples are returned as '
  'they are, and redrawing happens exactly as requested.',
  ['inputs', 'configurations', 'histories'],
  'all spectra, standard deviations, sampling intervals, lengths, extension '
  'ratios and numbers of operators',
  'tests look at one example of each with loose bounds',
  [N], [('colored', N + ':fast_colored_noise, NTGColoredNoise'),
        ('quasi static', N + ':NTGQuasiStatic')],
  'statistical monitors with explicit false alarm bounds, root-finding '
  'oracle for quantiles',
  'numpy random numbers are Gaussian'),
 ('C19', 'Stored optimization data are complete and survive storage',
  'A data container holds for every appended run, in order, exactly the '
  'final values, steps, status and statistics of that run, and rejects '
  'results with other cost functions without change. Storing and loading, '
  'copying and conversion to dictionaries and back preserve all data, and '
  'copies are independent of the original.',
  ['histories', 'inputs'],
  'all histories of appends, rejected appends, storage, loading and copies',
  'tests store one container with one run',
  ['qopt/data_container.py', 'qopt/optimization_data.py'],
  [('append', 'qopt/data_container.py:DataContainer.append_optim_result'),
   ('storage', 'qopt/data_container.py:DataContainer.to_pickle'),
   ('results', 'qopt/optimization_data.py:OptimizationResult.to_dict')],
  'shadow history compared with the container after each operation',
  'directory exists'),
 ('C20', 'Filter function infidelities are leading order noise infidelities',
  'The filter function cost equals the leading order infidelity of the '
  'current pulse under noise with the given operators, susceptibilities and '
  'spectral densities, and quasi static noise reproduces the exact average '
  'infidelity in the limit of small noise. Its gradient is the derivative '
  'of that value by the control amplitudes, and malformed noise '
  'descriptions are refused.',
  ['inputs', 'configurations', 'histories'],
  'all pulses, noise operators, susceptibilities, spectra and ways of giving '
  'the noise',
  'tests evaluate one example',
  [C, S], [('cost', C + ':OperatorFilterFunctionInfidelity'),
           ('noise operators', S + ':Solver.create_ff_h_n'),
           ('pulse', S + ':Solver.create_pulse_sequence')],
  'runtime oracle: closed form toggling frame integrals and differences of '
  'them, exact averages of quasi static noise',
  'traceless noise operators, non-degenerate Hamiltonians for gradients '
  '(known findings in the third party package)'),
 ('C21', 'Leakage measures are the lost population',
  'Coherent, noise averaged and dissipative leakage costs equal the mean '
  'population which leaves the computational states when each of them is '
  'evolved, for any set of computational states in any order. The gradient '
  'of the coherent leakage is its derivative, and leakage vanishes when all '
  'states are computational.',
  ['inputs', 'configurations'],
  'all evolutions, dimensions and sets of computational states',
  'tests look at one example',
  [C], [('leakage', C + ':LeakageError, IncoherentLeakageError, '
         'LeakageLiouville')],
  'runtime oracle: evolved populations summed state by state',
  'the evolution starts from an operator'),
 ('C22', 'Simulated annealing stays on the grid and returns the best pulse',
  'Annealing moves change the entries of the pulse by whole numbers of at '
  'most the step size, as often as requested, never leave the bounds, and accept '
  'improvements always. The returned pulse is the best visited one, its cost '
  'belongs to it, and runs do not influence each other.',
  ['histories', 'inputs', 'configurations'],
  'all problems, step sizes, bounds, schedules and random numbers',
  'no test runs the annealer',
  [O], [('moves', O + ':PulseAnnealer.move'),
        ('run', O + ':SimulatedAnnealing.run_optimization')],
  'trajectory recorder + offline checker, statistical monitor of the moves',
  'the start lies within the bounds'),
 ('C23', 'Rotation angle and axis rebuild the gate',
  'For every single qubit unitary the reported angle in [0, pi] and real '
  'unit axis rebuild the gate up to a global phase, independent of that '
  'phase; the inverse has the opposite axis, and rotating the frame rotates '
  'the axis. Matrices which are not unitary are refused.',
  ['inputs'],
  'all single qubit gates, also half turns, tiny rotations and axes with '
  'tiny components',
  'tests use two rotations',
  [C], [('representation', C + ':angle_axis_representation')],
  'runtime oracle: gate rebuilt from the reported rotation',
  'rotations below 2e-6 may be reported as identity'),
 ('C24', 'Energy spectra and Bloch sphere plots show the true data',
  'The plotted energy spectrum contains for every Hamiltonian exactly its '
  'eigenvalues at the given x value, coloured by the contributions of the '
  'basis states to the eigenvector. Bloch sphere plots contain the Bloch '
  'vectors of the states evolved by the given propagators or by the pulse of '
  'the solver, and systems of other dimension are refused.',
  ['inputs', 'configurations'],
  'all lists of Hamiltonians and propagators, plot options, pulses',
  'tests do not look at plotted data',
  ['qopt/energy_spectrum.py', 'qopt/plotting.py', S],
  [('spectrum', 'qopt/energy_spectrum.py:plot_energy_spectrum'),
   ('bloch', 'qopt/plotting.py:plot_bloch_vector_evolution')],
  'figure contents read back and compared with independent diagonalization '
  'and evolution',
  'colours compared for separated levels'),
 ('C25', 'The analysis of stored runs reports what happened',
  'Best run, absolute costs per step, evaluation and optimization times and '
  'their shares reported or plotted by the analyser are those of the stored '
  'runs, also if runs were interrupted. Measured evaluation times agree with the time actually spent in '
  'the cost functions and gradients.',
  ['histories', 'inputs'],
  'all stored histories (ragged lengths, ties, missing gradients) and '
  'optimization runs',
  'tests plot one history without looking at it',
  ['qopt/analyser.py', 'qopt/performance_statistics.py'],
  [('analysis', 'qopt/analyser.py:Analyser')],
  'explicit loops over the stored values, clocked cost functions',
  'costs of every step were stored'),
 ('C26', 'Pulse plots show the pulse that is applied',
  'For every control, the pulse plot of a transfer function contains one bar '
  'for every transferred time slice, at its position in time, as wide as the '
  'slice and as high as the transferred parameter, and outlines the raw '
  'pulse at the time at which it is applied (behind the start padding). This '
  'holds for equal and unequal time steps, given as durations or as absolute '
  'times, and plotting changes neither pulse nor transfer function.',
  ['inputs', 'configurations'],
  'all transfer functions, time grids and pulses',
  'tests do not look at plotted data',
  [T], [('plot', T + ':TransferFunction.plot_pulse'),
        ('time grids', T + ':TransferFunction.set_absolute_times'),
        ('padding', T + ':TransferFunction.num_padding_elements')],
  'rectangles read back from the figures and compared with a loop model',
  'matplotlib is trusted to draw what it stores'),
 ('C27', 'Optimization results describe the true evolution of the pulses',
  'After a complete optimization of any control problem with any optimizer, '
  'serially or in parallel, the final costs and the costs of every recorded '
  'step are those of the true evolution under the final or recorded pulse '
  '(weighted as the optimizer does), the pulses obey the bounds, the first '
  'step is the start, and the final pulse is not worse than the start. The '
  'records are the same after storing, loading and copying, and do not '
  'change when the simulation is used further.',
  ['inputs', 'histories', 'configurations'],
  'all control problems, cost functions, weights, bounds, optimizers and '
  'numbers of runs',
  'a test checks one part with fixed numbers; here all the parts have to '
  'agree with an independent evolution',
  [O, 'qopt/simulator.py', 'qopt/data_container.py', 'qopt/parallel.py', S,
   C],
  [('optimizer', O + ':Optimizer'),
   ('parallel runs', 'qopt/parallel.py:run_optimization_parallel'),
   ('results', 'qopt/optimization_data.py:OptimizationResult')],
  'end-to-end trace checker: pulses found in the stored records are evolved '
  'by an independent reference model',
  'time limits are the subject of C16'),
 ('C28', 'Equal inputs give equal results, whatever else is done',
  'Building the same objects from the same inputs and random seeds and '
  'performing the same operations gives the same numbers, no matter which '
  'other solvers, cost functions, optimizers, noise generators or figures '
  'are created and used before or in between. Calculations without noise '
  'draw no global random numbers, and no calculation changes the working '
  'directory, environment variables or the global settings of numpy and '
  'matplotlib.',
  ['histories', 'schedules'],
  'every interleaving of independent scenarios',
  'shared state between objects is seen only if several of them are used '
  'alternately and each is compared with being used alone',
  [S, C, O, N, T, M],
  [('solvers', S + ':Solver'), ('optimizers', O + ':Optimizer'),
   ('noise', N + ':NoiseTraceGenerator')],
  'scenarios executed alone and interleaved step by step with others; '
  'outputs compared, global state snapshot around every step',
  'warning filters are excluded'),
 ('C29', 'Copies of simulations equal the original and are independent',
  'A deep copy or a pickled and restored operator, transfer function, noise '
  'generator, solver, simulator or optimizer behaves like the original at '
  'the moment of copying, including stored noise samples, parameters and '
  'times. From then on updates, changed times or in-place changes of results '
  'of one of them have no effect on the other, and the cost functions of a '
  'copied simulator use the copied solvers.',
  ['histories'],
  'every history of operations with copies taken at any point',
  'tests do not copy objects in the middle of their use, while parallel '
  'optimization and stored optimizers rely on it',
  [S, M, T, N, 'qopt/simulator.py', O, 'qopt/parallel.py'],
  [('operators', M + ':DenseOperator'), ('solvers', S + ':Solver'),
   ('simulators', 'qopt/simulator.py:Simulator')],
  'shadow history per copy; every read is compared with the reference of '
  'the own history of the copy',
  'user functions which cannot be pickled are copied only'),
 ('C30', 'Equivalent descriptions of the same physics give the same results',
  'Costs, and gradients transformed accordingly, do not depend on how the '
  'same physics is described: the basis, the order of levels, controls, '
  'noise traces or noise operators, the units of time, controls and noise, '
  'linear combinations of controls or Lindblad operators, the subdivision '
  'of time steps, oversampling instead of repeated steps, an amplitude '
  'function instead of other control operators, the zero of energy, idle '
  'subsystems, global phases, complex conjugation and, where it applies, '
  'time reversal. Solvers and cost functions which describe the same '
  'quantity (Schroedinger, Lindblad without dissipation, Monte Carlo without '
  'noise, averages over traces) agree in values and gradients.',
  ['inputs', 'configurations'],
  'every set-up and every composition of changes of the description',
  'tests fix one description of one system; an invariance relates pairs of '
  'set-ups and holds for all of them',
  [S, C, T, A, M],
  [('solvers', S + ':Solver'), ('cost functions', C + ':CostFunction'),
   ('oversampling', T + ':OversamplingTF'),
   ('amplitude functions', A + ':CustomAmpFunc')],
  'metamorphic monitor: each random set-up is executed in two descriptions '
  'by all solvers and cost functions, and the results are compared; no '
  'reference model is involved',
  'filter functions with traceless operators (known findings)'),
]
EXTRA = os.path.join(HERE, 'tools', 'extra_properties.json')
if os.path.exists(EXTRA):
    P += [tuple(p) for p in json.load(open(EXTRA))]

LEVEL = 'exploration'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for (i, title, st, over, text, why, files, mech, tech, note) in P:
            assert len(title) <= 80, title
            f.write(json.dumps(dict(
                id=i, title=title, statement=st,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[
                    dict(name=n, where=w) for n, w in mech],
                    hook_needed=None))) + '\n')
    checks = [dict(
        property=p[0], quick_cmd=f'bash run_check.sh {p[0]} --tier quick',
        thorough_cmd=f'bash run_check.sh {p[0]} --tier thorough',
        evidence_file=f'evidence/{p[0]}.json',
        technique='runtime monitoring: ' + p[8], level=LEVEL,
        level_note='Holds on every execution observed (random, seeded '
        'workloads). ' + p[9][0].upper() + p[9][1:] + '.') for p in P]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(
            version=1, setup_cmd='bash setup.sh', checks=checks,
            not_applicable=[],
            notes='No hooks in the code under test are needed: the monitors '
            'attach to the public interface, recording subclasses and '
            'wrappers made by the harness.'), f, indent=1)
        f.write('\n')


main()
