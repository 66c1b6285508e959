"""Documented default arguments, which are left out at random."""

SOLVER = dict(initial_state=None, ctrl_amps=None, filter_function_h_n=None,
              filter_function_basis=None, filter_function_n_coeffs_deriv=None,
              exponential_method=None, frechet_deriv_approx_method=None,
              is_skew_hermitian=True, transfer_function=None,
              amplitude_function=None)
OPTIMIZER = dict(termination_cond=None, save_intermediary_steps=True,
                 cost_func_weights=None, use_jacobian_function=True,
                 store_optimizer=False, bounds=None)
DEFAULTS = dict(
    IdentityTF=dict(num_ctrls=1),
    OversamplingTF=dict(num_ctrls=1, bound_type=None, oversampling=1),
    OversamplingMTF=dict(num_ctrls=1, bound_type=None, oversampling=1,
                         offset=0),
    ConvolutionTF=dict(mode='nearest', num_ctrls=1, cval=0.),
    GaussianConvolution=dict(num_ctrls=1, order=0, mode='nearest',
                             truncate=4.),
    CustomMTF=dict(x_times=None, bound_type=None, oversampling=1, offset=None,
                   num_ctrls=1),
    ExponentialMTF=dict(oversampling=1, bound_type=('x', 0), offset=None,
                        num_ctrls=1),
    LeastSquaresOptimizer=dict(OPTIMIZER, method='trf'),
    ScalarMinimizingOptimizer=dict(OPTIMIZER, method='L-BFGS-B'),
    SimulatedAnnealing=dict(
        store_optimizer=False, initial_temperature=1., final_temperature=1e-6,
        step_size=1, step_ratio=1., steps=1000, updates=100),
    Simulator=dict(record_performance_statistics=True, numeric_jacobian=False,
                   optimization_parameters=None),
    SchroedingerSolver=dict(SOLVER, calculate_propagator_derivatives=True),
    SchroedingerSMonteCarlo=dict(
        SOLVER, calculate_propagator_derivatives=False, processes=1,
        noise_amplitude_function=None),
    SchroedingerSMCControlNoise=dict(
        SOLVER, calculate_propagator_derivatives=False, processes=1),
    LindbladSolver=dict(
        SOLVER, calculate_unitary_derivatives=False, is_skew_hermitian=False,
        initial_diss_super_op=None, lindblad_operators=None,
        prefactor_function=None, prefactor_derivative_function=None,
        super_operator_function=None, super_operator_derivative_function=None),
    NTGQuasiStatic=dict(
        n_traces=1, noise_samples=None, always_redraw_samples=True,
        correct_std_for_discrete_sampling=True,
        sampling_mode='uncorrelated_deterministic'),
    NTGColoredNoise=dict(n_traces=1, n_noise_operators=1,
                         always_redraw_samples=True,
                         low_frequency_extension_ratio=1),
    numeric_gradient=dict(delta_eps=1e-8, symmetric=False),
    compare_numeric_to_analytic_gradient=dict(delta_eps=1e-8,
                                              symmetric=False),
    state_fidelity=dict(computational_states=None,
                        rescale_propagated_state=False),
    derivative_state_fidelity=dict(computational_states=None,
                                   rescale_propagated_state=False),
    entanglement_fidelity=dict(computational_states=None,
                               map_to_closest_unitary=False),
    derivative_entanglement_fidelity_with_du=dict(
        computational_states=None, map_to_closest_unitary=False),
    entanglement_fidelity_super_operator=dict(computational_states=None),
    deriv_entanglement_fid_sup_op_with_du=dict(computational_states=None),
    exp=dict(tau=1, method='spectral', is_skew_hermitian=False),
    dexp=dict(tau=1, compute_expm=False, method='spectral',
              is_skew_hermitian=False),
    prop=dict(tau=1),
    truncate_to_subspace=dict(map_to_closest_unitary=False),
    spectral_decomposition=dict(hermitian=False),
    dag=dict(do_copy=True), conj=dict(do_copy=True),
    transpose=dict(do_copy=True), ptrace=dict(do_copy=True))


def same(a, b):
    if a is None or isinstance(a, (bool, str, tuple)):
        return type(a) is type(b) and a == b
    return isinstance(b, (int, float, complex)) and not isinstance(
        b, bool) and a == b


def lean(rng, f, *args, **kw):
    """f(*args, **kw) without some of the arguments which have their
    documented default."""
    for k, v in DEFAULTS[f.__name__].items():
        if k in kw and same(v, kw[k]) and rng.random() < .5:
            del kw[k]
    return f(*args, **kw)
