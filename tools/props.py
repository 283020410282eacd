"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
PB = 'src/pynlo/light/PulseBase.py'
DP = 'src/pynlo/light/DerivedPulses.py'
FF = 'src/pynlo/util/pynlo_ffts.py'
FI = 'src/pynlo/media/fibers/fiber.py'
CA = 'src/pynlo/media/fibers/calculators.py'
JL = 'src/pynlo/media/fibers/JSONFiberLoader.py'
SS = 'src/pynlo/interactions/FourWaveMixing/SSFM.py'
GV = 'src/pynlo/interactions/FourWaveMixing/global_variables.py'
ST = 'src/pynlo/util/ode_solve/steppers.py'
DO = 'src/pynlo/util/ode_solve/dopr853.py'
CO = 'src/pynlo/util/ode_solve/dopr853_controller.py'
DC = 'src/pynlo/util/ode_solve/dopr853_constants.py'
DFG = 'src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py'
RW = 'src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py'
FC = 'src/pynlo/interactions/ThreeWaveMixing/field_classes.py'
CC = 'src/pynlo/media/crystals/CrystalContainer.py'
XP = 'src/pynlo/media/crystals/XTAL_PPLN.py'
XA = 'src/pynlo/media/crystals/XTAL_AgGaSe2.py'
XS = 'src/pynlo/media/crystals/XTAL_AgGaS.py'
BE = 'src/pynlo/light/beam.py'
WG = 'src/pynlo/light/high_V_waveguide.py'
GR = 'src/pynlo/devices/grating_compressor.py'

NO_TESTS = 'No test of the repository exercises this at all'

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    'mechanism': [dict(name=n, where=w) for n, w in mech],
                    'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Pulse grids always reflect the current settings',
  'After any sequence of grid settings (number of points, center wavelength, time or frequency window, repetition '
  'rate, in any offered unit), grid reads and calls that replace the grid, every quantity a pulse with an even number of points reports is the one '
  'the latest settings define: N times j*window/N from -window/2, angular frequencies 2*pi*(f0+k/window) for '
  'k=-N/2..N/2-1, wavelengths c/f, their spacings, windows and centers, in ps/THz/nm and in SI units. '
  'Reading a grid, on this or on another pulse, never changes what is reported later.',
  ['histories', 'inputs'], 'every order of setters, reads and grid-replacing calls on one or two pulses',
  'The tests read a few grids once on freshly built pulses; a stale or shared cached grid needs a read, a change and another read.',
  [PB, DP], [('derived properties', PB + ' __get_W/__get_T/__get_V'), ('cached grids keyed by settings', PB + ' _get_wavelength_nm, _get_W_Hz')],
  [('_n/_centerfrequency/_time_window', 'the settings', PB), ('_cache_*', 'memoised grids', PB)],
  ['Pulse.T_ps, V_THz, W_THz, F_THz, wl_nm and their *_mks forms'])
p('C02', 'Pulses never share mutable data with arrays or with other pulses',
  'Arrays returned by a pulse, arrays and dictionaries handed to it, and pulses derived from it (clone, subset, '
  'interpolation, dictionary) are independent of it: writing into one of them, or changing one pulse by any method, never '
  'changes what another reports. Reading any grid, field or diagnostic never changes the field.',
  ['histories'], 'every sequence of reads, derivations, writes into previously obtained arrays, and mutations of up to three pulses',
  'Aliasing shows only when a value obtained earlier is modified and something else is read afterwards; the tests never do that.',
  [PB], [('copies in accessors and setters', PB + ' _get_AW, set_AW, clone_pulse, create_subset_pulse')],
  [('_AW', 'the stored spectral field', PB)], ['Pulse.AW, AT, grids after mutation of a related object'])
p('C03', 'Temporal and spectral fields are one field under a fixed Fourier pair',
  'After any sequence of writing the temporal or the spectral field, the two reported fields satisfy '
  'A(t_j) = sum_k A_k exp(-i V_k t_j) on the reported grids and what was written is what is read back, so sum|A(t)|^2 = N sum|A_k|^2. '
  'The module level transforms are that pair: mutually inverse, linear, along any chosen axis, for every even length.',
  ['inputs', 'histories'], 'every even grid size in the bound, every basis field (hence by linearity every field), every write order, every axis',
  'Tests check one peak value of one Gaussian; sign and shift conventions are not fixed by that.',
  [PB, FF], [('FFT_t/IFFT_t', FF), ('set_AW/set_AT/AW/AT', PB)], [('_AW', 'the stored spectral field', PB)], ['Pulse.AW', 'Pulse.AT'])
p('C04', 'Generated pulses have the requested shape, power, energy and chirp',
  'Sech, Gaussian and sinc pulses have the documented temporal profile and width and the requested peak power, or, when '
  'the power is an average, energy times repetition rate equal to it; setting an energy gives exactly that energy and changes nothing but the scale; requested GDD, TOD and temporal chirps are '
  'those of the corresponding phase operations; omitted arguments mean their documented defaults. A CW pulse is a single spectral line at the requested '
  'frequency (grid center or the nearest offset bin) carrying the requested power, and noise pulses have equal tiny spectral amplitude.',
  ['inputs', 'configurations'], 'every combination of family, power convention, repetition rate, width, grid size, window, chirps and offset in a finite product',
  'The tests check FWHM, peak and axes for one pulse each and one power convention of one family.',
  [DP, PB], [('constructors', DP), ('calc_epp/set_epp', PB)], [], ['AT, AW, calc_epp()'])
p('C05', 'Phase operations act exactly as documented and never change amplitudes',
  'Chirping, applying a phase and adding a time offset multiply the spectrum by the documented phase factor and nothing else, '
  'so they preserve |A_k|, compose additively in any order, and are undone by the opposite operation; temporal chirp does the same in the time domain. '
  'Removing delay or dechirping preserves |A_k| and removes a linear, respectively up to quadratic, spectral phase, namely the one fitted where the spectral power exceeds the given fraction of its maximum.',
  ['histories', 'inputs'], 'all sequences up to the depth bound of all phase operations with positive, negative and zero arguments',
  NO_TESTS + '; composition and order need sequences.',
  [PB], [('chirp_pulse_W, apply_phase_W, chirp_pulse_T, dechirp_pulse, remove_time_delay, add_time_offset', PB)], [], ['AW, AT'])
p('C06', 'Grid-changing operations keep exactly the field they must',
  'Expanding the window keeps the sample spacing, the spectral center and every sample, zero-padding on the requested side; a subset keeps the exact samples and frequencies '
  'around the grid point nearest the requested wavelength; rotating moves the spectrum by the nearest whole number of bins; interpolating to a new center gives the linear interpolant '
  'at the same absolute frequencies and zero outside; filtering zeroes exactly the samples outside the band. '
  'A request that is rejected leaves the pulse exactly as it was.',
  ['histories', 'inputs'], 'all sequences of these operations with valid and invalid arguments, on all small even grids',
  NO_TESTS + '; shift directions, edges and failed calls are corner inputs.',
  [PB], [('expand_time_window, create_subset_pulse, rotate_spectrum_to_new_center_wl, interpolate_to_new_center_wl, filter_by_wavelength_nm', PB)], [], ['grids and fields before/after'])
p('C07', 'Copied, saved and reloaded pulses are the original pulse',
  'Cloning into a new or any existing pulse, exporting to a dictionary (also through JSON) and loading it into any pulse, deep copying and pickling reproduce '
  'grid, repetition rate and field, whatever state the target had before. Writing FROG data and reading it back on the same grid with the same phase convention reproduces the field up to a positive scale set by '
  'the requested energy or average power; a FROG table on other wavelengths is interpolated linearly in magnitude and phase and is zero outside.',
  ['histories', 'inputs'], 'every source state, every target state (other size, units, populated caches), every transfer route and chain of two routes',
  NO_TESTS + '.', [PB, DP], [('clone_pulse, get_pulse_dict, load_pulse_dict, write_frog', PB), ('FROGPulse', DP)], [], ['all accessors of the target'])
p('C08', 'Pulse diagnostics equal their defining sums',
  'Energy per pulse is the trapezoid integral of |A(t)|^2 over the grid, weighted average frequency and wavelength are spectral-power averages, '
  'the intensity autocorrelation is the symmetric correlation of |A|^2 with itself, and a spectrogram is the modulus of the Fourier transform of the field times the chosen gate on the '
  'stated delay and frequency axes. None of them alters the pulse.',
  ['inputs', 'configurations'], 'every small even grid, test field, gate type and number of delays in the bound',
  NO_TESTS + '.', [PB], [('calc_epp, calculate_weighted_avg_frequency_mks, calculate_intensity_autocorrelation, spectrogram', PB)], [], ['return values'])
p('C09', 'Fiber propagation constants follow the dispersion data in every format',
  'For Taylor coefficients (per m or per km), a tabulated D curve or an effective index curve, constant or a function of position, the propagation constant on a pulse grid '
  'is the curve these data define, in 1/m, reduced by its value and group delay at the pulse center, and depends only on the data, the position and the grid. '
  'Second-order dispersion and D derived from it agree with that curve.',
  ['inputs', 'configurations', 'histories'], 'every format, unit, coefficient order, center and grid combination in the bound, and every order of queries',
  NO_TESTS + '.', [FI, CA], [('get_betas', FI), ('DTabulationToBetas', CA), ('Beta2, Beta2_to_D', FI)], [('betas, x, y', 'current dispersion data', FI)], ['get_betas(pulse, z)'])
p('C10', 'Fibers, their loaders and the fiber database are isolated from each other',
  'What one fiber object is given (generated, loaded from the database or a file, made position dependent) is never visible in another fiber, '
  'and never in a later load of the database by the same or another fiber. The last generate or load call alone determines length, nonlinearity, gain and dispersion of a fiber that has no position dependent functions.',
  ['histories'], 'all sequences up to the depth bound of configuration calls and queries on two fibers',
  'Sharing needs two fibers and a particular order of calls; there is no fiber test.',
  [FI, JL], [('per-instance fiberspecs', FI), ('get_fiber', JL)], [('fiberspecs', 'fiber description', FI), ('fibers', 'decoded database', JL)], ['get_betas, get_gamma, get_gain, length'])
p('C11', 'Tabulated dispersion is fitted exactly and without side effects',
  'Fitting a table of D against wavelength returns the Taylor coefficients beta_2, beta_3, ... about the requested wavelength in ps^n/m: '
  'a table generated from a polynomial of at most the fitted order gives back its coefficients, whatever the number and order of the rows and whether the table is an array or a file; otherwise the fit is the least-squares one over all rows. The given '
  'table is not modified and repeated calls agree.',
  ['inputs', 'histories'], 'every coefficient pattern, polynomial order, table size, ordering and source in the bound, called repeatedly',
  NO_TESTS + '.', [CA], [('DTabulationToBetas', CA)], [], ['returned coefficients and diagnostics'])
p('C12', 'Fiber gain is what was specified',
  'A fiber without gain reports zero gain at every grid frequency, a flat gain is that value at every frequency, and a gain spectrum keeps its tabulated shape, zero outside its range, '
  'scaled so that linear amplification of the pulse over the fiber length gives the requested average output power, in whatever units the table is.',
  ['inputs', 'configurations'], 'every gain kind, power, repetition rate, length and grid in the bound',
  NO_TESTS + '; the spectral case could not even run.', [FI], [('get_gain', FI)], [], ['get_gain(pulse, output_power)'])
p('C13', 'Linear propagation is exact',
  'Without nonlinearity, propagation through any fiber multiplies each spectral component by exp(i*beta*L) and by exp(g*L/2) for a gain g, whatever the integrator method, step size, tolerance, number of outputs, '
  'grid or FFT back end; propagating backwards undoes it.',
  ['inputs', 'configurations'], 'every combination of method, initial step, tolerance, outputs, length, dispersion, gain and grid in the bound',
  NO_TESTS + '; and propagate could not run.', [SS], [('LinearStep, Calculate_expD, RK4IP', SS)], [('exp_D/last_h/last_dir', 'cached linear propagator', SS)], ['pulse_out, AW, AT'])
p('C14', 'The adaptive integrator covers exactly the requested distance',
  'For every sequence of accepted, rejected, shrunk, kept and grown steps the steps that are kept add up to exactly the requested length, forwards and backwards, for '
  'any initial step size, tolerance and length, and the integration terminates. A constant-intensity field therefore leaves a length L with the phase gamma*P*L to within the accuracy asked for.',
  ['fault_sequences', 'inputs'], 'every decision sequence of the step-size control up to the depth bound (error estimate as environment), and every tolerance/step/length combination of a grid on the real estimate',
  'The end-of-interval handling depends on rounding and on rare accept/reject orders.', [SS], [('integrate_over_dz', SS)], [('dz', 'current step, carried between intervals', SS), ('dist', 'distance left', SS)], ['distance advanced per accepted step', 'CW nonlinear phase'])
p('C15', 'Propagation outputs are mutually consistent and configuration independent',
  'The z positions are the n+1 equidistant points from 0 to L; column i of the temporal and spectral arrays is the field at point i+1, the two are Fourier pairs and the last is the returned pulse, which keeps grid and repetition rate. '
  'The result does not depend on the number of outputs, the FFT back end, the internal shift convention or the initial step beyond the tolerance.',
  ['configurations'], 'the full product of back end, shift flag, method, number of outputs, Raman and self-steepening switches and input pulse',
  NO_TESTS + '.', [SS, GV], [('propagate', SS), ('conditional_fftshift', SS)], [], ['z, AW, AT, pulse_out'])
p('C16', 'Nonlinear propagation obeys its conservation laws',
  'Without gain and self-steepening the pulse energy is conserved, with or without Raman response; with Raman and self-steepening the photon number is conserved; without dispersion and Raman the temporal intensity profile is preserved and the phase grows by gamma*|A|^2*L; '
  'a uniform gain g multiplies the energy by exp(g*L); a fundamental soliton keeps its shape; a CW field acquires gamma*P*L regardless of Raman fraction. '
  'Only the product of gamma and power matters, and lengths scale with dispersion and nonlinearity; weak parts of a field obey the same equation as strong ones.',
  ['configurations', 'inputs'], 'every combination of pulse family, power, chirp, fiber and physical switch in the bound',
  NO_TESTS + '; invariants must hold for every input.', [SS], [('NonlinearOperator, CalculateRamanResponseFT, RK4IP', SS)], [], ['energy, photon number, intensity and phase of outputs'])
p('C17', 'Propagation is repeatable and leaves its inputs alone',
  'Neither the input pulse nor the fiber is modified by a propagation; results already returned never change; and a propagation gives the same result, within the tolerance, whatever '
  'other propagations, with other grids, fibers, methods or switches, the same or another simulator object has run before.',
  ['histories'], 'all sequences up to the depth bound of propagations of different kinds on one or two simulator objects',
  'Needs several runs on one object in particular orders.', [SS], [('setup_fftw, load_fiber_parameters', SS)], [('work arrays, last_h, dz, f_R', 'state left by a run', SS)], ['pulse_out, AW, AT, inputs after the call'])
p('C18', 'A position-dependent fiber equals the cascade of its segments',
  'With reloading on, propagation with n outputs through a fiber whose dispersion and nonlinearity are functions of position gives, at every output, the same field as propagation through n uniform fibers '
  'of equal length with the values at the start of each segment, however little they differ; with constant functions it equals the uniform fiber.',
  ['configurations', 'inputs'], 'every profile pattern over up to 3 (thorough: 4) segments from a small alphabet, in each dispersion format',
  NO_TESTS + '.', [SS, FI], [('load_fiber_parameters', SS), ('set_dispersion_function, set_gamma_function', FI)], [], ['AW columns'])
p('C19', 'Coherence and noise calculations are repeatable and well formed',
  'With a seed the coherence calculation gives identical results on every call and a different seed gives different noise; trials are independent, passed output options are honoured, the coherence lies in [0,1], has one row per frequency and one column per output, and the input pulse is untouched. '
  'Adding square-root noise leaves empty bins empty, one-photon noise scales with photon energy, and an unknown noise type is rejected without changing the pulse.',
  ['histories', 'inputs'], 'every combination of seed, trials, noise type and options in the bound, repeated and interleaved',
  NO_TESTS + '.', [SS, PB], [('calculate_coherence', SS), ('add_noise', PB)], [], ['g12W, results'])
p('C20', 'Amplifier goal seeking ends at the requested power',
  'Propagating to a power goal through a fiber with a gain spectrum returns, for any goal, repetition rate, number of outputs and starting guess, a pulse whose average power is within the tolerance of the goal, '
  'together with the scale factor that reproduces it and the positions and fields of that propagation.',
  ['inputs'], 'every combination of goal, guess, tolerance, repetition rate and nonlinearity in the bound', NO_TESTS + '; it could not run.', [SS, FI], [('propagate_to_gain_goal', SS)], [], ['returned pulse and scale factor'])
p('C21', 'Dense output is complete, ordered and on the requested grid',
  'For every sequence of step sizes the stepper may take, in either direction, with any number of requested outputs, dense output records the start, every one of the equidistant points and the end, in order and once each, with the '
  'solution value belonging to that point, growing its storage as needed; without dense output every accepted step is recorded once, start and end included. Record types match the integrand and reuse of a recorder starts afresh.',
  ['fault_sequences', 'configurations'], 'every step-size sequence from a small alphabet up to the depth bound through the real driver, all directions, output counts and types',
  'The single test asks for one output point and looks at the last value only.', [ST], [('Output.out/save/save_dense/resize', ST), ('ODEint.integrate', ST)], [('count/xout/kmax', 'recording cursor', ST)], ['xsave, ysave, count'])
p('C22', 'The integrator solves initial value problems to the requested tolerance',
  'For smooth problems, real or complex, scalar or vector, of either direction, including zero and constant right-hand sides, the recorded values agree with the exact solution to an accuracy set by the tolerances, tightening with them; polynomials up to the method order '
  'are reproduced exactly, also between steps. The end point is reached exactly, the caller is given the final state, and impossible requests (step below minimum) are reported as errors.',
  ['inputs', 'configurations'], 'every problem of a library with known solution x tolerance x direction x initial step x output count',
  'One scalar problem at one tolerance is tested.', [DO, CO, DC, ST], [('dy, error, prepare_dense, dense_out', DO), ('success', CO)], [], ['ysave against closed forms'])
p('C23', 'Integrations never influence each other',
  'An integration gives bit-identical results whether it runs alone, after, interleaved step by step with, nested inside the right-hand side of, or after the abortion of other integrations.',
  ['histories', 'schedules'], 'every interleaving of the steps of two integrations up to the bound, and every abort or nesting position',
  'Tests run one integration per process.', [DO, CO, ST], [('per-stepper controller and work arrays', DO)], [('con', 'step size controller', DO)], ['xsave, ysave, nok, nbad'])
p('C24', 'Three-wave mixing conserves energy and photons',
  'In the waveguide geometry the three coupled fields exchange energy so that, at every point of the crystal and for every field triple, total power is conserved and the photons lost by the pump equal those gained by signal and by idler; '
  'integrated results conserve them too; with zero signal and idler, or no nonlinearity, nothing changes. The exchange is proportional to the nonlinearity and to one over the root of area and indices, advances in phase with the wavevector mismatch, and scales: only the product of drive and coupling matters.',
  ['inputs', 'configurations'], 'all triples of basis fields and phases on small grids, all poling signs, positions and areas in the bound',
  'The CW tests compare one conversion efficiency.', [DFG, WG], [('deriv', DFG), ('rtP_to_a', WG)], [], ['derivative of the state vector', 'integrated fields'])
p('C25', 'Mixing products are exact discrete convolutions and correlations',
  'The fast convolution and correlation used for mixing equal, for every pair of inputs, the direct sums over index pairs that conserve the sum, respectively the difference, of frequencies relative to the grid centers, without wrap-around and without '
  'depending on earlier calls.',
  ['inputs', 'histories'], 'all pairs of basis vectors (hence by bilinearity all inputs) for all even sizes in the bound, and all call orders to the depth bound',
  NO_TESTS + '.', [DFG], [('fftcomputer.conv/corr', DFG)], [('corrin, corrtransfer', 'shared work arrays', DFG)], ['return values'])
p('C26', 'Mixing problems are set up consistently and leave their inputs alone',
  'Setting up a mixing problem derives the idler center from energy conservation on the pump grid, rejects overlapping grids and unequal lengths, and neither setup, derivative evaluation nor post-processing modifies the given pulses, crystal or solver record, or depends on earlier evaluations or later changes of what was given. '
  'The poling sign alternates exactly at the half periods of the poling function, for constant, chirped and arbitrary profiles, at any position in any order; saved fields are returned for the right wave and position.',
  ['histories', 'inputs'], 'every pulse/crystal configuration in the bound, all orders of evaluation and post-processing, all poling profiles and positions of a grid',
  'The tests build one configuration and run it once.', [DFG, XP], [('dfg_problem.__init__, precompute_poling, poling, process_stepper_output', DFG), ('dfg_results_interface', DFG)], [('domain_lb/domain_ub', 'domain boundaries', DFG)], ['idler, poling(z), results interface'])
p('C27', 'Saved mixing runs are read back exactly, in order, and survive a crash',
  'Every run added to a results file is read back, by number, by default as the last, or in sequence, with its parameter and the pump, signal and idler pulses at every saved position, and nothing else is; reopening a parameter name replaces its runs only and leaves other parameters in the file alone. '
  'If the process dies after a run was added, all runs added so far can be read.',
  ['histories', 'crash_points'], 'all histories of open/add/close/kill/reopen/read up to the depth bound over two parameter names', NO_TESTS + '; the writer could not run.', [RW], [('DFGWriter.add_run, DFGReader.get_run', RW)], [('run_ctr', 'run counter', RW)], ['DFGReader results'])
p('C28', 'Crystal index caching is invisible and crystals are independent',
  'Refractive indices and wavevectors on a pulse grid are the same with caching on or off, whatever was asked before, on whatever grids and axes, and whatever temperature, angle or data source changes happened in between; arrays handed out can be modified freely. '
  'Nothing done to one crystal (temperature, angle, poling, damage data, caching) is visible in another.',
  ['histories'], 'all sequences up to the depth bound of queries and changes on two crystals and two pulses',
  'The tests enable caching once and never change anything afterwards.', [CC, XP, XA], [('get_pulse_n, set_caching', CC)], [('_cached_ns', 'index cache', CC)], ['get_pulse_n, get_pulse_k'])
p('C29', 'Crystal dispersion, phase matching and poling agree with the index',
  'Whatever was asked before, group velocity, delay, dispersion and wavevectors agree with the refractive index curve; the mixed-axis index interpolates between ordinary and extraordinary with the angle; a phase-matching angle, when one is returned, makes the wavevector mismatch vanish; '
  'a poling period compensates the mismatch (up to the documented offset), the missing third wavelength follows from energy conservation, inverting a period returns a wavelength that needs it, and periods set as chirp or function are used as given.',
  ['inputs', 'configurations'], 'every crystal, temperature, angle, wavelength triple and omitted argument of a finite grid', NO_TESTS + ' except through one conversion efficiency.', [CC, XP, XA], [('calculate_group_velocity_nm_ps, calculate_D_ps_nm_km, calculate_poling_period, invert_dfg_qpm_to_signal_wl, phasematch', CC)], [], ['return values'])
p('C30', 'The grating compressor model is self-consistent',
  'Diffraction angles satisfy the grating equation; the delay-dispersion equals the derivative of the group delay, is negative and proportional to separation; round-trip GDD is twice the single pass, dispersion of orders 3 to 5 is its derivatives; and the phase put on a pulse has, '
  'up to a constant and a pure delay, exactly that dispersion while amplitudes, grid and energy stay the same.',
  ['inputs', 'configurations'], 'every combination of ruling, angle, wavelength, separation and pulse grid of a finite product', 'The test checks GDD and TOD at one point.', [GR], [('calc_theta, calc_dt_dw_singlepass, calc_dphi_domega, calc_compressor_gdd, apply_phase_to_pulse', GR)], [], ['return values, pulse phase'])
p('C31', 'Beam geometry follows Gaussian optics and beams are independent',
  'Confocal parameter, Rayleigh range, radius, curvature and Gouy phase obey the Gaussian beam formulas for any index and position; field-to-power conversion follows from beam area and index; matched waists have equal confocal parameters; overlap integrals lie in (0,1], are symmetric and '
  'are one for identical beams. In a waveguide the mode area is constant. Changing one beam never affects another.',
  ['inputs', 'histories'], 'every beam, crystal, axis, position combination of a finite product and all orders of waist changes', NO_TESTS + '.', [BE, WG], [('OneDBeam', BE), ('OneDBeam_highV_WG', WG)], [], ['return values'])
p('C34', 'Mixing in a bulk crystal follows the focused beams',
  'Outside a waveguide the three fields of a mixing problem are those of Gaussian beams focused at the center of the crystal with one confocal parameter for all colors, that of the pump center at the given waist. At every position they are coupled as in a waveguide with the area of the smallest beam there, that of the pump: '
  'the change of each field is the product of the other two under energy conservation, in the phase given by their wavevectors (and Gouy phases, when asked for), with signal and idler on the ordinary and the pump on the mixed axis of a birefringent crystal and with the sign of the poling at that position in a poled one; '
  'integrated results follow that equation.',
  ['inputs', 'configurations'], 'all pairs of basis fields (hence all fields by bilinearity) on small grids, all positions, waists, crystals, angles, wavelength sets and switches of a finite product',
  'The tests of the bulk geometry compare one conversion efficiency.', [DFG, BE], [('dfg_problem.__init__, deriv', DFG), ('rtP_to_a_2, calculate_waist, set_waist_to_match_confocal', BE)], [], ['derivative of the state vector', 'integrated fields'])
p('C32', 'Concurrent use from threads gives sequential results',
  'Threads that read grids, fields, indices, propagation constants or beams of the same unchanging pulses, crystals and fibers, or work on separate objects, all get exactly what they would get running alone, for every interleaving.',
  ['schedules'], 'all interleavings at source line granularity of two or three threads up to a preemption bound', 'Tests are single threaded; races need particular preemption points.', [PB, CC, FI], [('value-then-key publication of cached grids', PB), ('caches', CC)], [('_cache_wl_nm_hash, _cache_W_Hz_hash, _cached_ns', 'lazily filled caches', PB)], ['results in each thread'])
p('C33', 'Independent simulations in different threads do not interfere',
  'Propagations, integrations and mixing calculations running at the same time in different threads on their own simulator, solver or problem objects give the results they give alone, for every interleaving.',
  ['schedules'], 'all interleavings at function-call granularity of two threads up to a preemption bound', 'Tests are single threaded.', [SS, DO, DFG], [('per-object work arrays', SS), ('per-stepper controller', DO)], [], ['results in each thread'])
