#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))
PB="src/pynlo/light/PulseBase.py"; DP="src/pynlo/light/DerivedPulses.py"; SS="src/pynlo/interactions/FourWaveMixing/SSFM.py"
ST="src/pynlo/util/ode_solve/steppers.py"; DO="src/pynlo/util/ode_solve/dopr853.py"; DC="src/pynlo/util/ode_solve/dopr853_controller.py"
FI="src/pynlo/media/fibers/fiber.py"; FC="src/pynlo/media/fibers/calculators.py"; CC="src/pynlo/media/crystals/CrystalContainer.py"
PP="src/pynlo/media/crystals/XTAL_PPLN.py"; AG="src/pynlo/media/crystals/XTAL_AgGaSe2.py"; AS="src/pynlo/media/crystals/XTAL_AgGaS.py"
RW="src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py"; DF="src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py"; BE="src/pynlo/light/beam.py"; WG="src/pynlo/light/high_V_waveguide.py"
GC="src/pynlo/devices/grating_compressor.py"; FF="src/pynlo/util/pynlo_ffts.py"; JL="src/pynlo/media/fibers/JSONFiberLoader.py"

prop("C01", "Pulse grids always agree with the current size, window and centre",
 "Every grid a pulse exposes (time, absolute and relative frequency, wavelength, their spacings, the window and the centre, in every unit offered) is determined by the size, window, centre wavelength and repetition rate last set, so after any sequence of setting and reading all of them describe one and the same even-sized grid with zero delay and the centre frequency at index N/2. "
 "Reading a grid, or altering an array obtained by reading, never changes what any later read returns.",
 ["histories","inputs"], "Every sequence of setter calls (wavelength in nm or m, size, window as time or frequency in either unit, repetition rate) interleaved with reads and with writes into arrays that were read, on any even grid size.",
 "Tests build a pulse once and never change its grid after a read; a stale cache or an aliased array only shows on set-after-read histories.",
 [PB],[("setters","PulseBase.py:set_*"),("grid properties and caches","PulseBase.py:_get_wavelength_nm,_get_W_Hz,_get_hash")],
 [("(n,window,centre,frep)","the four numbers that determine all grids","PulseBase.py:_n,_time_window,_centerfrequency,_frep_MHz")],
 ["wl_nm","wl_mks","W_THz","W_mks","F_THz","F_mks","T_ps","T_mks","V_THz","V_mks","dT_*","dF_*","time_window_*","center_*"])
prop("C02", "Time and frequency fields of a pulse are always one Fourier pair",
 "Whichever domain was written last, the time field is the sum over frequency bins of the frequency field times exp(-i(w-w0)t) on the pulse's own grids, and the frequency field is recovered by the inverse with 1/N. "
 "Writing one field and reading it back returns what was written, the transform is linear, and arrays passed in or read out are independent copies.",
 ["inputs","histories"], "Every complex field on every even grid, every alternation of time-domain and frequency-domain writes, reads and caller-side mutations.",
 "Tests only look at intensity of one or two analytic shapes; a shift, conjugation or scale error for asymmetric fields or a shared buffer is invisible to them.",
 [PB,FF],[("transform pair","pynlo_ffts.py:FFT_t,IFFT_t"),("set_AT/set_AW/AT/AW","PulseBase.py")],
 [("field","complex amplitude per frequency bin","PulseBase.py:_AW")],["AT","AW"])
prop("C03", "Spectral and temporal phase operations are exact, pure phases that compose",
 "Applying dispersion coefficients (second, third and fourth order, about the grid centre or about a chosen frequency), an arbitrary spectral phase, a temporal chirp or a time offset multiplies the field by exactly the documented unit-modulus factor and changes nothing else. "
 "Consequently operations compose additively, are undone by the opposite sign, a time offset of a whole number of samples moves the intensity by that many samples in the documented direction, and removing chirp or delay removes exactly the fitted polynomial phase, leaving every spectral magnitude as it was.",
 ["inputs","histories"], "Every sequence of phase operations with any coefficients, reference frequency and grid.",
 "One test chirps one Gaussian; sign, factorial or reference-frequency errors in the higher orders and in compositions are outside it.",
 [PB],[("chirp_pulse_W, chirp_pulse_T, apply_phase_W, add_time_offset, dechirp_pulse, remove_time_delay","PulseBase.py")],
 [("field","complex amplitude per frequency bin","PulseBase.py:_AW")],["AT","AW"])
prop("C04", "Changing a pulse's grid keeps its content where it belongs",
 "Extending the time window keeps the sampled time field unchanged next to the requested zero padding with the sample spacing unchanged; taking a spectral subset, rotating the spectrum, interpolating to a new centre and filtering by wavelength keep every surviving spectral amplitude attached to the frequency (or shifted bin) the operation documents and set the rest to zero. "
 "An operation that returns a new pulse leaves the original untouched, and an operation refused for bad arguments leaves the pulse exactly as it was.",
 ["inputs","histories"], "Every sequence of grid operations with any legal or illegal arguments, on any field and even grid.",
 "No test calls most of these operations and none checks the state after a refused call.",
 [PB],[("expand_time_window, create_subset_pulse, rotate_spectrum_to_new_center_wl, interpolate_to_new_center_wl, filter_by_wavelength_nm","PulseBase.py")],
 [("(grid, field)","as C01 and C02","PulseBase.py")],["all grids","AT","AW","exceptions"])
prop("C05", "Copies and saved forms of a pulse reproduce it and stay independent",
 "Cloning a pulse, copying one pulse into another of any size, exporting and re-importing the pulse dictionary, and writing then re-reading a FROG-format file with matching phase-flip settings all reproduce the same grid, repetition rate and field (the FROG file up to overall energy scale). A FROG file is a set of frequencies with amplitude and phase: read onto any other grid it gives the same field at those frequencies, nothing outside them, and a constant phase of the written pulse only turns the one read. "
 "Afterwards changes to either pulse never show in the other.",
 ["histories","inputs"], "Every interleaving of copies, exports, imports and later modifications across several pulses of differing sizes.",
 "Tests clone once and never modify either side afterwards, copy across sizes, or write a file.",
 [PB,DP],[("clone_pulse, create_cloned_pulse, get_pulse_dict, load_pulse_dict, write_frog","PulseBase.py"),("FROGPulse","DerivedPulses.py")],
 [("pool of pulses","grid, frep and field per pulse","PulseBase.py")],["all grids","AT","AW","frep_*"])
prop("C06", "Pulse energy and power figures are consistent with the field",
 "The reported pulse energy is the trapezoidal integral of the instantaneous power of the current time field over the current time grid in joules, so it scales with the square of the amplitude and in proportion to the sample spacing. "
 "Setting a pulse energy rescales the field by one positive real factor so that exactly that energy is then reported, whatever the previous history.",
 ["inputs","histories"], "Every field, grid and sequence of rescalings, grid changes and energy settings.",
 "Tests compare the energy of one Gaussian to a rough expectation; they cannot distinguish errors tied to the window, edges or earlier grid changes.",
 [PB],[("calc_epp, set_epp","PulseBase.py")],[("(grid, field)","as C01 and C02","PulseBase.py")],["calc_epp()","AT"])
prop("C07", "Built-in pulse shapes have the documented profile, width and power",
 "The hyperbolic-secant, Gaussian, sinc and continuous-wave constructors produce on every grid the documented profile centred at zero delay with the documented relation between width parameter and shape, peak power equal to the requested power, or, when the power is given as an average, pulse energy times repetition rate equal to it, and any requested spectral and temporal chirps applied on top. "
 "A continuous wave occupies a single spectral bin at the requested offset and wavelength with the requested average power; an offset outside the grid is refused.",
 ["inputs","configurations"], "Every constructor, width, power convention, repetition rate, chirp, grid and offset.",
 "Tests sample one parameter set of the sech and Gaussian shapes with peak power.",
 [DP],[("SechPulse, GaussianPulse, SincPulse, CWPulse","DerivedPulses.py")],[],["AT","AW","calc_epp()","frep_mks"])
prop("C08", "The ODE driver integrates exactly to the end and saves exactly what was asked",
 "Integrating forwards or backwards, the driver advances monotonically, never passes the requested end point and returns only when it is exactly there (to rounding), with the final state handed back to the caller and the counts of first-try and reduced steps matching the steps actually taken; a next step below the minimum or too many steps ends in the documented error. "
 "With dense output the saved abscissae are the start, every multiple of the requested spacing and the end, each once and in order; without it, they are the start and every accepted step; and with no output requested nothing is stored.",
 ["histories","inputs"], "Every sequence of step acceptances, reductions and proposed next steps a stepper can produce, every direction and interval, every output setting including growth of the output store.",
 "The one ODE test checks the final value of a single forward integration with one save.",
 [ST],[("ODEint.integrate, Output.out/save/save_dense/resize","steppers.py")],
 [("(x,h,count,xsave)","position, next step, saved points","steppers.py")],["a.s.x","nok","nbad","out.xsave","out.ysave","out.count","exceptions"])
prop("C09", "The ODE stepper and its dense output have their stated order and tolerance",
 "A single step reproduces every polynomial right-hand side up to degree seven exactly and its dense output reproduces solutions up to degree seven exactly at every interior point, for real and complex states and both directions. "
 "Steps are accepted only if the scaled error estimate is at most one, a rejected step is retried smaller and is never followed by a larger proposal, and the proposal obeys the documented growth and shrink limits. The estimate weighs each component by the absolute tolerance plus the relative tolerance times the larger of its magnitudes before and after the step, and a step that would have to shrink below what its position resolves fails with an error instead of going on.",
 ["inputs","histories"], "Every polynomial right-hand side of those degrees, step, direction and component count, and every sequence of accepted and rejected attempts.",
 "A single end-point comparison at tight tolerance cannot see a wrong dense-output coefficient or a wrong step proposal.",
 [DO,DC,"src/pynlo/util/ode_solve/dopr853_constants.py"],[("step, dy, prepare_dense, dense_out, error","dopr853.py"),("Controller.success","dopr853_controller.py")],
 [("(x,y,dydx,hdid,hnext,reject)","stepper state","dopr853.py")],["s.x","s.y","hdid","hnext","dense_out"])
prop("C10", "Every integration is independent of all others",
 "The steps taken and the results of an integration depend only on its own problem and settings: other integrations running interleaved with it, nested inside its right-hand side, run before it, or aborted by an error leave it unchanged to the last bit. "
 "Running the same integration again gives the same result.",
 ["schedules","histories","fault_sequences"], "Every interleaving and nesting of several integrations, including ones that fail part-way.",
 "Tests run one integration at a time.",
 [DO,DC,ST],[("per-stepper controller and output state","dopr853.py:con; steppers.py")],
 [("controller(reject,hnext,errold)","step-control memory","dopr853_controller.py")],["accepted step sequence","ysave"])
prop("C11", "Fibre propagation covers the requested length exactly with controlled error",
 "Between two output positions the adaptive propagation accepts steps whose lengths add up to exactly the distance between them, never beyond it and never stalling, whatever sequence of local errors occurs. "
 "A trial whose error estimate exceeds twice the tolerance is discarded and halved unless the step is already at its minimum, one above the tolerance is kept with a smaller next step, one below half the tolerance lets the next step grow, by the documented factors.",
 ["histories","schedules","inputs"], "Every sequence of local-error outcomes, initial step, tolerance and distance.",
 "No test propagates a pulse through a fibre at all.",
 [SS],[("integrate_over_dz, CalculateLocalError","SSFM.py")],[("(dist,dz)","remaining distance and half-step","SSFM.py")],
 ["step trace printed with suppress_iteration=False","A after propagation"])
prop("C12", "Fibre propagation has the exact limiting physics and symmetries",
 "Without nonlinearity each spectral amplitude is multiplied by exp(i beta L + gain L/2) exactly; without dispersion, Raman and self-steepening each time sample acquires the phase gamma P L exactly; without loss, energy is conserved when self-steepening is off and photon number when it is on. "
 "Results do not depend, beyond the tolerance, on the number of outputs requested, on splitting the fibre in two, on the initial step, on the transform library or internal layout configuration, or on simultaneous rescaling of power and nonlinearity. Raman scattering never raises the mean frequency, and a fundamental soliton keeps its shape.",
 ["inputs","configurations"], "Every pulse, dispersion, nonlinearity, gain, fibre length and configuration within the stated limits.",
 "No test propagates a pulse through a fibre at all.",
 [SS,"src/pynlo/interactions/FourWaveMixing/global_variables.py"],[("RK4IP, NonlinearOperator, LinearStep, Calculate_expD, CalculateRamanResponseFT, FFT_t*","SSFM.py")],
 [("A","field in the fibre","SSFM.py:A")],["pulse_out.AW/AT","AW","AT"])
prop("C13", "Fibre propagation reports what happened and leaves its inputs alone",
 "The returned positions are the requested equally spaced points from zero to the fibre length, each returned field column is the field at the corresponding point in both domains, the last equals the returned pulse, which carries the input's grid and repetition rate. "
 "The input pulse and fibre are unchanged, a solver object can be reused for any sequence of different pulses and fibres with results equal to fresh ones, and position-dependent dispersion and nonlinearity are used at the start of each output interval when, and only when, reloading is requested.",
 ["histories","configurations"], "Every sequence of propagations on shared or fresh solvers with differing grids, fibres, step counts and reload settings.",
 "No test propagates a pulse through a fibre at all.",
 [SS,FI],[("propagate, load_fiber_parameters, setup_fftw","SSFM.py")],[("solver buffers","persist between calls","SSFM.py")],["z_positions","AW","AT","pulse_out","pulse_in","fiber"])
prop("C14", "Fibre dispersion and nonlinearity follow the fibre's description on any grid",
 "For a fibre described by Taylor coefficients (per metre or per kilometre), by a tabulated dispersion parameter or by a refractive-index table, the propagation constant returned on a pulse grid is the documented function of frequency, with value and slope removed at the pulse centre where documented, and the second derivative and D views agree with it. "
 "Position-dependent dispersion and nonlinearity are evaluated at the requested position, and repeated queries, other pulses and other fibres never change the answer or the caller's data.",
 ["inputs","histories"], "Every coefficient set, table, unit, pulse grid, position and sequence of loads and queries over several fibres.",
 "No test touches a fibre.",
 [FI,FC,JL],[("get_betas, Beta2, Beta2_to_D, get_gamma, load_*, generate_fiber, set_*_function","fiber.py"),("DTabulationToBetas","calculators.py")],
 [("fibre description","coefficients, tables, functions","fiber.py")],["get_betas","Beta2","Beta2_to_D","get_gamma"])
prop("C15", "Refractive-index caching is invisible",
 "With caching on or off, the index and wavenumber of a crystal on a pulse grid are those of that crystal at its current angle or temperature for that grid and polarisation axis. "
 "No sequence of queries, parameter changes, grid changes, toggling of caching or writes into returned arrays, over any number of crystals, changes that.",
 ["histories","configurations"], "Every history over several crystals, pulses, axes, temperatures, angles and caching switches.",
 "Tests use one crystal once, with caching off.",
 [CC,PP,AG],[("get_pulse_n, get_pulse_k, set_caching","CrystalContainer.py"),("set_T, set_theta, n","XTAL_*.py")],[("cache","index arrays keyed by grid","CrystalContainer.py:_cached_ns")],["get_pulse_n","get_pulse_k"])
prop("C16", "Phase matching conserves photon energy and solves the mismatch equation",
 "When one of the three wavelengths is left out, the poling-period and angle calculations fill in the one for which photon energies balance, report it, and return the period or angle at which the wavevector mismatch (minus the stated set-point) vanishes; an unmatchable request raises the documented error. "
 "Poling with a given period function gives half of each period one sign and half the other, starting with plus, at any position and in any order of queries.",
 ["inputs","histories"], "Every wavelength triple, temperature, crystal length and period function; every query order.",
 "No test computes a poling period, an angle or a sign pattern.",
 [PP,AG,AS,CC,DF],[("calculate_poling_period","XTAL_PPLN.py"),("phasematch","XTAL_AgGaSe2.py"),("poling, precompute_poling","DFG_integrand.py")],[],["returned period/angle/wavelength","poling sign"])
prop("C17", "Three-wave mixing couples exactly the bins that conserve photon energy",
 "The rate of change of each of pump, signal and idler is the sum over exactly those pairs of the other two fields' bins whose photon energies add up, with the documented phase of each, so a bin outside the reach of such pairs is never driven and no wrap-around across the grid edge occurs. "
 "The three rates balance in photon number per unit of mode area (so exactly in a waveguide of one mode area): photons lost by the pump equal photons gained by signal and by idler, at every position, for every poling sign.",
 ["inputs"], "Every triple of complex fields on every even grid, every position, crystal kind and beam geometry.",
 "Tests check three transforms with centred pulses; energy balance for arbitrary edge-heavy fields and each geometry is not sampled.",
 [DF],[("deriv","DFG_integrand.py"),("fftcomputer.conv/corr","DFG_integrand.py")],[("(Ap,As,Ai)","field triple","DFG_integrand.py")],["deriv output"])
prop("C18", "A mixing problem is set up consistently and its results read back faithfully",
 "The idler is centred at the exact difference frequency on the pump's grid, overlapping grids and grids of unequal length are refused with the documented error, and the pulses and crystal passed in are never modified. "
 "The results interface returns, for every saved position, each wave's field with the dispersion phase restored, on the right centre wavelength and size, in any order of queries and however often results are post-processed.",
 ["inputs","histories"], "Every combination of grids, centres and crystals; every query sequence.",
 "Tests set up one problem and read the results in one order.",
 [DF],[("dfg_problem.__init__, process_stepper_output, dfg_results_interface","DFG_integrand.py")],[],["idlr_in","ystart","exceptions","get_pump/get_sgnl/get_idlr/get_z"])
prop("C19", "Beam geometry relations hold at every position and index",
 "Confocal length, Rayleigh range, spot size, wavefront curvature and Gouy phase of a beam satisfy the Gaussian-beam identities at every position and refractive index, are symmetric about the focus as documented, and the field-to-power factor is the one for the spot area used. "
 "Matching operations make the stated parameters equal, the waist proposed for the best overlap along a crystal cannot be bettered and asking for it changes no beam, and the overlap of identical beams is one and of any two beams lies between zero and one, symmetric in the beams.",
 ["inputs"], "Every waist, position, index, wavelength grid and pair of beams.",
 "No test exercises the beam class on its own.",
 [BE,WG],[("OneDBeam","beam.py"),("OneDBeam_highV_WG","high_V_waveguide.py")],[],["calc_confocal","calculate_zR","calculate_waist","calculate_R","calculate_gouy_phase","rtP_to_a*","calc_overlap_integral","set_waist_to_match_*"])
prop("C20", "No object's state leaks into another object",
 "Pulses, fibres, crystals, beams, solvers, integrators and result objects are independent: constructing, configuring, using or reading one of them never changes any observable of another, reading an object changes nothing it shows, altering an array that was returned changes no object, and arrays or dictionaries given to a constructor or setter are never modified by the library nor followed when the caller alters them later. What an object shows depends only on the operations it was made and written by, as if nothing else had ever run in the process.",
 ["histories"], "Every history creating, configuring and using several instances of each kind in any order.",
 "Tests use one instance of each class.",
 [PB,FI,CC,PP,AG,DO,SS,DF,BE],[("instance versus class attributes","all classes")],[],["all public observables of the other instances"])
prop("C21", "The grating compressor applies a pure phase with its own stated dispersion",
 "The phase applied to a pulse leaves every spectral magnitude unchanged, is zero for zero separation, is proportional to the separation, and its derivative is twice the stated single-pass group delay up to a linear term, so its curvature is the stated group-delay dispersion. "
 "The stated dispersion orders are derivatives of one another, and the diffraction geometry satisfies the grating equation.",
 ["inputs"], "Every grating, angle, wavelength, separation, pulse and sequence of applications.",
 "Tests compare the group delay dispersion with tabulated numbers at a few points and never apply the phase to a pulse.",
 [GC],[("TreacyCompressor","grating_compressor.py")],[],["calc_theta","calc_dphi_domega","calc_dt_dw_singlepass","calc_compressor_gdd","calc_compressor_HOD","apply_phase_to_pulse"])
prop("C22", "Noise and coherence estimates follow the stated model and are repeatable",
 "Adding noise perturbs every spectral bin independently by the stated photon-noise amplitude and nothing else; with the random generator in a given state the result is repeatable. A vacuum pulse has independent phases uniform over the whole circle. "
 "A coherence calculation propagates independently noisy copies of an unmodified input under exactly the options requested, is repeatable for a given seed, and returns per position and frequency the modulus of the average normalised cross product over all ordered pairs of distinct trials, between zero and one.",
 ["inputs","histories"], "Every pulse, noise kind, trial count, seed and option set.",
 "No test calls them.",
 [PB,SS],[("add_noise","PulseBase.py"),("calculate_coherence","SSFM.py")],[],["AW before/after","g12W","results"])
prop("C23", "Gain models deliver the requested gain or power",
 "A flat gain is returned as that value on every grid point and no gain as zero; a fibre with a gain spectrum returns the spectrum interpolated in frequency, scaled by one factor so that the pulse leaves the fibre, in the small-signal sense, with the requested average power. "
 "Propagation to a power goal returns a propagation whose average output power is within the stated tolerance of the goal.",
 ["inputs","configurations"], "Every gain value or spectrum, length, pulse, repetition rate and goal.",
 "No test touches gain.",
 [FI,SS],[("get_gain","fiber.py"),("propagate_to_gain_goal","SSFM.py")],[],["get_gain","pulse_out.calc_epp()*frep"])
prop("C24", "Pulse diagnostics are the documented functionals of the field",
 "The weighted average frequency and wavelength are the spectral-intensity-weighted mean over the absolute frequency grid, the intensity autocorrelation is the correlation of the instantaneous power with itself on the pulse's grid length, and the spectrogram is the windowed transform for the stated gate, delays and frequencies. "
 "None of them changes the pulse.",
 ["inputs"], "Every field and grid.",
 "No test calls them.",
 [PB],[("calculate_weighted_avg_frequency_mks, calculate_weighted_avg_wavelength_nm, calculate_intensity_autocorrelation, spectrogram","PulseBase.py")],[],["returned arrays"])
prop("C25", "Velocities, delays and bandwidths of a crystal follow from its index",
 "For any crystal, axis and parameter setting: the group velocity is c/(n - l n'), the dispersion parameter is -(l/c) n'' (the sign of the fibre convention), the delay between two wavelengths is the difference of their travel times over the given length (the crystal's own when none is given), and the mixing bandwidth is the smaller of 0.886 pi over the group-index differences of signal and idler to the pump. "
 "With no axis given they refer to the crystal's default axis, arrays of wavelengths are answered element by element, and a poling period turned back into a signal wavelength yields, within the range asked for, a signal that this period phase matches whenever there is one.",
 ["inputs","histories"], "Every crystal (also one a user writes), axis, parameter history, wavelength and length.",
 "No test calls them.",
 [CC,PP,AG],[("calculate_group_velocity_nm_ps, calculate_pulse_delay_ps, calculate_D_ps_nm_km, calculate_D_fs_um_mm, calculate_mix_phasematching_bw, invert_dfg_qpm_to_signal_wl","CrystalContainer.py")],[],["returned numbers"])
prop("C26", "A mixing run obeys the exact laws of three waves, however it is carried out",
 "Integrating a mixing problem along a crystal reproduces the closed-form exchange of energy between three waves where one exists, and in a waveguide keeps the power and the photon balance at every position. "
 "The fields at a position do not depend on how the way there was split, on outputs asked for, on going further and back, on continuing in a new problem; in a crystal without dispersion they depend on the poling only through its integrated sign; and scaling fields against nonlinearity or area, turning phases consistently, shifting all fields in time or reversing the signs of nonlinearity and one wave changes the result in exactly that way.",
 ["inputs","histories"], "Every crystal, geometry, poling design, field, path of integration and combination of these changes.",
 "No stable test runs a mixing problem over a crystal and checks its result.",
 [DF,ST,DO],[("dfg_problem.deriv, poling, precompute_poling","DFG_integrand.py"),("ODEint.integrate, StepperDopr853","ode_solve")],[],["fields at the saved positions"])
prop("C27", "Fibre propagation solves the generalised nonlinear Schroedinger equation",
 "Each frequency bin of a pulse in a fibre changes with distance by half the fibre's gain plus i times its propagation constant, plus i gamma times the sum over all products of three bins with the same total frequency, each weighted by the glass's response at the difference frequency and, with self-steepening, by one plus the offset from the centre over the centre frequency. "
 "The response is one when Raman scattering is disabled and otherwise the documented one of the option chosen, with its own fraction and time constants. The field returned at every requested position solves this equation to the accuracy asked for, whatever Fourier library or data layout is used, initial step is given, outputs are requested or solver is reused.",
 ["inputs","configurations","histories"], "Every field, window, wavelength, fibre, Raman option and parameter set, and every order of use of a solver.",
 "Tests propagate one soliton and one dispersed pulse with Raman scattering and self-steepening disabled.",
 [SS,FI],[("SSFM.propagate, Advance, RK4IP/NonlinearOperator, CalculateRamanResponseFT","SSFM.py")],[],["AW and AT at every output","pulse_out"])
prop("C28", "Mixing runs written to a file come back as they were",
 "Runs added to a file under a parameter name are numbered in the order written. Reading gives, for any run asked for by number (the last one when none is given, or one after another until there are no more), the parameter value stored with it and, at any saved position (the last when none is given), pump, signal and idler pulses with exactly the fields saved there and that run's own points, time windows, centre wavelengths and repetition rate. "
 "Numbers of runs that do not exist are refused. Starting a parameter anew removes its runs and no others; writing leaves the solution, and reading leaves the file, unchanged, and several readers do not disturb each other.",
 ["histories","inputs"], "Every sequence of writing, closing, reopening, overwriting and reading, any number of runs and saved positions.",
 "No test touches the file format.",
 [RW],[("DFGWriter, DFGReader","multi_run_rw.py")],[],["pulses and parameters read back","contents of the file"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
