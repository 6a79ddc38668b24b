P = 'TLA+ spec PulseLattice.tla (exact cyclotomic arithmetic): invariants model-checked with TLC; TLC-generated call histories replayed on real Pulse objects, all views compared with the specification state'
N = 'exhaustive over short histories of the specification, random sampling of long ones; small grids'
TECH = {k: (P, N) for k in ('C01','C02','C03','C04','C05','C06')}
T = 'TLA+ specification model-checked with TLC; behaviours generated by TLC replayed on the real code and compared step by step: '
TECH.update({
 'C07': (T + 'Shapes.tla (integer sample positions of every shape, width and power relations)', 'random sampling of constructor arguments; closed forms of the profiles evaluated in floating point'),
 'C08': (T + 'OdeDriver.tla (integration driver with save modes, step limits and dense output)', 'exhaustive for short integrations, random sampling of long ones; problems with exact step behaviour'),
 'C09': (T + 'RKTrees.tla (order conditions of all rooted trees up to order 8), StepControl.tla (controller in exact exponents), Poly.tla (dense output)', 'order conditions complete up to order 8; controller exhaustive to small depth and sampled beyond'),
 'C10': (T + 'OdeInterleave.tla (interleavings of integrations) against each problem alone in a process of its own', 'interleavings exhaustive for two short integrations, sampled for more'),
 'C11': (T + 'FibreSteps.tla (adaptive step machine under every class of local error); FibreTrace.tla validates recorded runs of the real solver', 'all error sequences to depth 6, sampled to depth 60'),
 'C12': (T + 'FibreLattice.tla (exactly computable propagation sessions) and FibrePlan.tla (meaning-preserving rewritings of a propagation)', 'sampled sessions and rewritings; nonlinear dispersive runs are compared with each other and with conservation laws, not with a closed form'),
 'C13': (T + 'FibreLattice.tla (sessions over shared solvers, pulses and z-dependent fibres) and FibrePlan.tla with shared solvers', 'sampled sessions; exact fields in the linear and the dispersionless case'),
 'C24': (P, N),
 'C14': (T + 'Fibre.tla (fibre descriptions as exact polynomials in frequency; value and slope removal; histories of descriptions and queries)', 'sampled histories; tabulated descriptions are compared with the polynomial they were tabulated from, to interpolation accuracy'),
 'C15': (T + 'CrystalCache.tla (histories of crystals, pulses, parameter changes and queries, with and without caching)', 'sampled histories; the refractive indices themselves come from an independent evaluation of the documented Sellmeier equations'),
 'C16': (T + 'Poling.tla (exact sign of the poling at rational positions for piecewise period functions) and PhaseMatch.tla (requests, outcomes and photon energies in exact integers)', 'sampled requests; wavevectors of the crystals come from an independent evaluation of the documented Sellmeier equations'),
 'C17': (T + 'Mixing.tla (exact sums over the photon-conserving bin triples, photon balance as an invariant)', 'sampled integer fields on small grids; balance per unit mode area; parametric terms (chi-2) only'),
 'C18': (T + 'DfgSetup.tla (problem set-up outcomes and histories of result queries)', 'sampled set-ups and query histories on small grids'),
 'C19': (T + 'Beam.tla (beam geometry in exact rationals, histories of refocusing and matching)', 'matching and identities exhaustive to depth 3, sampled histories'),
 'C20': (T + 'Isolation.tla (51 operations on 16 kinds of objects, what each writes, reads and creates, and the slice of the history an object may depend on; models with shared, aliased or written-back state must fail); every object is compared with a run of its slice alone in a fresh process', 'small operation sets exhaustive to depth 4, sampled histories of up to 40 operations; observables are public attributes and results on a private reference pulse'),
 'C21': (T + 'Compressor.tla (delay, phase and all derivatives as exact polynomials, identities checked over a finite field; histories of gratings, pulses and queries)', 'identities at 64 points of two finite fields, which decides polynomials of these degrees; sampled histories; numerical derivatives judged to their own accuracy'),
 'C22': (T + 'Noise.tla (random-generator states, noise events and ensembles over ordered pairs)', 'exhaustive to depth 4, sampled histories; the law of the noise by moments over thousands of draws'),
 'C23': (T + 'Gain.tla (gain spectra as exact cubics on integer frequencies, coverage and attainable powers; histories of fibres, pulses and propagations)', 'uniqueness of the factor and grid agreement exhaustive to small depth; sampled histories; powers by the library\'s own energy sum, only where that is monotone in the factor'),
 'C25': (T + 'Dispersion.tla (indices as exact polynomials; group index, dispersion, delay, bandwidth and their identities; histories of crystals, parameters and queries)', 'sampled histories; user-written polynomial crystals exactly, library crystals against an independent evaluation of the Sellmeier equations with its own derivatives'),
 'C26': (T + 'MixRun.tla (plans of a mixing run and the rewritings that keep its meaning: paths, poling designs of equal integrated sign, scalings, phases, shifts; meaning-preservation as an action property)', 'sampled plans; equivalent runs agree to 1e-5 of the field (solver tolerance 1e-8); closed form in Jacobi elliptic functions for single-bin waves; parametric terms (chi-2) only'),
 'C27': (T + 'Gnlse.tla (the equation as exact sums over products of three bins, every difference frequency and steepening weight; energy, photon-number and red-shift laws for every admissible response as invariants)', 'exhaustive laws for three-bin fields, sampled integer fields on grids of 4 to 16 bins; rate to 1e-5, whole propagations to 2e-5 against an independent integration of the equation; even grids'),
 'C28': (T + 'Archive.tla (files, parameters, runs, writers and readers with their cursors; nothing lost except by starting a parameter anew, as action properties)', 'small files exhaustive, sampled histories of up to 90 operations with up to 14 runs and 620 positions; files in a scratch folder'),
})
