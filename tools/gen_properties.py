#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state': state} if state else {}),
                     observe_at=observe or [], hook_needed=hook)))

ALLPUB = ["src/fnft_nsev.c", "src/fnft_nsev_inverse.c", "src/fnft_nsep.c", "src/fnft_kdvv.c", "src/fnft_manakovv.c"]

prop("C01", "Memory safety and defined behaviour of every transform",
 "For every valid call of the five transforms (vanishing NSE, periodic NSE, KdV, Manakov, inverse NSE) with arrays of exactly the documented length, under any combination of documented options, the library only reads and writes memory inside those arrays and memory it owns, and executes no undefined operation of the C language. This includes calls where optional outputs are omitted, the arrays for the discrete spectrum are shorter than the number of eigenvalues, or the number of samples is tiny or not a power of two.",
 ["inputs", "configurations"],
 "all signals, sizes D, M, K, all option structs of the documented enums, all subsets of the optional outputs",
 "The 234 tests run a few fixed signals with oversized arrays and no sanitizer, so an out-of-bounds write or an undefined operation that happens to be harmless there passes.",
 ALLPUB + ["src/private/*.c", "src/3rd_party/kiss_fft/kiss_fft.c", "src/3rd_party/eiscor/*.f90"],
 [("temporary buffers sized from D, degree and upsampling factor", "fnft_nsev_base, fnft_kdvv_base, fnft_manakovv_base, fnft_nsep subroutines"),
  ("capacity handling of bound states / main and auxiliary spectrum", "K_ptr, M_ptr handling in src/fnft_*.c"),
  ("in-place products of polynomial matrices with look-ahead space", "src/private/fnft__poly_fmult.c")],
 ["ASan+UBSan reports of a build of /repo's sources while random and hostile calls run on exact-size heap blocks"])

prop("C02", "Results are a function of the arguments only",
 "The return code and all outputs of a transform depend only on the arguments of that call. They do not depend on values of memory that nobody initialised, on what the heap or stack contained before, on the input contents of pure output arrays, or on which other transforms (successful or failing) were called earlier in the process.",
 ["inputs", "histories", "configurations"],
 "all sequences of calls; all previous heap and stack contents; all option structs",
 "Each test is a separate process that makes one or two calls on a fresh heap, so stale or uninitialised memory is zero most of the time and no history is ever varied.",
 ALLPUB + ["src/private/fnft__akns_scatter.c", "src/private/fnft__poly_fmult.c", "src/private/fnft__nse_finvscatter.c"],
 [("every buffer is written before it is read", "all malloc sites in src/"),
  ("options are copied or restored", "default_opts, opts fields changed during subsampling / Richardson extrapolation")],
 ["MemorySanitizer reports; bitwise comparison of outputs under differently poisoned heaps, stacks and call histories"])

prop("C03", "Concurrent calls are independent of each other",
 "Calls made at the same time from different threads on separate output arrays, including calls that pass no options and calls that share read-only inputs, behave as if each had been made alone: there is no data race and every call returns what it returns in a single-threaded program.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of any number of threads calling any public routines",
 "No test starts a thread; races on shared defaults are invisible without concurrent callers and a race detector.",
 ALLPUB + ["src/private/fnft__errwarn.c", "src/private/fnft__poly_roots_fasteigen.c"],
 [("no mutable static state; defaults are only copied", "static default_opts in src/fnft_*.c"), ("thread-local printf pointer", "src/private/fnft__errwarn.c")],
 ["ThreadSanitizer reports; comparison of concurrent against sequential outputs"],
 state=[dict(name="default_opts", meaning="process-wide default options", where="src/fnft_*.c"), dict(name="printf pointer", meaning="sink of messages", where="src/private/fnft__errwarn.c")])

prop("C04", "Inputs, caller's options and defaults are never changed",
 "No call changes an array or scalar that is documented as a pure input (samples, time and frequency intervals, bound states and norming constants handed to the inverse transform), nor the options object of the caller, whether the call succeeds or fails. The default options returned by the library are the same at any time, whatever has been called before.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all calls, including calls that fail half-way because memory runs out or an option combination is rejected",
 "Tests never compare options or inputs before and after, and never reuse an options object after an error.",
 ALLPUB, [("options saved and restored around sub-calls", "opts->... assignments in src/fnft_*.c"), ("filtering box computed per call", "fnft_nsep.c bounding_box")],
 ["byte images of inputs/options before and after each call, read-only mapped inputs, images of *_default_opts() over call histories"])

prop("C05", "Memory exhaustion is reported, not suffered",
 "If any single memory request made by the library during a call fails, and likewise if all requests from some point on fail, the call returns to its caller with a nonzero error code: it does not crash, hang, report success with missing results, or leak what it had obtained. A later call with enough memory gives the normal result, with the options of the caller unharmed.",
 ["fault_sequences", "inputs", "configurations"],
 "every allocation index of every representative call, failing once or from there on",
 "No test injects an allocation failure; none of the error branches behind an allocation ever runs.",
 ALLPUB + ["src/private/*.c", "include/private/fnft__fft_wrapper.h"],
 [("CHECK_NOMEM / E_NOMEM and the leave_fun clean-up labels", "all allocation sites in src/"), ("sub-routine return codes are propagated", "CHECK_RETCODE")],
 ["malloc interposer counting and failing allocations, under ASan+LSan-style accounting of live blocks"])

prop("C06", "Every call gives back all memory it took",
 "After any call to a public routine has returned, with success or with an error, all memory that the call obtained has been released, so that an arbitrarily long sequence of calls runs in bounded memory.",
 ["inputs", "configurations", "histories"],
 "all valid and invalid calls, with all early-exit paths",
 "Tests exit after one or two calls and never count allocations; leaks on error paths and optional-output paths are never seen.",
 ALLPUB + ["src/private/*.c"], [("single clean-up label per routine", "leave_fun / release_mem in src/"), ("FFT plan destruction", "include/private/fnft__fft_wrapper.h")],
 ["balance of live heap blocks before/after each call from an allocation interposer"])

prop("C07", "Invalid arguments are rejected and outputs stay untouched",
 "A call whose arguments violate a documented precondition that the routine can see returns a nonzero error code instead of success. For the interface arguments themselves (too few samples or sample counts that must be powers of two and are not, empty or reversed time or frequency intervals, missing mandatory arrays or counters, a sign parameter other than plus or minus one, a discretization outside the enumeration, bound states given to the inverse transform that are repeated or not in the upper half plane) the output arrays, counters and options are left as they were. Other option values outside their enumeration and unsupported combinations, which may only be detected when the requested quantity is being computed, give an error as well. (The inverse transform documents that it may overwrite the spectrum array.)",
 ["inputs", "configurations"],
 "each documented precondition violated alone on otherwise random valid calls",
 "Hardly any test passes an invalid argument, and none looks at the outputs afterwards.",
 ALLPUB + ["include/fnft_*.h"], [("argument checks at function entry", "E_INVALID_ARGUMENT in src/fnft_*.c")],
 ["return code and byte images of all output arrays after each rejected call"])

prop("C08", "Errors and warnings are reported through the caller's channel",
 "Every nonzero return code of a public routine is one of the documented codes (or the negative of one), is accompanied by at least one error message sent to the message function currently installed in the calling thread, and a call that returns success emits no error message. The installed function is private to its thread and can be queried back; installing none silences the library completely, and nothing is ever written to standard output or standard error behind its back. A detected-but-dropped bound state or spectrum point because of short arrays is announced by a warning.",
 ["inputs", "configurations", "histories", "schedules"],
 "all calls, all installations of message functions in all threads",
 "Tests never install a message function and cannot see whether messages match return codes.",
 ["src/fnft_errwarn.c", "src/private/fnft__errwarn.c", "include/private/fnft__errwarn.h"] + ALLPUB,
 [("fnft__errmsg_aux / fnft__warn_aux", "src/private/fnft__errwarn.c"), ("thread-local pointer", "src/private/fnft__errwarn.c")],
 ["log of messages captured by an installed function, matched against the log of return codes; captured stdout/stderr"])

prop("C09", "NSE continuous spectrum obeys conservation law and output layout",
 "For the vanishing-boundary NSE with sign kappa, the computed scattering coefficients on the real axis satisfy |a|^2 + kappa |b|^2 = 1 up to the accuracy of the discretization (to rounding error for the unitary ones), and for the zero signal a=1, b=0. The reflection-coefficient, a-and-b, and combined outputs are the documented arrangements of the same numbers (reflection coefficient equals b/a, combined output is both one after the other), on the equispaced frequency grid whose first and last point are the given interval ends.",
 ["inputs", "configurations"],
 "all signals, both signs, all discretizations, all grids",
 "Tests compare a few closed-form spectra with loose error bounds; they never relate a and b or the three output types for arbitrary signals.",
 ["src/fnft_nsev.c", "src/private/fnft__nse_discretization.c", "src/private/fnft__akns_fscatter.c", "src/private/fnft__akns_scatter.c"],
 [("evaluation of transfer polynomials on the grid", "nsev_compute_contspec"), ("phase factors", "fnft__nse_discretization_phase_factor_*")],
 ["contspec array of fnft_nsev"])

prop("C10", "NSE continuous spectrum is accurate to the documented order",
 "For every discretization of the vanishing-boundary NSE the computed continuous spectrum equals, up to rounding, the scattering data of the documented numerical method (exponential splitting, commutator-free or exponential fourth-order method) for those samples, and as the number of samples grows it converges to the true continuous spectrum of the sampled signal at the documented order. In particular all discretizations agree in the limit, and the value at a frequency is the same however many grid points are requested.",
 ["inputs", "configurations"],
 "all smooth signals, all 28 discretizations, both signs, all frequencies the step size can resolve",
 "Tests use four closed-form signals at one or two D with error bounds that were measured on the implementation itself.",
 ["src/fnft_nsev.c", "src/private/fnft__akns_fscatter.c", "src/private/fnft__akns_scatter.c", "src/private/fnft__akns_discretization.c", "src/private/fnft__nse_discretization.c"],
 [("per-sample transfer polynomials", "fnft__akns_fscatter"), ("slow scattering", "fnft__akns_scatter_matrix"), ("non-equispaced resampling", "fnft__akns_discretization_preprocess_signal"), ("boundary corrections", "boundary_coeff, phase factors")],
 ["contspec against an independent product of matrix exponentials and against an independent high-order ODE solution"])

prop("C11", "NSE spectrum follows the exact symmetries of the equation",
 "The computed spectra transform exactly like the scattering problem: multiplying the signal by a constant phase multiplies b by the conjugate phase and leaves a and the eigenvalues alone; shifting the time window multiplies b by the corresponding exponential; complex conjugation mirrors the frequency axis; time reversal swaps the roles of left and right; rescaling time and amplitude together rescales frequency and eigenvalues; modulating the signal translates frequency to the order of the method.",
 ["inputs", "configurations"],
 "all signals, all discretizations, all parameters of the symmetry",
 "No test transforms two related signals and compares.",
 ["src/fnft_nsev.c", "src/private/fnft__nse_discretization.c", "src/private/fnft__akns_fscatter.c", "src/private/fnft__akns_scatter.c"],
 [("phase factors for a, b and b/a from T", "fnft__nse_discretization_phase_factor_*"), ("normalisation", "W in nsev_compute_contspec")],
 ["contspec, bound_states and normconsts of pairs of calls"])

prop("C12", "NSE discrete spectrum is the true discrete spectrum",
 "For focusing signals whose eigenvalues are known (multi-solitons, sech pulses, rectangles, and any signal through an independent evaluation of a), the bound states returned are zeros of a in the upper half plane, none is missing or duplicated, and their norming constants b and residues b/a' agree with independently computed values to the accuracy of the discretization. Norming constants, residues and the combined output describe the same eigenvalues in the same order, and eigenvalues plus continuous spectrum account for the energy of the signal.",
 ["inputs", "configurations"],
 "all signals with separated eigenvalues, all localization methods, all discretizations that support them",
 "Tests check a handful of sech and soliton signals; no independent check that returned points are zeros of a or that energy is conserved.",
 ["src/fnft_nsev.c", "src/private/fnft__akns_scatter.c", "src/private/fnft__poly_roots_fasteigen.c", "src/private/fnft__misc.c"],
 [("fast eigenvalue root finding and Newton refinement", "nsev_localize_bound_states / nsev_refine_bound_states_newton"), ("bidirectional computation of b", "fnft__akns_scatter_bound_states"), ("filter and merge", "fnft__misc_filter, fnft__misc_merge")],
 ["K, bound_states, normconsts_or_residues of fnft_nsev"])

prop("C13", "Bound-state filters, localization options and capacity are honoured",
 "The bound states returned for the NSE always lie in the region promised by the chosen filter (upper half plane, physically plausible region, or the caller's box), and none inside that region that the method detects is dropped unless the caller's array is full, in which case the count never exceeds the given capacity, exactly as many as fit are returned and a warning is issued. The advertised maximum number of bound states (fnft_nsev_max_K, fnft_manakovv_max_K) is always enough. Newton refinement returns only zeros reached from the caller's guesses, without duplicates when merging is requested; omitting the bound-state array skips the computation and reports zero, as does the defocusing sign.",
 ["inputs", "configurations"],
 "all signals, filters, localization methods, capacities from zero up, boxes, iteration limits and tolerances",
 "Tests use FULL filtering, default capacity D, and one subsampling setting.",
 ["src/fnft_nsev.c", "src/private/fnft__misc.c"], [("filtering", "fnft__misc_filter / fnft__misc_filter_inv / fnft__misc_merge"), ("capacity", "K_ptr in nsev_compute_boundstates")],
 ["K, bound_states against the unfiltered, unlimited result of the same signal"])

prop("C14", "Richardson extrapolation is the documented combination and pays off",
 "With Richardson extrapolation enabled, the NSE, KdV and Manakov transforms return the combination (2^p x_full - x_half)/(2^p - 1) of the results obtained from all samples and from every second sample, p being the order of the base method, for the continuous spectrum (in every output type), the bound states and a' at the bound states wherever both resolutions provide them. Norming constants keep their full-resolution value, residues are that value divided by the extrapolated a'. Layout, counts and capacities are as without extrapolation; bound states without a partner at half resolution, and frequencies that the half-resolution signal cannot resolve, keep their full-resolution value; and for smooth signals the error does not grow.",
 ["inputs", "configurations"],
 "all smooth signals, discretizations, output types",
 "A few tests check that the error bound of one sech signal shrinks; the combination itself and the residue/combined layouts are never checked.",
 ["src/fnft_nsev.c", "src/fnft_kdvv.c", "src/fnft_manakovv.c"], [("Richardson block", "end of fnft_nsev, fnft_kdvv, fnft_manakovv"), ("subsampling", "fnft__misc_downsample, preprocess_signal"), ("method order", "*_discretization_method_order")],
 ["outputs of one extrapolated call against two plain calls on full and subsampled signals"])

prop("C15", "KdV continuous spectrum is accurate and conservative",
 "For real signals with vanishing boundaries the KdV transform returns, for every discretization, scattering coefficients that satisfy |a|^2 - |b|^2 = 1, the symmetry a(-xi)=conj a(xi), b(-xi)=conj b(xi), and the time-shift law, and converge at the documented order to the true reflection coefficient of the Schroedinger operator with that potential. The three output types are the documented arrangements of the same numbers.",
 ["inputs", "configurations"],
 "all real signals, all 56 discretizations, all frequency grids not containing zero",
 "Tests use one sech-squared signal and a rectangle with implementation-derived bounds.",
 ["src/fnft_kdvv.c", "src/private/fnft__kdv_discretization.c", "src/private/fnft__kdv_fscatter.c", "src/private/fnft__akns_discretization.c"],
 [("change of basis between AKNS and S basis", "fnft__kdv_discretization_change_of_basis_matrix_*"), ("phase factors", "fnft__kdv_discretization_phase_factor_*")],
 ["contspec of fnft_kdvv against independent Schroedinger scattering"])

prop("C16", "KdV discrete spectrum is complete and correct",
 "For real signals the KdV transform returns eigenvalues on the positive imaginary axis that are zeros of a, finds all of them whenever the search grid is finer than their spacing, returns each once, and gives norming constants and residues matching independently computed values, in the documented layout. Newton refinement converges to the eigenvalue next to each guess; a short array bounds the number returned; omitting it skips the computation.",
 ["inputs", "configurations"],
 "all real signals with separated eigenvalues, both localization methods, all discretizations",
 "Tests use one sech-squared signal with fixed eigenvalues and guesses.",
 ["src/fnft_kdvv.c", "src/private/fnft__kdv_scatter.c", "src/private/fnft__akns_scatter.c"], [("grid search plus regula falsi / Newton", "kdvv_compute_boundstates, grid search in fnft_kdvv.c"), ("norming constants", "akns_scatter_bound_states")],
 ["K, bound_states, normconsts_or_residues of fnft_kdvv"])

prop("C17", "Manakov continuous spectrum is accurate and covariant",
 "For the Manakov equation with vanishing boundaries the computed coefficients satisfy |a|^2 + kappa (|b1|^2 + |b2|^2) = 1, converge at the documented order to the true spectrum for every discretization, reduce to the NSE spectrum when one component is zero or both are proportional, and rotate with the signal under constant unitary mixing of the two components. The three output types are the documented arrangements of the same numbers.",
 ["inputs", "configurations"],
 "all signal pairs, both signs, all supported discretizations, all grids",
 "Tests use sech and rectangle signals with proportional components only.",
 ["src/fnft_manakovv.c", "src/private/fnft__manakov_fscatter.c", "src/private/fnft__manakov_scatter.c", "src/private/fnft__manakov_discretization.c"],
 [("3x3 transfer polynomials", "fnft__manakov_fscatter"), ("slow 3x3 scattering", "fnft__manakov_scatter_matrix"), ("phase factors", "fnft__manakov_discretization_phase_factor_*")],
 ["contspec of fnft_manakovv against independent 3x3 scattering"])

prop("C18", "Manakov bound states are correct and respect the options",
 "The bound states returned for the focusing Manakov equation approximate the true eigenvalues (in particular those of the equivalent NSE signal for proportional components), do not depend on whether the continuous spectrum is requested in the same call, stay inside the region of the chosen filter, never exceed the given capacity, and are reported as zero for the defocusing sign or when the array is omitted.",
 ["inputs", "configurations"],
 "all signal pairs with separated eigenvalues, filters, localization methods, subsampling settings, capacities",
 "One sech test with one filter and large capacity.",
 ["src/fnft_manakovv.c", "src/private/fnft__manakov_discretization.c"], [("fast eigenvalue method on a subsampled signal", "manakovv_compute_boundstates"), ("filter/merge", "fnft__misc_filter, fnft__misc_merge")],
 ["K, bound_states of fnft_manakovv"])

prop("C19", "Periodic NSE main spectrum is the true main spectrum",
 "For (quasi-)periodic NSE signals every main spectrum point returned (without a warning about convergence) is a point where the independently computed monodromy matrix of one period, corrected by the phase shift, has trace plus or minus two (or the requested Floquet value), to the accuracy of the discretization and, for the pure grid search, of the grid; and every such point inside the requested region that is well separated is returned. The spectrum is invariant under translations and constant phases of the signal, moves with modulation, scales with amplitude and time, is symmetric under conjugation, and is real for the defocusing sign.",
 ["inputs", "configurations"],
 "all periodic signals, both signs, phase shifts, all localization methods, discretizations, filters",
 "Tests use plane waves and constants; no independent monodromy, no invariances.",
 ["src/fnft_nsep.c", "src/private/fnft__poly_roots_fftgridsearch.c", "src/private/fnft__poly_roots_fasteigen.c", "src/private/fnft__nse_scatter.c"],
 [("roots of the discriminant polynomial", "fnft_nsep.c gridsearch / subsample_and_refine"), ("Newton refinement", "refine_mainspec"), ("phase-shift handling by translation of lambda", "fnft_nsep")],
 ["K, main_spec of fnft_nsep against independent monodromy matrices"])

prop("C20", "Periodic NSE spines, auxiliary spectrum, counts and filters are honoured",
 "Auxiliary spectrum points returned for the periodic NSE (without a warning about convergence) are zeros of the corresponding entry of the independently computed monodromy matrix, spine points lie where the normalised trace is real and inside the requested Floquet range with the requested number of points per spine, and all points lie inside the caller's or the automatic filter region. Counts never exceed the capacities given on entry, short arrays give a warning and as many points as fit, and omitted arrays skip that part and report zero.",
 ["inputs", "configurations"],
 "all periodic signals, Floquet ranges, points per spine, capacities, filters, localization methods",
 "Tests use large arrays, one box, and compare plane-wave spectra by Hausdorff distance.",
 ["src/fnft_nsep.c", "src/private/fnft__misc.c"], [("spines by several Floquet values", "floquet_range, points_per_spine in fnft_nsep.c"), ("refine_auxspec", "fnft_nsep.c"), ("filtering", "fnft__misc_filter, fnft__misc_filter_nonreal")],
 ["K, M, main_spec, aux_spec of fnft_nsep"])

prop("C21", "Inverse NSE transform inverts the forward transform (continuous part)",
 "For admissible continuous spectra (reflection coefficient, b(xi), or b(tau)), either sign, any supported inversion method and discretization, the signal returned by the inverse transform has, when put back through the forward transform at the documented frequency interval, the prescribed continuous spectrum, and signals that are transformed forth and back are recovered, up to the accuracy of the discretization, of the oversampling factor and, for the iterative method, of its stopping rule. The frequency interval helper returns the grid the inverse expects.",
 ["inputs", "configurations"],
 "all admissible spectra and signals, M, D, T, methods, discretizations, oversampling",
 "Tests use one or two closed-form spectra with truncated comparison ranges.",
 ["src/fnft_nsev_inverse.c", "src/private/fnft__nse_finvscatter.c", "src/private/fnft__poly_specfact.c"],
 [("transfer matrix from contspec", "transfer_matrix_from_* in fnft_nsev_inverse.c"), ("layer peeling", "fnft__nse_finvscatter"), ("spectral factorisation", "fnft__poly_specfact")],
 ["q of fnft_nsev_inverse, contspec of fnft_nsev on it"])

prop("C22", "Inverse NSE transform adds exactly the prescribed bound states",
 "Prescribing eigenvalues with norming constants or residues, with or without a continuous spectrum or a seed signal, yields a signal whose discrete spectrum is the prescribed one (in any order of the list, and identical for norming constants and the equivalent residues), leaving the continuous spectrum of the seed unchanged apart from the known factor; a single eigenvalue gives the closed-form soliton. Lists with repeated eigenvalues or eigenvalues not in the upper half plane, and the defocusing sign together with eigenvalues, are rejected with an error.",
 ["inputs", "configurations"],
 "all lists of distinct eigenvalues in the upper half plane, all norming constants, orders, seeds",
 "Tests use fixed lists of two to seven eigenvalues in one order.",
 ["src/fnft_nsev_inverse.c"], [("Darboux transform", "add_discrete_spectrum, compute_eigenfunctions in fnft_nsev_inverse.c"), ("duplicate check", "sorting in fnft_nsev_inverse.c")],
 ["q of fnft_nsev_inverse against closed-form multi-solitons and forward transforms"])

prop("C23", "Fast polynomial products equal the exact products",
 "The fast product of n polynomials, of n 2x2 and of n 3x3 polynomial matrices, of any equal degree and any n including one, non-powers of two and lengths that force zero padding, equals the exact product (in the right order) up to rounding relative to the size of the factors, with the documented degree, with or without normalisation, where normalisation only moves a power of two into the returned exponent.",
 ["inputs"],
 "all degrees, numbers of factors, coefficients over many magnitudes, normalisation on and off",
 "Tests multiply a few fixed lists.",
 ["src/private/fnft__poly_fmult.c", "include/private/fnft__fft_wrapper.h", "src/3rd_party/kiss_fft/kiss_fft.c"], [("FFT based tree of products", "fnft__poly_fmult*")],
 ["result arrays against schoolbook products in extended precision"])

prop("C24", "Evaluation, FFT and signal utilities are exact",
 "Chirp-z evaluation, Horner evaluation and derivatives, forward and inverse FFT of any length, resampling by a fractional shift, subsampling, filtering by box, by its complement or by distance from the real axis, merging, Hausdorff distance, norms and small matrix products return the values of their mathematical definition up to rounding, for all sizes and arguments, and in-place filters keep exactly the elements of the stated set in order.",
 ["inputs"],
 "all lengths (including primes and one), all points, shifts, boxes and tolerances",
 "Tests use one or two fixed vectors per routine.",
 ["src/private/fnft__poly_chirpz.c", "src/private/fnft__poly_eval.c", "src/private/fnft__misc.c", "src/3rd_party/kiss_fft/kiss_fft.c", "include/private/fnft__misc.h"], [("Bluestein convolution", "fnft__poly_chirpz"), ("mixed-radix FFT", "kiss_fft.c"), ("FFT interpolation", "fnft__misc_resample")],
 ["results against naive definitions in extended precision"])

prop("C25", "Polynomial root finders return the roots",
 "The fast eigenvalue root finder returns, for every polynomial of its degree with well-scaled coefficients, as many roots as the degree, with small backward error (the polynomial rebuilt from them matches the input), also if leading or trailing coefficients vanish; the grid-search root finders return, within the given arc and capacity, exactly the simple roots on the unit circle that the grid resolves, refined to the accuracy that one interpolation step on the grid gives.",
 ["inputs"],
 "all degrees and coefficients, clustered and unit-circle roots, arcs and capacities",
 "Tests use two fixed polynomials.",
 ["src/private/fnft__poly_roots_fasteigen.c", "src/private/fnft__poly_roots_fftgridsearch.c", "src/3rd_party/eiscor/*.f90"], [("companion QR in factored form", "src/3rd_party/eiscor"), ("sign changes on an FFT grid with refinement", "fnft__poly_roots_fftgridsearch*")],
 ["roots against backward error and constructed roots"])

prop("C26", "Fast inverse scattering undoes fast forward scattering",
 "Feeding the transfer matrix computed by the fast forward scattering of any admissible sequence of samples into the fast inverse scattering returns these samples, for the NSE with both signs and for KdV, and for every supported discretization (2SPLIT2_MODAL exactly, 2SPLIT2A to its accuracy for KdV) and every power-of-two length; unsupported discretizations give an error. Spectral factorisation returns a polynomial without zeros inside the unit circle whose squared modulus on the unit circle is the prescribed one, to the accuracy that the oversampling factor allows.",
 ["inputs", "configurations"],
 "all sample sequences of bounded energy, all power-of-two lengths, all supported discretizations",
 "Tests use one deterministic sequence per discretization.",
 ["src/private/fnft__nse_finvscatter.c", "src/private/fnft__kdv_finvscatter.c", "src/private/fnft__poly_specfact.c", "src/private/fnft__nse_fscatter.c", "src/private/fnft__kdv_fscatter.c"], [("divide-and-conquer layer peeling", "finvscatter recursion"), ("Hilbert transform of log modulus", "fnft__poly_specfact")],
 ["q recovered against q put in"])

prop("C27", "Transfer matrices are unimodular, multiplicative and correctly differentiated",
 "For NSE, KdV and Manakov, the transfer matrices computed sample by sample have the exact determinant (one; for Manakov a phase fixed by the window length), compose when the signal is cut into pieces, match the independently computed product of matrix exponentials, and (where provided) their derivative with respect to the spectral parameter equals the derivative of the matrix, at real and complex spectral parameters. For Manakov they follow unitary rotations of the two components. The polynomial transfer matrices of the fast methods compose in the same way, are unimodular for the unitary splittings, and rescaling changes only the returned exponent. The maps between spectral parameter and polynomial variable invert each other, as do the KdV basis changes.",
 ["inputs", "configurations"],
 "all samples, step sizes, complex spectral parameters, discretizations, including zero samples and zero parameter",
 "Tests use one deterministic vector of 8 samples at a few real parameters.",
 ["src/private/fnft__akns_scatter.c", "src/private/fnft__nse_scatter.c", "src/private/fnft__kdv_scatter.c", "src/private/fnft__manakov_scatter.c", "src/private/fnft__akns_fscatter.c", "src/private/fnft__manakov_fscatter.c"], [("matrix exponentials and their derivative", "akns_scatter_U_BO / akns_scatter_U_ES4"), ("fast transfer polynomials", "*_fscatter")],
 ["result arrays of *_scatter_matrix and *_fscatter"])

prop("C28", "Each output is independent of what else is requested",
 "Within one transform, every returned quantity has the same value whether or not the other outputs are requested: continuous and discrete spectrum, main and auxiliary spectrum, norming constants and residues can be requested in any combination, with any grid containing the same frequency, with normalisation on or off, and with any larger sufficient capacity, without changing the values of the others beyond rounding (which the fast KdV methods amplify).",
 ["inputs", "configurations"],
 "all subsets of outputs, all grids sharing points, both normalisation settings, all sufficient capacities, for the four forward transforms",
 "Tests always request everything on one grid.",
 ["src/fnft_nsev.c", "src/fnft_nsep.c", "src/fnft_kdvv.c", "src/fnft_manakovv.c"], [("shared transfer matrix and preprocessing buffers", "fnft_*_base"), ("normalisation exponent W", "fnft__poly_fmult*, nsev_compute_contspec")],
 ["outputs of families of calls that differ only in what is requested"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
