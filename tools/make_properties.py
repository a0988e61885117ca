#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
F = "qetpy/core/_fitting.py"; N = "qetpy/core/_noise.py"; S = "qetpy/core/_of_nsmb.py"
IB = "qetpy/core/_ibis.py"; IVF = "qetpy/core/_iv.py"; U = "qetpy/utils/_utils.py"
C = "qetpy/cut/_cut.py"; SIM = "qetpy/sim/_sim.py"
DB = "qetpy/core/didv/_base_didv.py"; DF = "qetpy/core/didv/_didv.py"; DP = "qetpy/core/didv/_didv_priors.py"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Optimum filter delay fit is the global chi-square minimum",
 "For every trace, template, PSD, sample rate, coupling and template normalisation, the amplitude, time shift and chi-square returned by the optimum filter (with or without free delay, also at a chosen delay) satisfy: the chi-square is exactly the noise-weighted squared residual of the trace minus that amplitude times the template circularly delayed by that time, the amplitude minimises it at that delay, and no other amplitude at any other allowed whole-bin delay gives a smaller value. With interpolation the reported time is within one bin of the best whole-bin delay, its time, amplitude and chi-square lie on the parabolas through the three circularly neighbouring bins, and it works at every bin including the first and the last.",
 ["inputs", "configurations"], "all real traces/templates of any length (odd and even), positive symmetric PSDs, fs>0, coupling AC/DC, amplitude- or integral-normalised templates, delays anywhere in the (circular) trace",
 "Tests compare one noisy 32500-sample even-length trace against frozen numbers; minimality over all delays, odd lengths, DC coupling, edge bins and interpolation at the trace edge are never judged.",
 [F], [("ofamp_nodelay / ofamp_withdelay", F), ("ofamp", F), ("parabolic interpolation", F)], ["return values of the optimum-filter calls"])

prop("C02", "Optimum filter window and polarity constraints are honoured",
 "Whenever a delay window (its length, centre, inside or outside sense) and/or a pulse direction is requested, the returned delay lies in the requested set of bins, the returned amplitude has the requested sign, and the fit is the best among exactly the bins that satisfy all requests; with no constraint requested every bin competes. A window of k bins contains exactly k bins around the requested centre (clipped at the trace ends when searching inside) and outside is its exact complement, the filter object's delay, baseline and second-pulse fits return zero amplitude and delay with the chi-square of leaving that pulse out when no bin qualifies, and invalid window lengths, centres or directions raise ValueError.",
 ["inputs", "configurations"], "all traces, all window lengths 1..beyond trace length, even and odd, all centres in range, inside/outside, directions -1/0/1, for the with-delay, baseline and pileup fits",
 "Tests use windows 100 and 100-with-centre on a single trace; clipping, parity, empty candidate sets and combinations of window with polarity are unbounded combinations.",
 [F], [("window-restricted argmin", F), ("pulse direction mask", F)], ["returned delay and amplitude of each fit"])

prop("C03", "Optimum filter estimates are equivariant",
 "Scaling a trace by any factor scales the optimum-filter amplitude by that factor and chi-square by its square; circularly shifting a trace by k bins moves the fitted delay by k bins (circularly) and leaves amplitude and chi-square unchanged; a noiseless pulse of amplitude A delayed by k bins is recovered exactly with chi-square equal to zero. Under AC coupling (and in the baseline fit) adding any constant to the trace changes nothing about the fitted pulse, scaling the PSD scales chi-square inversely but leaves amplitude and delay alone, the zero-frequency PSD value is irrelevant under AC coupling, and rescaling the template by c divides the amplitude by c (or leaves an integral-normalised result unchanged).",
 ["inputs"], "all traces, scale factors of either sign, shifts, baselines, odd and even lengths, function and class interfaces",
 "Metamorphic relations over arbitrary inputs; tests contain no pair of related executions.",
 [F], [("FFT normalisation and roll", F), ("AC coupling removes zero frequency", F)], ["return values of paired calls"])

prop("C04", "Optimum filter object has no history: reuse equals a fresh object",
 "After any sequence of fit, diagnostic and resolution calls with any options, interleaved with any number of signal updates, every call on the optimum-filter object returns the same value that a freshly constructed object holding the current signal returns. Replacing the signal leaves nothing of the old one behind and does not alter the template, PSD or resolutions, and later changes to the caller's own arrays have no effect.",
 ["histories", "inputs"], "all interleavings of the public methods with signal updates, on any traces of the filter's length",
 "State caching bugs need particular call orders across signal updates; tests update the signal never or once with a fixed order.",
 [F], [("lazily cached filtered signal / chi-square arrays reset on update", F)], ["every method return value along the history"])

prop("C05", "Pileup fits return truthful, minimal two-pulse solutions",
 "For every trace, the two-pulse fits return amplitudes, times and a chi-square such that the chi-square is the noise-weighted residual of the trace minus both delayed pulses, the second pulse (given the first, or both amplitudes when the first pulse is held at the trace centre) minimises it, and no other allowed whole-bin delay of the second pulse does better. Two noiseless pulses are recovered exactly, the result is never worse than the single-pulse fit when the delay is unconstrained, and a first pulse given at any time in the trace, on or off the sample grid, is handled.",
 ["inputs", "configurations"], "all traces, first-pulse times negative/positive/fractional, windows inside/outside incl. ones containing the zero separation, AC/DC, odd/even lengths, class and function forms",
 "Tests pin numbers for one trace with the first pulse at its fitted grid time; off-grid, rounding-sensitive and coincident-pulse cases never run.",
 [F], [("ofamp_pileup_iterative", F), ("ofamp_pileup_stationary", F), ("ofamp_pileup", F)], ["return values"])

prop("C06", "Baseline fit jointly fits pulse and constant baseline",
 "For every trace, the pulse-plus-baseline fit returns the amplitude, time and chi-square of the joint least-squares fit of one delayed pulse and a constant over all whole-bin delays; with a constrained window the baseline is held at its unconstrained joint best fit and the best allowed delay is returned. The result is independent of any constant added to the trace and a noiseless pulse on a constant baseline is recovered exactly, under both AC and DC coupling.",
 ["inputs", "configurations"], "all traces, PSDs with positive zero-frequency value, couplings, windows, polarities, lengths",
 "One frozen trace is checked; joint optimality and baseline immunity are relational.",
 [F], [("ofamp_baseline", F)], ["return values"])

prop("C07", "Function, class, batch and single-trace optimum filters agree",
 "For identical inputs and options the function-style optimum filters, pileup filters and chi-square diagnostics give the same numbers as the object-style ones. Filtering a batch of traces gives, trace by trace, the same amplitudes, times and chi-squares as filtering each alone, in the same order, for any batch size.",
 ["inputs", "configurations"], "all traces, batches of 1..N, all options common to both interfaces (delay, window, inside/outside, coupling, integral normalisation, resolution)",
 "Tests compare the two interfaces on one trace with default options; batch mode and options are unexamined.",
 [F], [("ofamp vs OptimumFilter", F), ("batch diagonal selection", F)], ["return values of paired calls"])

prop("C08", "Chi-square diagnostics and resolutions match their definitions",
 "The no-pulse chi-square equals the noise-weighted power of the trace; the low-frequency chi-square equals the noise-weighted residual summed over exactly the frequencies with magnitude not above the cutoff (so it is non-negative, non-decreasing in the cutoff, and equals the full residual at Nyquist); both exclude the zero frequency under AC coupling. The energy resolution equals the standard deviation of no-delay amplitudes over noise having exactly that PSD, the time resolution equals the inverse root of the amplitude-scaled second frequency moment, and both respond to scaling of PSD, template and amplitude accordingly.",
 ["inputs", "configurations"], "all traces, amplitudes, (fractional) times, cutoffs from 0 to above Nyquist, PSDs, couplings, lengths",
 "Tests check one value of each.",
 [F], [("chi2_nopulse / chi2_lowfreq / chi2lowfreq / energy_resolution / time_resolution", F)], ["return values"])

prop("C09", "Non-linear pulse fits recover parameters and minimise chi-square",
 "The 1-, 2-, 3- and 4-pole pulse fits and the muon-tail fit, started near a well-separated noiseless pulse of known parameters, recover those parameters; on noisy pulses the returned parameters stay within the bounds, are a local optimum of the noise-weighted residual (the constant offset of the pulse being ignored by the pulse fit), and the reported chi-square equals that residual at the returned parameters, divided by the degrees of freedom for the pulse fit. Reported errors are the square roots of the diagonal of the reported covariance, which is the inverse curvature of the residual at the optimum; requesting an error scale s leaves the parameters alone, divides the errors by sqrt(s) and multiplies the chi-square by s. Each frequency-domain pulse model is the Fourier transform of its time-domain counterpart, and with amplitude scaling on the amplitude is the pulse height.",
 ["inputs", "configurations"], "pulse parameters over decades of amplitude and physical rise/fall times, fs, PSDs with and without tilt, error scales, with/without explicit guesses",
 "Tests check fits to one pulse; optimality and the meaning of errors are universally quantified over data.",
 [F], [("OFnonlin", F), ("MuonTailFit", F)], ["returned fit tuples"])

prop("C10", "Multi-template optimum filter is the joint least-squares optimum",
 "For any trace and any set of signal and background templates, the unconstrained multi-template optimum filter returns the amplitudes that minimise the noise-weighted residual at every trial signal delay and the delay with the smallest such chi-square within the search window; the returned chi-squares equal the residual of the returned amplitudes directly computed from the trace, and the background-only fit is the same with no signal. Any noiseless combination of the templates on the delay grid is recovered with zero chi-square, and results are linear in the trace for fixed delay.",
 ["inputs", "configurations"], "traces, 1 signal + 1..6 linearly independent backgrounds, delays and search windows anywhere incl. wrap-around, PSDs, trace lengths",
 "Tests pin the amplitudes of two stored examples.",
 [S], [("of_nsmb_setup / of_nsmb / of_mb", S)], ["returned amplitudes, time, chi-squares"])

prop("C11", "Constrained multi-template filter honours polarity and stays optimal",
 "The constrained multi-template optimum filter and its background-only counterpart never return an amplitude of a forbidden sign when polarity constraints apply, and at the returned delay the chi-square is the smallest achievable by any amplitudes meeting the constraints (up to round-off), the delay being the best one in the search window; it is never below the unconstrained chi-square and equal to it when the unconstrained solution is allowed. The returned chi-square is the residual of the returned amplitudes at the returned delay, and pulses at zero delay or at the ends of the search window are handled like any other.",
 ["inputs", "configurations"], "traces, templates with polarity constraints of either sign or none, delay windows including bin 0 and wrap-around, interpolated or whole-bin delays",
 "Tests pin one stored TTL example; sign constraints with active/inactive sets are combinatorial.",
 [S], [("of_nsmb_con bit-combination loop", S), ("_interpchi2", S)], ["returned amplitudes, time, chi-squares"])

prop("C12", "Multi-template building blocks are consistent for every trace length",
 "Template builders return exactly the requested shapes for every trace length: the slope-and-baseline set is a unit ramp and a unit constant, the TTL set is the pulse placed at every requested TTL phase plus the slope and baseline, with polarity constraints matching. The precomputed matrices equal the noise-weighted inner products of the (delayed) templates (whatever the zero-frequency bin of the PSD says, it is given the noise of the first frequency), are symmetric positive definite for independent templates, and their precomputed inverses invert them, for any number of backgrounds including one.",
 ["inputs", "configurations"], "trace lengths, TTL rates, sampling rates, number of backgrounds >=1, PSDs",
 "Tests use two lengths; floating-point length problems appear only for particular sizes.",
 [S], [("get_slope_dc_template_nsmb / maketemplate_ttlfit_nsmb", S), ("of_nsmb_setup / getPf / getPt / getiP", S)], ["returned arrays"])

prop("C13", "TES impedance and admittance models equal the small-signal theory",
 "For all physical parameters and frequencies, the complex impedance equals the one-, two- or three-pole Irwin-Hilton small-signal expression selected by the parameters given, admittance is its exact reciprocal, values at -f are conjugates of those at +f, and the models nest (zero third-block strength or zero loop gain reduces to the simpler model). Missing required parameters raise ValueError and the zero and infinite frequency limits are the documented resistances.",
 ["inputs", "configurations"], "all positive shunt/parasitic/TES resistances, beta, loop gains on both sides of 1, inductances, time constants over decades, scalar and array frequencies",
 "The models are only exercised implicitly through two simulated traces.",
 [DB], [("compleximpedance / complexadmittance", DB)], ["returned complex values"])

prop("C14", "Square-wave response is the periodic steady state of the admittance",
 "On a uniform time grid spanning whole drive periods (time counted from the start of the grid), the time-domain response to a square-wave bias of given peak-to-peak size equals the sum over the drive's non-zero harmonics below Nyquist of the admittance times the Fourier coefficients of the square wave that is low for the duty-cycle fraction and high after it, for every duty cycle. It is therefore real, zero-mean, periodic at the drive period and linear in the drive amplitude. A purely resistive circuit returns the zero-mean square wave itself divided by the resistance away from the edges, and the general duty cycle expression joins the half duty-cycle one continuously.",
 ["inputs", "configurations"], "duty cycles in (0,1), drive frequencies and amplitudes, 1/2/3-pole parameters, any number of samples and of whole periods in the grid",
 "Only used in tests to synthesise data with duty cycle 0.5.",
 [DB], [("squarewaveresponse / convolvedidv", DB)], ["returned time series"])

prop("C15", "dI/dV fit recovers the circuit it was simulated from",
 "For simulated noisy traces of a stable 1- or 2-pole circuit, or a 3-pole circuit with loop gain above one and a moderately strong third block (the settled part of the response showing the sign of the loop gain), at any duty cycle and small time offset, the dI/dV fit of that order started near the right time offset recovers the circuit's admittance over the fitted band, its zero-frequency dI/dV, its parameters and the time offset within their uncertainties. The reported cost is half the squared misfit of the reported parameters over the fitted frequencies and is not larger than that of the true circuit, and lower-order fits never have a lower cost. The result does not depend on trace gain, DC offset, trailing partial periods, trace order, common scaling of drive and response, a half-period flip (declared as such), which other orders were fitted before, or whether the fit starts from traces or from their averages.",
 ["inputs", "configurations", "histories"], "TES parameters in the physical range, shunt and normal resistances, drive frequencies, duty cycles, gains, time offsets, order of fits",
 "Tests fit two simulated parameter sets at duty 0.5.",
 [DF, DB], [("DIDV.dofit / _fitdidv / _guessdidvparams", DF), ("processtraces / _deconvolvedidv", DB)], ["fitresult dictionaries"])

prop("C16", "dI/dV fit results are internally consistent",
 "In every dI/dV fit result, the small-signal circuit parameters reproduce the same admittance as the raw fit parameters at every frequency, the errors are the square roots of the diagonal of the reported covariance, the zero-frequency dI/dV is the admittance at zero, and the reported fall times are the sorted decay times of the fitted response when its poles are real. The convenience initialisation from averaged dI/dV data gives the same fit as the traces it came from, and requesting an unfitted order does not return another order's result.",
 ["inputs", "configurations"], "all fitted parameter sets with 1, 2 and 3 poles, any rsh/r0/rp",
 "Tests assert only the fitted values for a stored case.",
 [DF, DB], [("_converttotesvalues / _convertfromtesvalues / _findpolefalltimes", DB), ("didvinitfromdata", DF)], ["fitresult dictionaries"])

prop("C17", "dI/dV trace processing averages whole periods correctly",
 "Processing raw square-wave traces (each divided by the trace gain and cut to a whole number of drive periods) yields the mean trace, its overall offset with the standard error over traces, and at every drive harmonic the mean over traces of the trace's Fourier coefficient divided by the drive's, with the standard error of its real and imaginary parts; frequencies the drive does not excite carry no weight in any fit. All of this is independent of trace order and of partial periods at the end, and adding a constant to all traces changes only the mean trace and the offset. Auto-resampling makes the number of samples per period an integer, incommensurate rates are otherwise refused, a half-period flip adds half a drive period to the time offset once, and processing again gives the same result.",
 ["inputs", "configurations", "histories"], "trace lengths with incomplete periods, number of traces, gains, dt0, half-period flips, sampling rates not commensurate with the drive",
 "Tests use one configuration.",
 [DB], [("processtraces", DB)], ["processed averages held by the object after processing"])

prop("C18", "dI/dV fit with priors is the maximum a posteriori solution",
 "The prior-informed dI/dV fit minimises the sum of half the squared data misfit (to the fitted shunt times the admittance) and half the quadratic prior penalty with the full prior covariance, parameters without prior variance being free: no nearby or true parameter set has a materially smaller posterior cost, very tight priors return the prior values, and weak priors return the admittance and cost of the data-only fit. Reported cost equals that posterior cost at the returned parameters, errors are the square roots of the diagonal of the reported covariance, priors are stored unmodified in the result, and repeating the fit gives the same result.",
 ["inputs", "configurations"], "TES parameters, prior widths over decades, correlated priors, 1/2/3 poles",
 "No test runs the priors fit at all.",
 [DP, DB], [("DIDVPriors.dofit / _fitdidv", DP)], ["fitresult dictionaries"])

prop("C19", "Resampling always makes the drive period a whole number of samples",
 "For every sampling rate and drive frequency, the suggested up/down factors turn the sampling rate into an exact integer multiple of the drive frequency (and are a no-op when it already is), and the resampled data keeps the signal: constants and slow sinusoids are preserved in amplitude and timing, and the reported new rate equals the old one times the factor ratio and matches the new length.",
 ["inputs"], "all positive rational rate/frequency pairs, arrays of any leading dimensions",
 "Tests sample three frequency ratios with a single prime factor.",
 [U], [("resample_factors / resample_data", U)], ["returned factors, data and rate"])

prop("C20", "Power spectral densities conserve power and fold consistently",
 "For any set of traces and any length and sample rate, integrating the PSD (two-sided or folded) over frequency gives the mean square of the traces; the folded PSD equals folding the two-sided one, frequencies are those of the transform, and PSDs scale with the square of the trace and are the average over traces. Noise generated from a PSD is real, has the requested number and length of traces and that PSD on average at every frequency, and smoothing a PSD keeps its length, symmetry and zero-frequency value and never increases with frequency magnitude.",
 ["inputs"], "trace sets of any number/length (odd, even), rates, PSD shapes incl. infinite zero-frequency bin",
 "Tests check a white-noise level on one length.",
 [N], [("calc_psd / foldpsd / smooth_psd / gen_noise", N)], ["returned arrays"])

prop("C21", "Multi-channel noise analysis is self-consistent",
 "For any multi-channel traces the noise object's PSD per channel is the average one-sided power spectrum, splits exactly into real and imaginary parts, and scales with the square of the inverse trace gain; cross-spectra are consistent with the PSD on the diagonal, symmetric between channel order, and bounded by the geometric mean. The correlation matrix is symmetric with unit diagonal and entries within [-1, 1], the correlated and uncorrelated noise of more traces than channels are non-negative and sum to the channel total, removing slopes makes results immune to linear drifts, and saving then loading returns an equal object.",
 ["inputs", "histories"], "1..4 channels, any trace count and length, gains, order of the calculate/remove calls",
 "No test touches the noise class.",
 [N], [("Noise class", N)], ["public attributes", "saved file in a scratch directory"])

prop("C22", "IB-IS analysis recovers the circuit it was simulated from",
 "For bias sweeps simulated from a shunt-biased TES with known offsets, shunt, parasitic and normal resistances, the IB-IS analysis recovers bias and current offsets, parasitic and normal resistances, and at every bias point the TES resistance and power, for every accepted shape of inputs (one or many channels and temperatures) and every form of the parasitic-resistance guess. Channels and temperatures do not influence one another, bias order does not matter beyond reordering the outputs, and unused superconducting data or explicitly given offsets are honoured.",
 ["inputs", "configurations"], "circuit parameters over physical ranges, 1-D/2-D/3-D inputs, scalar/array/absent guesses, superconducting fit on/off, polarity, given offsets",
 "Tests analyse one stored sweep and one configuration.",
 [IB], [("IBIS.analyze", IB)], ["public attributes after analysis"])

prop("C23", "IV analysis recovers the circuit and normal resistance",
 "For voltage-bias sweeps simulated from a load resistor and normal TES with a current offset, the IV analysis recovers the offset, normal resistance and, at every point, resistance R and power P obeying circuit equations exactly with the input voltages and the corrected currents, for every accepted input shape and with normal points found automatically or given. Channels and temperatures do not influence one another.",
 ["inputs", "configurations"], "load/normal resistances, offsets, 1-D/2-D/3-D inputs, auto or explicit normal indices",
 "One stored data set, frozen numbers.",
 [IVF], [("IV.calc_iv", IVF)], ["public attributes after analysis"])

prop("C24", "IV/IB-IS uncertainties follow first-order error propagation",
 "Every uncertainty reported by the IV and IB-IS analyses is a non-negative standard deviation that agrees with first-order propagation of the input uncertainties, stage by stage with the fitted line parameters and resistances treated as independent, and scales linearly when all input errors are scaled together. The reported errors of the fitted offsets and resistances are confirmed by the spread of results over repeated simulated noisy sweeps, and all uncertainties are reported in the same units and shapes as the quantities they belong to.",
 ["inputs", "configurations"], "circuit parameters, error sizes over decades, accepted input shapes",
 "Tests freeze a few error values.",
 [IB, IVF], [("_rtes_err / _ptes_err", IB), ("IV.calc_iv error block", IVF)], ["public error attributes"])

prop("C25", "Iterative outlier statistics are self-consistent and equivariant",
 "Iterative clipping returns a mask together with exactly the mean and standard deviation (or covariance) of the data it keeps, at convergence every kept point is within and every rejected point is outside the clipping distance, and it always terminates. Results commute with permuting continuous data and with a common scaling and offset (and, for covariance, with reordering channels and, once settled, with rescaling them separately). Far outliers making up less than the fraction the clip width can resolve are rejected while clean data mostly survives, unbiased estimates recover the moments of truncated Gaussian data in any units, and outlier removal by skewness rejects a far high-side tail with a mask of the input's length.",
 ["inputs"], "data of any size and distribution incl. constants, ties, outliers on either side, clip widths, dimensions",
 "Tests use a few Gaussian samples.",
 [C], [("iterstat / itercov / removeoutliers", C)], ["returned masks and statistics"])

prop("C26", "Automatic trace cuts keep good traces and remove bad ones",
 "On ensembles of quiet noise traces with a minority of clearly contaminated ones (pulses, pileup, sloped baselines, shifted baselines, anomalous noise), each automatic cut returns a boolean mask of one entry per trace that rejects the traces contaminated in the way that cut targets (towards high values when the skewness algorithm is used) and keeps most of the clean ones; the combined cut is the succession of its enabled parts, each applied to what the earlier ones kept. Masks do not depend on a common offset, positive gain or the order of traces (apart from reordering), and inputs are left unmodified. The muon cut selects exactly the traces that stay above the given fraction of their maximum at the requested number of samples after their peak, within the trace.",
 ["inputs", "configurations"], "ensemble sizes, noise levels, contamination types and fractions, dI/dV or noise mode, both outlier algorithms",
 "Tests run none of the cuts on traces.",
 [C], [("autocuts, pileupcut, slopecut, baselinecut, chi2cut, get_muon_cut", C)], ["returned masks"])

prop("C27", "TES noise model components obey the small-signal theory",
 "For every parameter set and frequency, each simulated noise component (load, TES Johnson, thermal fluctuation, squid; current- and power-referred; transition, normal and superconducting) is real, non-negative, even in frequency and equals the analytic small-signal expression; current-referred equals power-referred times the squared power-to-current responsivity, and the totals are the sums of the components. Scaling laws in temperature, resistance and squid noise hold, and evaluating with stored or explicitly given frequencies gives the same values. Loop gains other than one and non-zero frequencies are meant (positive ones for the squid terms).",
 ["inputs", "configurations"], "all physical parameters, frequency arrays and scalars",
 "No test touches the simulation module.",
 [SIM], [("TESnoise", SIM)], ["returned arrays"])

prop("C28", "Noise model loading from dI/dV results keeps the fitted parameters",
 "A noise model built from a dI/dV fit result has exactly the fitted circuit parameters (loop gain, inductance, thermal time constant, beta, resistances, operating current), so that its dI/dV equals the fit's admittance, for transition, superconducting and normal settings; invalid or incomplete requests raise errors (normal noise needs the normal resistance). The baseline energy-resolution estimate equals its defining integral, scales as the square root of the power noise and inversely with collection efficiency, worsens with slower collection, and is the same for one- and two-sided noise spectra.",
 ["inputs", "configurations"], "fit results from any 2-pole circuit, noise settings, frequency grids",
 "No test touches the simulation module.",
 [SIM], [("loadfromdidv / energy_res_estimate", SIM)], ["returned model and value"])

prop("C29", "Trace utilities preserve what they promise to preserve",
 "Shifting by whole bins moves samples and fills the gap, fractional shifts interpolate linearly between neighbours, and shifts larger than the trace leave only fill; templates peak at exactly one, start at the requested time and decay with the given time constants; low-pass filtering is linear, keeps constants, applies row by row and attenuates above the cutoff; aligning traces recovers injected relative delays for any sampling rate and filter setting. Making an array decreasing keeps length and already-decreasing data and yields a non-increasing result that touches the running minimum; filling negatives leaves non-negative entries alone.",
 ["inputs", "configurations"], "arrays of any size, shifts of any size and sign, rise/fall times, cut-off and sampling rates",
 "Tests use one example of each.",
 [U], [("shift, make_template, make_decreasing, fill_negatives, lowpassfilter, align_traces", U)], ["returned arrays"])

prop("C30", "Calibration utilities satisfy circuit and energy conservation",
 "Power computed from current traces satisfies the bias-circuit energy balance at every sample, the absorbed energy is the baseline-subtracted negative time integral of that power over the requested window for 1-, 2- or 3-dimensional traces, and a simulated saturated muon pulse (rising to the normal-state current from negative bias) returns the offset, quiescent current, resistance and power it was made from. The thermal conductance estimate inverts the power law with first-order errors (with or without covariance), offset estimates average whole periods and carry the standard error, and the slope of any linear data is recovered and equals the least-squares slope for any other data.",
 ["inputs", "configurations"], "currents, resistances, windows given in time or bins, traces of 1-3 dimensions, conduction exponents, covariances",
 "Tests use one constant example per function.",
 [U], [("powertrace_simple, energy_absorbed, get_offset_from_muon, estimate_g, calc_offset, slope", U)], ["returned values"])

prop("C31", "Analysis calls are deterministic and never modify their inputs",
 "No public analysis function, class construction or method modifies the arrays, lists or dictionaries its caller passed in, and calling it again with the same inputs (and the same random state) gives the same results. Optional plotting or verbose flags do not change numerical results and write files only where requested.",
 ["inputs", "histories", "configurations"], "all public functions and classes on valid inputs, repeated calls, plotting on/off",
 "Aliasing and in-place bugs are invisible to value assertions on a single call.",
 [F, N, S, IB, IVF, U, C, SIM, DB], [("defensive copies at entry", F)], ["byte fingerprints of arguments before and after each call"])

prop("C32", "Diagnostic plots show the analysed data in the stated units",
 "Every plotting function draws exactly the data, fits and error bars held by the object it is given, against the right frequencies, times or bias voltages and in the units of its axes, labelled with the right channels, temperatures and numbers of poles, and only for the requested selection. Noise spectra are drawn as amplitude densities without the zero-frequency bin, dI/dV fits are drawn at their own fitted time offset while dI/dV data are corrected by the offset of the best fit, and the curves of the noise model are those of the model passed in. Asking for quantities that have not been computed or for channels that do not exist draws nothing for them.",
 ["inputs", "configurations"], "all data sets, channel/temperature/pole selections, overlay or panel layouts, zooms, real/imaginary/absolute/phase views",
 "Tests only check that plotting calls do not raise.",
 ["qetpy/plotting/_noise_plotting.py", "qetpy/plotting/_iv_plotting.py", "qetpy/plotting/_ibis_plotting.py", "qetpy/plotting/_fitting_plotting.py", "qetpy/plotting/_of_nsmb_plotting.py", "qetpy/core/didv/_plot_didv.py"],
 [("plot_* functions", "qetpy/plotting"), ("_PlotDIDV", "qetpy/core/didv/_plot_didv.py")], ["curves, points, error bars and labels on the figure axes"])

prop("C33", "Saved figures and data sets hold what was asked to be saved",
 "When saving is requested, exactly the requested figures and objects are written: one readable file per figure in the directory that was given, carrying the name of the data set, never overwriting the figure of another quantity, channel, bias point or data set of the same call sequence, and showing the same curves as the figure that is returned or shown without saving. A saved noise object reads back equal to the one that was saved. Without a request to save nothing is written anywhere.",
 ["inputs", "configurations", "histories"], "all plotting functions with a save option, save paths, names, channel selections, repeated saves",
 "Tests never save anything, so the file side of plotting is not exercised.",
 ["qetpy/plotting/_noise_plotting.py", "qetpy/plotting/_iv_plotting.py", "qetpy/plotting/_fitting_plotting.py", "qetpy/plotting/_of_nsmb_plotting.py", "qetpy/core/didv/_plot_didv.py", N],
 [("lgcsave / savepath branches", "qetpy/plotting"), ("Noise.save", N)], ["files written, figures passed to savefig"])

prop("C34", "An option left out means its documented default",
 "Leaving out any option of a public function, class or method gives exactly what is obtained by writing out its documented default: the same numbers, the same object state, the same figures and files, or the same refusal. This holds in any combination of options, for any input, and however the request is written: arguments may be given by name or by position in the documented order.",
 ["inputs", "configurations"], "every public function, class and method, any subset of options left out, all workloads of the other properties",
 "Tests call most functions in one fixed way and never compare an omitted option with its documented value.",
 [F, S, IB, IVF, U, C, SIM, DB], [("signatures of the public API", "qetpy/__init__.py")], ["results and states of equivalent calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))
