"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=None):
    anchors = {"files": files, "mechanism": mechanism}
    if state:
        anchors["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": anchors})


prop("P01", "LJH files are read back exactly as recorded",
     "Reading an LJH pulse or noise file returns exactly the complete records it holds, whatever the header version, record length or file tail: "
     "every sample (bit-inverted only when the header asks for it), the row/subframe count and the microsecond timestamp, while a partial last record is ignored. "
     "The answer is the same through every access path (one record, slice, index list, whole column, data-set methods), and the header quantities "
     "(timebase, samples, presamples, row number, counts) follow the file-format rules.",
     ["inputs", "configurations"],
     "All header versions (2.0/2.1/2.2), header fields, record lengths 8..300, 0..60 records, ragged tails, line endings, inversion, all slices and index lists.",
     "The tests read a handful of fixed files with one header layout; whether bytes are mapped to records correctly must hold for every header, record size, tail and slice.",
     ["mass/core/files.py", "mass/core/channel.py", "mass/core/ljh_util.py", "doc/LJHfiles.md"],
     ["LJHFile header parsing and record dtype", "LJHFile.read_trace / alldata / __getitem__", "MicrocalDataSet.read_trace/_from_ljh", "NoiseRecords"])
prop("P02", "Rewriting LJH files preserves the pulse records",
     "Every tool that writes LJH data from LJH data (copying chosen records, appending, truncating by count or time, merging files, transforming samples) produces a readable file "
     "holding exactly the selected records in order, with samples, row/subframe counts and timestamps unchanged except for the requested transformation. "
     "Record length, presample count, timebase and row geometry read back the same from the result as from the source, however often the tool is chained, and the source is left untouched.",
     ["inputs", "histories"],
     "All record selections, cut points, chains of copies/appends and header styles, for LJH 2.1 and 2.2 sources.",
     "Tests copy two or three hand-picked selections and compare a few values; the guarantee is over every selection, timestamps, header style and chain of rewrites.",
     ["mass/core/ljh_modify.py", "mass/core/files.py", "bin/ljh_truncate", "bin/ljh_merge"],
     ["ljh_copy_traces, ljh_append_traces, LJHModify", "ljh_truncate command and helper", "ljh_merge command"])
prop("P03", "File-name helpers select, order and pair channels correctly",
     "From any set of LJH file names the helpers report each file's channel number and base name, sort files by channel number, find exactly the files that match a pattern, "
     "honour inclusion, exclusion and even/odd selections, and pair pulse with noise files so that what remains is exactly the channels present in both lists, in step. "
     "Names that are not LJH channel files are rejected or ignored as documented, never mis-assigned.",
     ["inputs", "configurations"],
     "All sets of directory/base/run/channel names with duplicates, zero padding, odd extensions and unpaired channels.",
     "Tests check a few literal names; ordering and pairing must hold for every set of names.",
     ["mass/core/ljh_util.py", "mass/core/channel_group.py"],
     ["ljh_channum, ljh_basename_channum, ljh_sort_filenames_numerically, filename_glob_expand", "remove_unpaired_channel_files, ljh_get_aux_fname, output_basename_from_ljh_fname"])
prop("P04", "Cuts are independent named conditions with exact good/bad masks",
     "At every point of a history of registering and unregistering cut fields, applying boolean, range and categorical cuts and clearing them, each pulse's state in each field is exactly what the operations on that field set, no other field is disturbed, and a field newly registered starts clear. "
     "The good, bad and category-selection masks and the cut summary agree with that state for any choice of fields, "
     "and everything is the same after the data file is closed and reopened.",
     ["histories", "inputs"],
     "All operation sequences over boolean fields and categorical fields, parameter ranges, NaN/inf data, and reopen points.",
     "Tests run a few short scripted sequences on one field at a time; bit-field interference and persistence need arbitrary histories.",
     ["mass/core/cut.py", "mass/core/channel.py", "mass/core/channel_group.py", "doc/Cuts.md"],
     ["Cuts.cut / select_category / good / bad / clear_cut", "CutFieldMixin register/unregister and HDF5 cut descriptions", "MicrocalDataSet.cut_parameter, good, bad, apply_cuts"],
     [{"name": "per-pulse cut bit mask", "meaning": "one bit per boolean field, bit groups per categorical field"}])
prop("P05", "Pulse summaries equal their definition, however the data are chunked",
     "For every record the stored summary quantities (pretrigger mean, rms and slope-related values, peak index and value, pulse average and rms, promptness, rise time, post-peak derivative, time stamp, row/subframe count) equal the values computed from that record alone by their definitions. "
     "They do not depend on how the file is cut into segments, on the other records or channels, or on whether the compiled or the pure-Python path is asked for (up to that path's documented differences).",
     ["inputs", "configurations"],
     "All record shapes (nPresamples, nSamples, peak positions including the edges, constant and saturated records, inverted data), segment sizes and peak-time options.",
     "Tests compare a couple of recorded files against stored numbers with one segmentation.",
     ["mass/core/cython_channel.pyx", "mass/core/channel.py", "mass/core/analysis_algorithms.pyx"],
     ["summarize_data_cython", "MicrocalDataSet.summarize_data", "estimateRiseTime, compute_max_deriv"])
prop("P06", "Stored analysis results survive reopening and are not silently changed",
     "Whatever has been computed for a data set (summaries, average pulse, filters, filtered values, drift and phase corrections, cuts, calibrations, experiment states) reads back identically after the files are closed and reopened. "
     "Running a completed step again without forcing it changes nothing, and forcing it reproduces the same result on the same data. "
     "Result files are kept beside the run's data and named after the run unless told otherwise, and a group restored from them has the same channels, in numerical order, each with its own pulse and noise files.",
     ["histories", "crash_points"],
     "All orders of analysis steps, repeat calls and close/reopen points, on synthetic channels.",
     "Tests run one fixed pipeline in one process and rarely reopen the result file.",
     ["mass/core/channel.py", "mass/core/channel_group.py", "mass/core/optimal_filtering.py", "mass/core/phase_correct.py", "mass/calibration/energy_calibration.py"],
     ["HDF5-backed attributes of MicrocalDataSet", "filters_to_hdf5/filter_from_hdf5", "forceNew handling (show_progress and cached checks)"])
prop("P07", "A bad or failing channel never affects the good ones",
     "In a group of channels, marking any channel bad (by hand or because one of its analysis steps failed) removes exactly that channel from the good list, records the reason, and leaves every other channel's results identical to those obtained by analysing it alone. "
     "Marking it good again restores it, and the set of bad channels persists when the group is reopened.",
     ["histories", "fault_sequences"],
     "All groups of 1..5 channels, sets and orders of bad marks, and failures injected in any step of any channel.",
     "Tests mark one channel bad in one fixed group.",
     ["mass/core/channel_group.py", "mass/off/channels.py"],
     ["TESGroup.set_chan_bad/good, first_good_dataset, iter_channel_numbers, _add_group_loop", "ChannelGroup markBad handling"])
prop("P08", "Optimal filters meet their algebraic constraints",
     "Every filter computed from a model pulse and a noise description (autocorrelation, spectrum, or ARMA whitener, which supersedes the autocorrelation) responds to the model pulse, rising or falling, with exactly the pulse's height, gives zero response to a constant (and, for arrival-time-safe filters, to the arrival-time derivative), puts zero weight in the samples cut off at either end, and its reported variance equals the noise covariance form of its weights. "
     "Among filters meeting the constraints it has the least variance, and the predicted resolution follows from that variance and the pulse height; band-limiting removes what it says it removes. "
     "Applying and solving with a whitener (or its transpose) are inverses of each other, equal its explicit matrix, and turn the ARMA noise white.",
     ["inputs", "configurations"],
     "All pulse shapes, positive-definite noise autocorrelations/spectra/ARMA models, record lengths of both parities, cut_pre/cut_post and band-limit options.",
     "Tests check one or two pulse shapes with stored variances, and never a Fourier filter.",
     ["mass/core/optimal_filtering.py"],
     ["FilterMaker.compute_5lag/compute_ats/compute_fourier, _normalize_signal, bracketR, band_limit", "ToeplitzWhitener"])
prop("P09", "Filtered pulse heights are the filter's projection of each record",
     "Filtering a channel gives, for each record, the height and arrival phase defined by projecting that record on the filter: the parabola through five lags (or the arrival-time-safe pair), linear in the record and independent of segmentation, of other records, and of the compiled or pure-Python path. "
     "Records recorded one sample late are handled by the documented shift, optional transforms are applied relative to the pretrigger mean, and OFF five-lag values equal the value obtained from the corresponding reconstructed records.",
     ["inputs", "configurations"],
     "All filters, records, segment sizes, shift flags, transforms, and both filter families.",
     "Tests filter one synthetic channel and compare means.",
     ["mass/core/channel.py", "mass/core/analysis_algorithms.pyx", "mass/off/fivelag.py", "mass/off/channels.py"],
     ["filter_data_5lag_cython", "MicrocalDataSet.filter_data/_filter_data_segment_*", "fivelag filtering of OFF coefficients"])
prop("P10", "Noise spectra and autocorrelations are consistent estimates",
     "The power spectral density and autocorrelation computed from noise records equal their defining averages over the records actually used, keep the normalisation in which the integrated spectrum is the noise variance, and do not depend on record segmentation; constants are removed. "
     "Cut or excluded noise records do not contribute, and the results are stored with the frequency step implied by the sample time.",
     ["inputs", "configurations"],
     "All noise record sets, lengths, time bases, lag counts, windows and data-segment sizes.",
     "Tests use one noise file and check a few values.",
     ["mass/core/channel.py", "mass/mathstat/power_spectrum.py"],
     ["NoiseRecords.compute_power_spectrum/compute_autocorrelation", "MicrocalDataSet.compute_noise"])
prop("P11", "Gain and phase corrections do exactly their stated correction",
     "Drift correction picks a slope and offset from good pulses only, leaves pulses at the median indicator unchanged, and corrects each pulse by the stated linear factor; phase and time-drift corrections apply the fitted curve in the same way to every pulse, are unaffected by the order of pulses, and give the same answer after being saved and reloaded. "
     "On data with a known linear gain drift the correction removes it, and on data with none it changes nothing significantly.",
     ["inputs", "configurations"],
     "All sets of pulse heights and indicators (spread, offsets, line counts), cut patterns and orders.",
     "Tests check one seeded random example per algorithm.",
     ["mass/core/channel.py", "mass/core/analysis_algorithms.pyx", "mass/core/phase_correct.py", "mass/off/channels.py"],
     ["drift_correct, MicrocalDataSet.drift_correct, PhaseCorrector, phase_correct", "time_drift_correct", "off learnDriftCorrection / learnPhaseCorrection / learnTimeDriftCorrection"])
prop("P12", "External-trigger delays are the true nearest arrivals",
     "For every pulse, the time since the last external trigger and until the next one equal the exact integer differences to the nearest triggers before and after it, with the documented sentinel when there is none, for any number of triggers and pulses. "
     "The group- and channel-level quantities derived from them use the same clock units as the trigger list and are independent of how the pulses are batched.",
     ["inputs"],
     "All sorted 64-bit trigger lists (empty, single, equal times, far apart) and pulse times.",
     "The tests use one short list.",
     ["mass/core/analysis_algorithms.pyx", "mass/core/channel_group.py", "mass/core/channel.py", "mass/off/channels.py"],
     ["nearest_arrivals", "TESGroup.calc_external_trigger_timing", "ChannelFromOFF external trigger columns"])
prop("P13", "Each pulse is assigned to the experiment state active at its time",
     "Every pulse belongs to exactly the experiment state whose interval contains its nanosecond time, with repeated labels, excluded or ignored labels and pulses before the first state treated as documented. "
     "Reading a growing state file incrementally together with growing data gives the same assignment as reading everything at once, and selecting by state returns precisely those pulses in both the LJH and OFF analyses.",
     ["histories", "inputs"],
     "All label sequences (repeats, START/STOP/PAUSE/IGNORE), boundary times down to 1 ns, and split points of incremental updates.",
     "Tests use one state file with distinct labels and a single incremental update.",
     ["mass/off/experiment_state.py", "mass/off/channels.py", "mass/core/cut.py", "mass/core/channel.py"],
     ["ExperimentStateFile.parse/calculateAliasedLabels/calcStatesDict", "CutFieldMixin state category", "MicrocalDataSet / ChannelFromOFF state selection"])
prop("P14", "Flux-jump removal and waveform algorithms obey their definitions",
     "Flux-jump correction changes each value only by a whole number of flux quanta, restores a track that jumped by whole quanta with bounded noise to the smooth one, and leaves a jump-free track alone. "
     "Maximum-derivative, rise-time, smooth-histogram and low-pass computations agree with their defining formulas for every admissible input and never modify it.",
     ["inputs"],
     "All value tracks, jump patterns, quanta, kernels, record lengths of both parities.",
     "Tests use single seeded tracks.",
     ["mass/core/analysis_algorithms.pyx", "mass/core/utilities.py"],
     ["correct_flux_jumps and helpers", "compute_max_deriv, estimateRiseTime, filter_signal_lowpass, HistogramSmoother"])
prop("P15", "Energy calibration curves interpolate and invert consistently",
     "A calibration converts pulse height to energy by a curve that passes through its points (exactly, or within the stated uncertainty when smoothing), is zero at zero for the curve types through the origin, and is continuous; energy-to-pulse-height is its inverse and the reported slope is its derivative. "
     "This holds for every curve type and combination of exact and approximate curves, for scalar and array input alike, the conversion of an array being the conversion of each element.",
     ["inputs", "configurations"],
     "All sets of 1..8 monotone anchor points, curve types, approximate or exact, nonlinearity settings, scalar/array/NaN inputs.",
     "Tests sample a few curve types with one point set and loose tolerance.",
     ["mass/calibration/energy_calibration.py", "mass/mathstat/interpolate.py"],
     ["EnergyCalibration.__call__/ph2energy/energy2ph/ph2dedph", "EnergyCalibrationMaker-like curve construction"])
prop("P16", "Calibration point sets follow every edit and survive storage",
     "Through any history of adding, replacing, removing (by name, prefix or energy) and copying calibration points, the calibration holds exactly the points the history implies, sorted consistently across its attributes, and its curve depends only on that final set and the settings. "
     "Saving to and loading from the results file gives back the same points, settings and curve; a copy is independent of its original.",
     ["histories"],
     "All edit histories with named lines and numeric energies, near-duplicate energies, settings changes and store/load points.",
     "Tests add, remove and save one fixed set.",
     ["mass/calibration/energy_calibration.py"],
     ["add_cal_point, remove_cal_point_*, copy, save_to_hdf5, load_from_hdf5"],
     [{"name": "calibration anchor list", "meaning": "pulse heights, energies, uncertainties and names"}])
prop("P17", "Peak finding and line assignment return the best legal assignment",
     "Peak finding returns the local maxima of the smoothed spectrum in order of prominence and is unaffected by the order of the data; automatic assignment picks, among all order-preserving matches of candidate peaks to the named lines, one with the least score, whatever order the lines are given in. "
     "Fit ranges built around lines are centred, never overlap another named line beyond the documented rule, and clip to the limits given.",
     ["inputs"],
     "All peak lists, line lists, smoothing scales and tie cases small enough for exhaustive comparison.",
     "Tests check one or two spectra with well-separated peaks.",
     ["mass/calibration/algorithms.py"],
     ["find_local_maxima, find_opt_assignment, build_fit_ranges, multifit"])
prop("P18", "Line shapes are probability densities and fit models conserve counts",
     "Every spectral line in the library is a non-negative density whose integral is one and which is the sum of its components; random draws follow it, and its peak is where it says. "
     "A fit model built from a line predicts counts per bin whose total is the requested integral (times efficiency) plus the stated background, for any bin width, energy scale, tails, prefix or composite sum, and the fit residual is zero exactly when data equal the model, otherwise the signed Poisson likelihood distance.",
     ["inputs", "configurations"],
     "All registered and quick lines, resolutions, scales, bin widths, tail fractions, backgrounds and efficiency curves.",
     "Tests fit a few lines with one binning; tails are tested only at unit scale.",
     ["mass/calibration/fluorescence_lines.py", "mass/calibration/line_models.py", "mass/mathstat/special.py"],
     ["SpectralLine.pdf/components/rvs", "GenericLineModel, _smear_exponential_tail, MLEModel._residual", "voigt"])
prop("P19", "Toeplitz solver agrees with dense linear algebra",
     "For every well-conditioned Toeplitz matrix, symmetric or not and of any size from one up, solving and multiplying agree with the dense matrix, in float and integer input, with real or several right-hand sides as documented, and without changing the inputs. "
     "Solver objects can be reused for any number of right-hand sides with the same result as a fresh one.",
     ["inputs"],
     "All sizes 1..60, symmetric/asymmetric, dtypes and right-hand sides with dense condition number bounded.",
     "Tests use a few sizes and seeded matrices.",
     ["mass/mathstat/toeplitz.py"],
     ["ToeplitzSolver.__call__, mult"])
prop("P20", "Robust statistics equal their brute-force definitions",
     "The trimmed and robust estimators (median absolute deviation, shorth range and location, Qscale, high median, bisquare and Huber means) equal what direct evaluation of their definitions gives, and are equivariant: shifting and scaling the data shifts and scales the location and scales the spread. "
     "They do not depend on data order and never modify the caller's data.",
     ["inputs"],
     "All samples of 1..60 values incl. ties, outliers, integer and float types, weights; larger samples for relations.",
     "Tests use random normal samples of a few sizes.",
     ["mass/mathstat/robust.pyx"],
     ["median_abs_dev, shorth_range, shorth_information, high_median, Qscale, bisquare_weighted_mean, huber_weighted_mean"])
prop("P21", "Entropy estimates equal the integrals that define them",
     "The exact Laplace entropy and cross-entropy of any sample equal the integral of the kernel density estimate that defines them, the binned approximations converge to them, and they are invariant under sample order and translation and shift by the log of the scale under rescaling. "
     "No valid sample, however far apart or degenerate its values, makes them fail or return a non-number.",
     ["inputs"],
     "All samples of 1..40 values (and around 200,000, where the mode of calculation changes), kernel widths from tiny to huge relative to gaps, exact and approximate modes.",
     "Tests compare a few seeded samples.",
     ["mass/mathstat/entropy.pyx"],
     ["laplace_entropy, laplace_cross_entropy, laplace_KL_divergence"])
prop("P22", "Splines interpolate, smooth, differentiate and never touch inputs",
     "Interpolating splines pass through their knots, are natural or meet the stated end slopes, are twice continuously differentiable, and reproduce straight lines (cubics where stated); reported derivatives are the derivatives of the curve. "
     "Smoothing splines meet the chi-squared limit with the least curvature, reproduce straight lines, extend linearly, and report consistent values, derivatives and variances for scalars and arrays in any order; no call changes its arguments.",
     ["inputs"],
     "All strictly increasing knot sets of 2..15 points, uncertainties, end conditions, derivative orders and query points including the ends and outside.",
     "Tests use a few smooth functions.",
     ["mass/mathstat/interpolate.py"],
     ["CubicSpline, NaturalBsplineBasis, SmoothingSpline, SmoothingSplineLog, GPRSpline", "k_spline, CubicSplineFunction"])
prop("P23", "Function algebra evaluates and differentiates correctly",
     "Any expression built by adding, subtracting, multiplying, dividing, raising to powers and composing the library's functions and numbers evaluates to the same combination of the parts' values, and its derivative equals the true derivative at every point of its domain. "
     "Simplification of expressions never changes their value.",
     ["programs", "inputs"],
     "All expression trees up to depth 4 over the function classes and numeric operands on either side.",
     "Tests check single combinations.",
     ["mass/mathstat/derivative.py"],
     ["Function/ExprMeta operators and simplification, derivative()"])
prop("P24", "Power spectrum accumulation is normalised and order-free",
     "For any time series, the accumulated spectrum equals the average of the windowed periodograms of its segments in the documented normalisation, so that with no window it integrates to the mean square; it is independent of the order of adding segments, of copying, and additive across accumulators. "
     "Frequencies match the spectrum bins, and overlapping and averaged variants equal their explicit definition.",
     ["inputs", "histories"],
     "All segment lengths, segment counts, sample times, windows (named or given as values) and accumulation orders.",
     "Tests use one sine and one random series.",
     ["mass/mathstat/power_spectrum.py"],
     ["PowerSpectrum, PowerSpectrumOverlap, computeSpectrum, autocorrelation_*"])
prop("P25", "Peak-shape and fitting functions agree with their definitions",
     "The Voigt profile equals the convolution of its Gaussian and Lorentzian for every width ratio including zero width and is normalised; sums of profiles equal the sum of their terms. "
     "The piecewise-linear kink model is the least-squares optimum for its kink position, in the caller's data order, and the found range, histogram-plot and other small numeric helpers satisfy their stated definitions.",
     ["inputs"],
     "All centres, widths, amplitudes, backgrounds, and (x,y) sets in any order.",
     "Tests check a few parameter values.",
     ["mass/mathstat/special.py", "mass/mathstat/fitting.py", "mass/mathstat/utilities.py"],
     ["voigt, voigt_approx_fwhm, lorentzian", "kink_model, fit_kink_model", "find_range_randomly"])
prop("P26", "OFF files are read exactly and reconstruct their records",
     "An OFF file of any version written with any projectors, record count and header content is read back with every field of every complete record exact, and with the projector and basis matrices bit-identical; a growing file exposes exactly the new complete records after a refresh, and selection by index or field gives the same values. "
     "A reconstructed record is the basis times its coefficients, sample times start at the trigger, and files that are not valid are rejected.",
     ["inputs", "histories"],
     "All header versions, basis counts, record counts (incl. zero), text in the header, partial tails and growth steps.",
     "Tests read two fixed files.",
     ["mass/off/off.py", "mass/off/util.py"],
     ["OffFile header/mmap/recordXY/modeledPulse/_updateMmap"])
prop("P27", "OFF recipes and cuts evaluate to the functions they are made of",
     "Any dependency graph of recipes evaluates to the composition of its functions on the stored records, for any selection, in whatever order recipes were added, and after the recipe book is saved and reloaded; name clashes and missing ingredients are refused. "
     "Good-value cuts combine with logical AND exactly as defined, requesting several quantities at once gives the same as one at a time, and a selection never includes an excluded pulse.",
     ["programs", "histories"],
     "All recipe graphs of up to 8 nodes over record fields with renames, cuts, and record slices / state / boolean selections.",
     "Tests use a dozen fixed recipes.",
     ["mass/off/util.py", "mass/off/recipe_classes.py", "mass/off/channels.py"],
     ["RecipeBook.add/craft/to_file/from_file", "Channel.getAttr, cutAdd, goodFunc, _indsOf"])
prop("P28", "Histograms of channels and groups count each selected pulse once",
     "A histogram over a channel contains, in each bin, exactly the pulses selected by state, cut and good status with a value inside the bin, and bin centres match bin edges; the group histogram is the sum over its good channels and excludes bad ones. "
     "Splitting by state and adding equals not splitting, both in the LJH and OFF analyses.",
     ["inputs", "configurations"],
     "All bins, cuts, states, good functions and bad-channel sets on synthetic channels.",
     "Tests look at one histogram shape.",
     ["mass/off/channels.py", "mass/core/channel.py"],
     ["Channel.hist / ChannelGroup.hist / hists", "MicrocalDataSet.hist", "TESGroup hists"])
prop("P29", "LJH-to-OFF conversion and pulse models preserve the physics",
     "Converting LJH files to OFF with given projectors keeps every record in order with the same presamples, counts and nanosecond times, and coefficients and residual equal to the projection of the samples; converting several files into one output equals converting each. "
     "A pulse model's projectors are a left inverse of its basis with the stated first components, noise weighting makes them optimal, and saving and reloading the model gives the same model without changing it.",
     ["inputs", "configurations"],
     "All sample data, projector sets, basis sizes, input splits, missing files and model options.",
     "Tests convert one file.",
     ["mass/core/ljh2off.py", "mass/core/pulse_model.py", "mass/core/projectors_script.py"],
     ["ljh2off, ljhpulse records to off records", "PulseModel toHDF5/fromHDF5, additional SVD projectors"])
prop("P30", "Efficiency models are physical and compose multiplicatively",
     "Every filter-stack efficiency lies between zero and one, an assembly's efficiency is the product of its parts in any order or nesting, adding material never raises transmission, and an absorber and the same film as a filter sum to one. "
     "Fill fraction, areal density versus thickness, and uncertain inputs enter as documented, and scalar and array energies agree.",
     ["inputs", "configurations"],
     "All stacks built from films, oxides, polymers and windows with random thickness, density, fill fraction, and energies 100 eV .. 20 keV.",
     "Tests check stored values for a few built-in stacks.",
     ["mass/materials/efficiency_models.py", "mass/materials/uncertainties_helpers.py"],
     ["FilterStack.get_efficiency, Film, AlFilmWithOxide, AlFilmWithPolymer"])

prop("P31", "Line tables and atomic levels are read, found and modelled faithfully",
     "Every well-formed row of an X-ray line table becomes exactly one entry with the element, transition, energy, uncertainty and reference of its columns, every accepted spelling of a line (transition or Siegbahn name, any case) finds that entry and no other, and the standard features are exactly those names and energies. "
     "A level database converted from its SQL dump keeps every named level, ordered by energy, queries return exactly the levels asked for in the units asked for, and the highly-charged-ion lines and models made from it sit at those energies with the documented fixed separations, shared resolution and gain, intensity ratio, tails and background.",
     ["inputs", "configurations"],
     "All tables in the documented column layout (several files, repeats, malformed rows, missing header or file), all spellings, all dumps and queries, all model options.",
     "No test reads a table or a dump, or looks a line up by nickname; the only ion test needs a file that is not distributed.",
     ["mass/calibration/nist_xray_database.py", "mass/calibration/energy_calibration.py", "mass/calibration/import_asd.py", "mass/calibration/hci_lines.py", "mass/calibration/hci_models.py"],
     ["NISTXrayDBFile, LineEnergies", "import_asd.write_asd_pickle, NIST_ASD", "hci_models.models"])

prop("P32", "Line fits and automatic calibration recover the energies in the data",
     "A line fit histograms exactly the selected, uncut pulses in the bins asked for and puts the line, its width and its counts where they are in the data. "
     "Automatic calibration assigns and fits every named line, in order of energy whatever the order of the names, gives each channel its own calibration and converts all its pulses with it, and does not calibrate twice unless forced. "
     "For OFF data, a plan for one channel, aligned to the others and followed by fits (in the stated states, iterated as asked), gives each channel the plan's lines and energies right within the resolution.",
     ["inputs", "configurations"],
     "All spectra of several known lines over resolutions, backgrounds, gains, nonlinearities, cut pulses, states, channels, curve types, bin sizes.",
     "Tests calibrate one or two simulated or stored spectra.",
     ["mass/calibration/algorithms.py", "mass/core/channel.py", "mass/core/channel_group.py", "mass/off/channels.py"],
     ["singlefit, multifit, EnergyCalibrationAutocal", "MicrocalDataSet.calibrate, convert_to_energy, linefit; TESGroup.linefit", "Channel.alignToReferenceChannel, calibrateFollowingPlan"])

prop("P33", "Averages, rates and exports use exactly the selected pulses",
     "An average pulse is the mean of exactly the selected records (given, within a range of size, or within five per cent of the median and no more than asked for), optionally less its baseline, is kept unless forced, and survives reloading. "
     "Histograms, count rates, records, exported energies, and printed summaries of a channel or group count each pulse that is good, in the category, time range and selection asked for, in a good channel, exactly once and no other; "
     "segments partition the records; filters computed by kind are those of the method named, and their summaries state the resolutions the filters predict.",
     ["inputs", "configurations", "histories"],
     "All cuts, categories, bad channels, masks, gains, time ranges, bins, values with NaN, inverted data, segment sizes.",
     "Tests check that the calls succeed on one file.",
     ["mass/core/channel.py", "mass/core/channel_group.py"],
     ["compute_average_pulse, avg_pulses_auto_masks, make_masks", "hist, hists, count_rate, read_trace, first_n_good_pulses, cut_summary, report", "save_pulse_energies_ascii, compute_filters"])

prop("P34", "Crosstalk flags mark exactly the pulses near pulses of neighbours",
     "The neighbour list of a channel holds every channel of the map with its exact squared distance and its rank among the possible distances, is kept for its category, and is replaced by that of any other map when forced. "
     "A pulse is flagged exactly when a pulse of a listed neighbour that has data arrives within its own prior/post window, per category and combined, whether windows overlap or not; the flags are stored, kept on repetition and replaced when forced. "
     "A crosstalk veto rejects exactly the moments within the window of two or more hits in any channel, however many.",
     ["inputs", "configurations", "histories"],
     "All channel maps, categories, distances, windows, arrival times (simultaneous, piled up, bursts), bad channels, repeats and reloads.",
     "No test computes neighbours, crosstalk flags or vetoes.",
     ["mass/core/channel.py", "mass/core/channel_group.py"],
     ["MicrocalDataSet.set_nearest_neighbors_list, flag_crosstalking_pulses", "CrosstalkVeto"])

prop("P35", "Plots show exactly the data they claim, on the axes they are given",
     "Every plotting method of channels, groups, OFF channels, calibrations, lines, efficiencies, noise and filters draws the curves, points, histograms, error bars, guides and texts computed from exactly the selected records "
     "(the stated validity, cuts, states, channels and record numbers), in the stated units and with labels naming them. Given an axis, it draws, labels and scales that axis only and leaves the current one alone. "
     "Figures of many pages hold every quantity or channel once and are written under their numbered names.",
     ["inputs", "configurations"],
     "All data sets, selections (valid, cut, all, masks, states, bad channels), plot options, units, line lists, axes given or not, numbers of channels per page.",
     "Tests call a few plots and never look at what was drawn.",
     ["mass/core/channel.py", "mass/core/channel_group.py", "mass/core/utilities.py", "mass/core/optimal_filtering.py", "mass/off/channels.py", "mass/off/util.py",
      "mass/calibration/energy_calibration.py", "mass/calibration/fluorescence_lines.py", "mass/calibration/line_models.py", "mass/materials/efficiency_models.py", "mass/mathstat/power_spectrum.py"],
     ["MicrocalDataSet.plot_traces, plot_summaries, plot_hist, plot_average_pulse, plot_noise; TESGroup.plot_*", "annotate_lines", "Channel.plotHist, plotAvsB, plotAvsB2d, plotCompareDriftCorrect", "EnergyCalibration.plot",
      "SpectralLine.plot, FilterStack.plot_efficiency, PowerSpectrum.plot, Filter.plot, GenericLineModel plotm"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
