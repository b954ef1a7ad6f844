#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for its text is here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "src/stcal/"
p("P01", "Steps never modify the caller's inputs beyond documented in-place outputs",
  "Running a calibration step leaves every array, catalog, container and option object the caller handed in exactly as it was, except the arrays the step documents as its in-place outputs. Reference-file arrays are never written unless documented, and intermediate results never share memory with an input that is later overwritten.",
  ["inputs", "configurations"],
  "every public step entry point, every argument, every combination of optional arguments and options",
  "Tests compare outputs, and look at an input afterwards only in a handful of cases with one option set; a write through a view, an out= argument or a helper on a rare branch goes unseen.",
  [S+x for x in ["dark_current/dark_sub.py","saturation/saturation.py","linearity/linearity.py","jump/jump.py","jump/twopoint_difference.py","ramp_fitting/ramp_fit.py","ramp_fitting/likely_fit.py","ramp_fitting/ols_fit.py","outlier_detection/utils.py","outlier_detection/median.py","resample/resample.py","resample/utils.py","skymatch/skymatch.py","tweakreg/tweakreg.py","alignment/util.py"]],
  [("deep copy of the science model", "dark_current/dark_sub.py do_correction_data"), ("copies of the input planes", "ramp_fitting/ols_fit.py slice_ramp_data, likely_fit.py"), ("documented in-place outputs", "jump/jump.py, saturation/saturation.py, linearity/linearity.py")])
p("P02", "Data-quality bits already set are never lost",
  "No step clears a data-quality bit that was set in the group, pixel or reference DQ it received: DQ is combined by bitwise OR, and every DQ plane a step returns contains the bits it started from. The only exceptions: jump detection may remove jump bits in groups that are unusable (saturated, do-not-use) or turned out to be the first usable group, and ramp fitting recomputes the do-not-use bit of the combined image from its integrations.",
  ["inputs", "configurations"],
  "every DQ array read or written by the dark, saturation, linearity, jump and ramp-fit steps, for every combination of pre-existing bits",
  "Tests mostly start from all-zero DQ or one bit; overwriting instead of ORing, or adding instead of ORing, gives the same result there.",
  [S+x for x in ["dark_current/dark_sub.py","saturation/saturation.py","linearity/linearity.py","jump/jump.py","jump/twopoint_difference.py","ramp_fitting/utils.py","ramp_fitting/ols_fit.py","ramp_fitting/likely_fit.py","ramp_fitting/src/slope_fitter.c"]],
  [("bitwise_or / |= at every DQ store", "all DQ producing modules"), ("jump bit clearing", "jump/jump.py, jump/twopoint_difference.py")])
p("P03", "Each step raises only its own flags, in the right plane",
  "Every data-quality bit a step raises is one the step is specified to raise, its value is taken from the flag definitions the caller supplied under that flag's own name, and it is raised in the plane it belongs to (group DQ or pixel DQ). A specified flag is raised on every configuration in which its condition is detected.",
  ["inputs", "configurations"],
  "every step that writes DQ, every flag dictionary (missions use different bit values), every option combination",
  "Tests use one flag dictionary, in which a hard-coded number and a looked-up value agree, and check few flags per configuration.",
  [S+x for x in ["dark_current/dark_sub.py","saturation/saturation.py","linearity/linearity.py","jump/jump.py","jump/twopoint_difference.py","ramp_fitting/utils.py","ramp_fitting/ramp_fit.py","ramp_fitting/likely_fit.py","ramp_fitting/src/slope_fitter.c"]],
  [("flag look-up by name", "ramp_fit_class.py set_dqflags, jump_class.py, twopoint_difference_class.py"), ("flag ORs", "saturation.py, linearity.py, jump.py, slope_fitter.c")])
p("P04", "Saturated and do-not-use samples stay out of every estimate",
  "A group flagged saturated or do-not-use is excluded, by testing both flags, wherever group values enter a jump statistic, a shower statistic or a ramp fit, and the two-point-difference jump detection never leaves a jump flag on such a group (later region expansion may). The linearity correction leaves groups flagged saturated uncorrected. The exclusion is applied before the sample is used, on every detection and fitting path.",
  ["inputs", "configurations"],
  "every path from group data to a jump statistic or fitted slope, for every DQ pattern, serial and parallel, all algorithms",
  "Tests exercise a few DQ patterns on the default path; the same exclusion exists separately in each detector and algorithm.",
  [S+x for x in ["jump/jump.py","jump/twopoint_difference.py","linearity/linearity.py","ramp_fitting/ols_cas22_fit.py","ramp_fitting/likely_fit.py","ramp_fitting/src/slope_fitter.c"]],
  [("NaN-ing of flagged samples", "jump/twopoint_difference.py"), ("jump bit cleanup", "jump/jump.py"), ("invalid flag mask", "slope_fitter.c, likely_fit.py")])
p("P05", "Invalid (NaN) samples never contaminate statistics of valid ones",
  "Wherever a step marks samples invalid by replacing them with NaN, every statistic subsequently taken over them ignores NaN, so one invalid sample never turns the result for its neighbours invalid. The same holds where inputs are handed over with NaN for missing samples: NaN pixels of a dark reference are replaced before use, and statistics and smoothing over gains, images and weights ignore NaN.",
  ["inputs"],
  "all reductions (median, mean, percentile, min/max, sums, sorts) over arrays that may hold NaN",
  "Few tests mix valid and NaN samples in the same reduction.",
  [S+x for x in ["jump/jump.py","jump/twopoint_difference.py","ramp_fitting/likely_fit.py","outlier_detection/median.py","outlier_detection/utils.py","skymatch/skyimage.py","linearity/linearity.py"]],
  [("nan-aware reducers", "jump/twopoint_difference.py, outlier_detection/median.py")])
p("P06", "Splitting work into row sections covers every row exactly once",
  "When a step splits an image into sections (for parallel workers, memory tiles or on-disk sections), the sections are consecutive, never overlap, together cover every row, and each result is written back to the rows it came from. This holds for every image height and every number of sections.",
  ["inputs", "configurations"],
  "every image height, section count, worker count and buffer size",
  "Tests use a few sizes, mostly divisible by the number of sections.",
  [S+x for x in ["jump/jump.py","ramp_fitting/ols_fit.py","linearity/linearity.py","outlier_detection/median.py","multiprocessing.py"]],
  [("row slicing", "jump/jump.py, ramp_fitting/ols_fit.py compute_slices_for_starmap"), ("tile loop", "linearity/linearity.py"), ("section iteration", "outlier_detection/median.py")])
p("P07", "Parallel execution gives workers the same inputs as serial execution",
  "Everything the serial computation reads is handed to each worker: every plane is cut to the same rows, every option and flag has the same value, and results come back under the same names and are reassembled in the same places. The number of processes therefore never changes the data, flags, times and options that a pixel's computation sees.",
  ["configurations", "schedules"],
  "every number of processes, every option value, every optional plane present or absent",
  "Tests compare serial and parallel only for default options; a forgotten field keeps its default and changes the result only for non-default options.",
  [S+x for x in ["ramp_fitting/ols_fit.py","ramp_fitting/ramp_fit_class.py","jump/jump.py","jump/jump_class.py","jump/twopoint_difference_class.py"]],
  [("slice construction", "ramp_fitting/ols_fit.py slice_ramp_data"), ("result assembly", "ramp_fitting/ols_fit.py assemble_pool_results"), ("worker arguments", "jump/jump.py")])
p("P08", "Items processed in a loop do not influence one another via left-over state",
  "The result for a pixel, integration, image or reference entry processed in a loop depends only on that item and on quantities specified to be shared, never on what was left in variables, buffers or per-pixel structures by the item processed before it.",
  ["inputs", "histories"],
  "every loop over integrations, pixels, images or groups, for any mixture of items",
  "Tests process few items, rarely mixing an item that takes one branch with a following item that takes another.",
  [S+x for x in ["jump/twopoint_difference.py","jump/jump.py","saturation/saturation.py","ramp_fitting/likely_fit.py","ramp_fitting/src/slope_fitter.c","ramp_fitting/ols_cas22/_fit.pyx","skymatch/skymatch.py","resample/resample.py"]],
  [("per-pixel reset", "slope_fitter.c get_pixel_ramp, clean_pixel_ramp"), ("per-integration reset", "saturation.py running tally, twopoint_difference.py")])
p("P09", "No hidden state survives from one call to the next",
  "Calling a step twice with the same inputs gives the same result regardless of what ran before in the process: no step keeps results, defaults or caches in module globals, class attributes, mutable default arguments or static variables, and none depends on random numbers, the clock or the environment for its result (a cache of a pure function of its arguments, and diagnostics, are not state).",
  ["histories", "schedules"],
  "every sequence of calls, in any order, in one process",
  "Tests call each entry point with fresh objects and do not repeat calls after different ones.",
  [S],
  [("no global/static mutable state", "all modules, slope_fitter.c")])
p("P10", "Every option takes effect, under its own meaning, on every path",
  "Each documented option of a step influences the result on every configuration where it applies and is passed down under its own meaning: no option is dropped, swapped with another, replaced by a default, or overwritten by a different one on the way from the caller to the place it is used.",
  ["configurations", "inputs"],
  "every documented option of every public entry point, in combination with every other option",
  "Tests set a few options away from their default one at a time.",
  [S+x for x in ["jump/jump.py","jump/jump_class.py","jump/twopoint_difference_class.py","jump/twopoint_difference.py","ramp_fitting/ramp_fit.py","ramp_fitting/ramp_fit_class.py","ramp_fitting/likely_fit.py","skymatch/skymatch.py","skymatch/skyimage.py","tweakreg/tweakreg.py","resample/resample.py","outlier_detection/utils.py","saturation/saturation.py","linearity/linearity.py"]],
  [("option records", "jump_class.py, twopoint_difference_class.py, ramp_fit_class.py"), ("argument passing", "call sites of the step helpers")])
p("P11", "No path fails on an undefined value or a broken internal interface",
  "No combination of options and inputs makes the library fail on its own names: every variable is assigned before it is used, every function is called with arguments it accepts, every attribute, key and exported name it relies on exists, and an optional value is used only after it was checked to be present.",
  ["inputs", "configurations"],
  "every statement of every module on every feasible path",
  "Rare branches (odd group counts, missing optional planes, failure paths) are not executed by the tests.",
  [S],
  [("initialisation before use", "all modules"), ("optional argument checks", "all modules")])
p("P12", "Borrowed state and resources are restored on every exit",
  "Temporary files and directories, worker pools, traced memory, warning filters, numpy error settings, file handles and temporarily changed attributes of caller objects are released or restored on every way out of the code that took them, including when an error is raised part-way.",
  ["fault_sequences", "crash_points"],
  "every exit (normal, early return, exception at any call) from code that acquires a resource or changes ambient state",
  "Tests take the normal exit; failures between acquisition and release are not injected.",
  [S+x for x in ["resample/utils.py","outlier_detection/median.py","_testing/memory_threshold.py","jump/jump.py","jump/twopoint_difference.py","ramp_fitting/ols_fit.py","ramp_fitting/likely_fit.py","alignment/util.py","tweakreg/_s3_catalog.py"]],
  [("try/finally and with blocks", "resample/utils.py calc_pixmap, _testing/memory_threshold.py, outlier_detection/median.py"), ("pool close/join", "jump/jump.py, ramp_fitting/ols_fit.py")])
p("P13", "Counts, rates, times and variances are combined with consistent dimensions",
  "Every quantity is combined only with quantities of the same physical dimension: slopes are counts per time, variances are squared uncertainties, read noise and gain are converted before they are mixed with data, and the times used (frame, group, integration) are the ones the formula calls for. Every output plane carries the dimension it is documented to have.",
  ["inputs"],
  "every arithmetic combination of detector counts, gains, noise, times and variances in jump detection, ramp fitting, dark subtraction and resampling",
  "Tests commonly use unit gain and unit times, for which a missing or extra factor is invisible.",
  [S+x for x in ["jump/jump.py","jump/twopoint_difference.py","ramp_fitting/likely_fit.py","ramp_fitting/likely_algo_classes.py","ramp_fitting/ols_fit.py","ramp_fitting/utils.py","ramp_fitting/src/slope_fitter.c","resample/resample.py","outlier_detection/utils.py"]],
  [("gain/read noise conversion", "jump/jump.py, slope_fitter.c"), ("variance formulae", "slope_fitter.c, likely_fit.py, ramp_fitting/utils.py")])
p("P14", "Angles are converted exactly once between degrees, radians and arcseconds",
  "Every angle reaching a trigonometric function is in radians, every angle compared with or added to another is in the same unit, and angles reported to users, footprints and WCS keywords are in their documented unit.",
  ["inputs"],
  "every angular quantity in alignment, velocity aberration, tweakreg, resampling, sky matching and jump ellipses",
  "Tests use a few pointings; a unit slip in a rarely used branch or small term is within tolerance.",
  [S+x for x in ["velocity_aberration.py","alignment/util.py","alignment/resample_utils.py","tweakreg/tweakreg.py","tweakreg/astrometric_utils.py","tweakreg/utils.py","tweakreg/_s3_catalog.py","resample/utils.py","resample/resample.py","jump/jump.py"]],
  [("deg/rad conversion", "alignment/util.py, velocity_aberration.py"), ("arcsec tolerances", "tweakreg/tweakreg.py")])
p("P15", "Array axes keep their meaning: integration, group, row, column",
  "An index or length belonging to one axis (integration, group, row, column; x or y) is only ever used on that axis, and arrays are combined only with matching axes, so results do not depend on the image being square or on counts coinciding.",
  ["inputs"],
  "every indexing, shape, reduction and broadcast over ramps, images and their DQ planes, for all unequal dimensions",
  "Tests often use square images or equal dimensions, where a swapped axis passes.",
  [S+x for x in ["jump/jump.py","jump/twopoint_difference.py","saturation/saturation.py","linearity/linearity.py","dark_current/dark_sub.py","ramp_fitting/ols_fit.py","ramp_fitting/likely_fit.py","ramp_fitting/utils.py","ramp_fitting/src/slope_fitter.c","outlier_detection/utils.py","resample/resample.py","resample/utils.py","alignment/util.py"]],
  [("axis-ordered indexing", "all step modules and slope_fitter.c")])
p("P16", "The compiled ramp fitter never corrupts memory and never hides a failure",
  "In the compiled ramp fitter every block of memory and every object reference is released exactly once on every path and never used after release, every allocation is checked before use, and any internal failure reaches the caller as a raised error rather than a silently wrong or empty result.",
  ["inputs", "fault_sequences"],
  "every path of the extension, including allocation failure, wrong types and internal errors",
  "Failure paths are not reached by the tests: allocations never fail there and malformed inputs are not supplied.",
  [S+"ramp_fitting/src/slope_fitter.c"],
  [("allocation and clean-up", "slope_fitter.c clean_* and FREE_* helpers"), ("error propagation", "slope_fitter.c return codes")])
p("P17", "Python and the compiled ramp fitter agree on their interface",
  "Every attribute, array and flag the compiled fitter reads from the ramp object exists there with the type and byte order it assumes, and every result it hands back is consumed under the same name, in the same position and with the same meaning. Each value copied between the two sides or between structures goes to the field of the same meaning.",
  ["inputs", "configurations"],
  "every attribute read across the boundary, every result key and position, all input dtypes and byte orders",
  "Tests use native float32 inputs and one flag dictionary, and rarely assert on every output plane.",
  [S+x for x in ["ramp_fitting/src/slope_fitter.c","ramp_fitting/ols_fit.py","ramp_fitting/ramp_fit_class.py","ramp_fitting/ramp_fit.py"]],
  [("attribute reads", "slope_fitter.c get_ramp_data*"), ("result packaging", "slope_fitter.c package_results"), ("byte order handling", "ols_fit.py endianness_handler")])
p("P18", "Resampling accumulates every input once, with one geometry, and only while open",
  "Each image added to a resampled product contributes its data, error and every variance plane through the same pixel mapping, scale and weights, exactly once, with its sky level removed once; for a pixel covered by valid images the finalised planes are the weighted means and propagated variances of exactly the images added. Exposure times, durations and pointings are counted once per exposure group, in whatever order the groups arrive. Adding after finalisation is refused without effect, finalising twice changes nothing, and a product begun after a reset holds nothing of the previous one.",
  ["histories", "configurations"],
  "every sequence of add/finalise calls and every configuration of optional outputs (weights, context, error, variances)",
  "Tests use one or two identical inputs with default options, where a wrong weight, mapping or double count cancels.",
  [S+x for x in ["resample/resample.py","resample/utils.py"]],
  [("finalised state", "resample/resample.py Resample"), ("drizzle calls", "resample/resample.py add_model, resample_variance_arrays")])
p("P19", "Sky bookkeeping always agrees with the sky removed from each image",
  "The sky value recorded for an image is exactly what was subtracted from it, all images of a group get the same correction, an image whose sky cannot be measured is left out of the computation without affecting or failing the others and is marked as having no valid sky when it gets no correction, differences are measured relative to the sky already recorded exactly when that sky is not yet removed from the data, and nothing is subtracted when subtraction is disabled.",
  ["inputs", "configurations", "histories"],
  "all sky-matching methods, subtract on or off, all mixtures of measurable and unmeasurable images and groups",
  "Tests run each method once on well-behaved images.",
  [S+x for x in ["skymatch/skymatch.py","skymatch/skyimage.py","skymatch/skystatistics.py"]],
  [("paired sky update", "skymatch/skymatch.py"), ("invalid sky handling", "skymatch/skyimage.py calc_sky")])
p("P20", "Alignment validates before changing anything and reports failures uniformly",
  "Relative and absolute alignment check their parameters (separation larger than sqrt(2) times tolerance) and the number of reference sources before any corrector is changed or aligned, and relative alignment never returns an alignment whose corrections exceed the search range. Every documented failure (confused separation, too few images, too few reference sources, too many matches, too large a correction) surfaces as the alignment error; other failures of the alignment library and of the catalogue services are passed on and never swallowed. A catalogue query with an epoch never returns sources whose proper motion was not measured.",
  ["inputs", "fault_sequences"],
  "all parameter combinations, catalogs of any size, any failure of the fitting or catalog service",
  "Tests cover one or two failing inputs and successful fits.",
  [S+x for x in ["tweakreg/tweakreg.py","tweakreg/astrometric_utils.py","tweakreg/utils.py","tweakreg/_s3_catalog.py"]],
  [("parameter checks", "tweakreg/tweakreg.py"), ("error translation", "tweakreg/tweakreg.py, astrometric_utils.py")])
p("P21", "Fitted slopes and uncertainties are statistically optimal and unbiased",
  "For a ramp with Poisson and read noise the fitted slope is the weighted estimate the documented algorithm defines, and its reported variance matches the actual scatter.",
  ["inputs"], "all ramps, gains, noise levels and patterns of excluded groups",
  "It is a numerical identity over a continuum of inputs.",
  [S+x for x in ["ramp_fitting/src/slope_fitter.c","ramp_fitting/likely_fit.py","ramp_fitting/ols_cas22/_ramp.pyx"]],
  [("segment fit formulae", "slope_fitter.c, likely_fit.py, _ramp.pyx")])
p("P22", "Resampling conserves flux and geometry to numerical precision",
  "The pixel map, pixel areas, output footprint and drizzled flux agree with the WCS transforms to numerical precision.",
  ["inputs"], "all WCS, scales, rotations and pixel fractions",
  "It is a numerical statement about transforms over a continuum of inputs.",
  [S+x for x in ["resample/utils.py","resample/resample.py","alignment/util.py","alignment/resample_utils.py"]],
  [("pixel map and area", "resample/utils.py")])
p("P23", "Sky offsets minimise background differences in overlap regions",
  "Matched sky values are the least-squares solution of the pairwise overlap differences, and the Lorentz velocity-aberration factors match special relativity.",
  ["inputs"], "all image sets with overlaps, all spacecraft velocities",
  "Numerical identity.",
  [S+"skymatch/skymatch.py", S+"velocity_aberration.py"],
  [("least squares solve", "skymatch/skymatch.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
