"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
CPP = "sacf/correlator/Correlator.cpp"
DS = "sacf/datastructure/DataStructure.cpp"
PY = "sacf/sacf.py"
CB = "sacf/correlator/correlator_bindings.cpp"
DB = "sacf/datastructure/datastructure_bindings.cpp"


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "state": state or [],
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    assert len(title) <= 80, title
    P.append(d)


p("C01", "Every default correlation equals the published selective estimator",
  "For every strictly increasing time series, every value series without missing values and every lag in the result of a default autocorrelation, the value reported at that lag is the sum, over the samples i whose shifted time t_i+lag is not after the last sample, of w*(x_i-mean)*(x_j-mean), divided by the sum of all (x-mean)^2. Here j is the sample whose time is closest to t_i+lag (the later one on a tie; the first sample for shifted times before the series) and w = 1/(1+|t_j-(t_i+lag)|/alpha).",
  ["inputs", "configurations"], "all time series (regular or not), value series, lag ranges, resolutions and length scales alpha > 0",
  "The tests compare two value series on the times 0..4 with unit lags, where every shifted time hits a sample exactly, the end samples are at the mean and every weight is 1: neighbour choice, weights, clamping and normalisation are never visible.",
  [CPP, PY], [("nearest-sample search, distance, weight, normalised sum per lag", CPP + " _calculateStandardCorrelation"), ("normalisation constant", CPP + " Correlator()")],
  ["SACF(...).autocorrelation()"], [{"name": "N", "meaning": "sum of squared deviations of each series", "where": CPP}])

p("C02", "Evenly sampled series give the textbook autocorrelation",
  "For every evenly sampled series without missing values, whose times and lags are exact in floating point, and every lag that is m >= 0 sampling steps, the correlation is sum_{i<n-m} (x_i-mean)(x_{i+m}-mean) / sum_i (x_i-mean)^2. This holds for every selection function, every weight function and every alpha > 0.",
  ["inputs", "configurations"], "all lengths, values, sampling steps, step counts m and all selection x weight combinations",
  "The tests have one length (5) and two value series whose first and last sample are at the mean, for which wrong pairings at the ends do not show; the fast selection is only asserted to differ.",
  [CPP, PY], [("selection functions", CPP), ("weight 1 at distance 0", CPP)], ["SACF(...).autocorrelation(selection_function=, weight_function=)"])

p("C03", "Natural selection pairs every sample with its nearest neighbour in time",
  "For every strictly increasing time series and every lag, the natural selection selects for exactly those samples whose time plus the lag is not after the last sample, in order from the first sample on. Each is paired with the sample whose time is closest to its own time plus the lag: the later one when two are equally close, the first sample when the shifted time lies before the series.",
  ["inputs"], "all time series and lags, negative, zero, positive, within and beyond the time span",
  "No test looks at the selected indices, and on the tests' unit grid every shifted time coincides with a sample, so distance comparison, ties, gaps and clamping are never exercised.",
  [CPP], [("cut at the last sample, binary search, comparison with the previous sample", CPP + " naturalSelectionFunctionIdx")], ["Correlator.naturalSelectionFunctionIdx", "CorrelationIterator.selection_indices"])

p("C04", "Fast selection pairs consecutive samples from the closest one on",
  "For every strictly increasing time series and every lag, the fast selection pairs the first sample with the sample closest in time to its own time plus the lag, and each following sample with the following one, for as long as the shifted time is not after the last sample and there are samples left. It never selects a sample outside the series, and on an evenly sampled series it equals the natural selection for every lag >= 0.",
  ["inputs"], "all time series and lags",
  "The only test asserts that the result differs from the natural one for one input.",
  [CPP], [("search for the first, then by index", CPP + " fastSelectionFunctionIdx")], ["Correlator.fastSelectionFunctionIdx", "CorrelationIterator.selection_indices"])

p("C05", "Weights depend only on time distance over alpha, by the three formulas",
  "The weight of a pair at time distance d is 1/(1+d/alpha) (fractional), 1/(1+(d/alpha)^2) (fractional squared) or exp(-d^2/(2 alpha^2)) (gaussian), with d the absolute difference between the shifted time and the selected sample's time and alpha the correlator's current length scale. A pair at distance 0 has weight 1, weights never increase with distance, and exactly one weight is produced per selected pair, in order.",
  ["inputs", "configurations"], "all distances >= 0, all alpha > 0, all three weight functions, after any change of alpha",
  "All pairs in the tests that contribute to a compared value are at distance 0, where all three formulas give 1.",
  [CPP, PY], [("weight functions", CPP), ("distances", CPP + " deltaT"), ("name to function table", PY + " WEIGHT_FUNCTIONS")], ["Correlator.*WeightFunction", "CorrelationIterator.delta_t", "CorrelationIterator.weights", "SACF.autocorrelation(weight_function=)"])

p("C06", "The lag axis is the requested grid, with lag zero inserted once",
  "The reported lags are min_lag, min_lag+lag_resolution, ... up to and including max_lag and never beyond it, in strictly increasing order; there are none when min_lag > max_lag. If the first positive lag of that grid is not preceded by lag 0, one lag 0 is inserted directly before it, so that lag 0 occurs exactly once whenever a positive lag occurs. This is the same for every selection and weight function.",
  ["inputs", "configurations"], "all combinations of min_lag, max_lag and lag_resolution > 0 (negative, zero, positive, crossing zero or not, hitting max_lag or not)",
  "Three grids are tested, all on times 0..4.",
  [CPP, PY], [("lag loop", CPP + " calculateStandardCorrelation"), ("lag_generator", PY)], ["SACF.autocorrelation()[0]"])

p("C07", "The correlation at lag zero is exactly one",
  "For every series with at least two different values, whatever the magnitude or offset of the values (short of overflow or underflow of their squares), the sampling, alpha, the missing values and the other lags requested, the correlation reported at lag 0 is 1 up to rounding whenever lag 0 is in the result. This holds for every selection function, every weight function and each series of a multi-series input.",
  ["inputs", "configurations"], "all series, all selection x weight combinations, all parameters whose grid contains 0",
  "Tests check it for two small-integer series only, where single precision, end effects and missing values do not matter.",
  [CPP], [("normalisation by the sum of squared deviations", CPP + " Correlator(), findCorrelation")], ["SACF.autocorrelation()"])

p("C08", "The built-in path and the generic path compute the same result",
  "For the natural selection and fractional weights, the built-in computation, the generic computation through the Python layer and the step functions (select, distances, weights, correlation, store) called one by one give the same lags and the same correlations up to rounding, for every data set and every combination of parameters. They also agree on which parameters are refused and on empty lag ranges.",
  ["inputs", "configurations", "programs"], "all data sets, parameters, number of series; the two ways of computing",
  "The generic path is never run with the default functions in the tests, so the two implementations of the lag loop and of storing results are never compared.",
  [CPP, PY, CB], [("C++ lag loop", CPP + " calculateStandardCorrelation"), ("Python lag loop", PY + " find_correlation")], ["SACF.autocorrelation", "SACF.find_correlation", "Correlator step functions"])

p("C09", "Series analysed together do not influence each other",
  "Analysing several value series over the same times gives, for each series and in the given order, exactly the correlations (and mean, normalised values and stored values) it would get if analysed alone. Neither the number, order or content of the other series, nor missing values in them, changes a result.",
  ["inputs", "configurations"], "all numbers, orders and contents of series, all parameters and functions",
  "The one test with two series uses the same series twice, so swapped or mixed rows cannot be seen, and the number of lags never exceeds the default.",
  [CPP, DS], [("row-major indexing of values and results", DS + " getVectorIndex; " + CPP + " addCorrelationData, cleanCorrelationData, correlations")], ["SACF.autocorrelation()[1]", "DataStructure.data/normalised_data/mean_data"])

p("C10", "Results do not depend on origin or unit of time and values",
  "Shifting all times by a constant, adding a constant to all values of a series, or multiplying them by a nonzero constant leaves lags and correlations unchanged up to rounding. Multiplying all times, lag parameters and alpha by a positive constant multiplies the lags by it and leaves the correlations unchanged.",
  ["inputs"], "all series, offsets, nonzero scale factors (including large and negative ones) and parameters",
  "No test compares two related inputs; all test data start at time 0 with mean 0.",
  [CPP, DS], [("normalised times and values", DS + " calcNormt, calcNormData"), ("default parameters from normalised times", CPP + " Correlator()")], ["SACF.autocorrelation()"])

p("C11", "Missing values are ignored everywhere and only where they are",
  "A NaN value is left out of the mean, of the normalisation and of every pair it would take part in, and the remaining samples keep their times, pairing and weights. Each correlation therefore equals the estimator summed over the pairs whose two values are present, is finite whenever the present values are not all equal, and does not depend on NaN values in other series.",
  ["inputs"], "all positions and numbers of missing values, all series, lags, selection and weight functions",
  "One test looks at the mean of one series with one NaN; no test correlates a series with a NaN.",
  [CPP, DS], [("NaN-aware mean", DS + " setDataMean"), ("NaN-aware normalisation and sum", CPP + " Correlator(), findCorrelation")], ["SACF.autocorrelation()", "DataStructure.mean_data"])

p("C12", "A data set reports exactly what it was given, and correct derived values",
  "Values, errors and times are reported back unchanged (values and errors as one list per series, no errors as an empty list), times minus the first time and values minus the series' mean over non-missing values as normalised, together with the last time, the middle (median) of the normalised times and the counts of series and samples. The caller's lists and arrays are never modified, later changes to them or to returned lists do not reach the data set, and errors never influence correlations.",
  ["inputs", "histories"], "all shapes, numbers of series, element types (int, float, arrays, tuples) and values including NaN, and all orders of mutation and reading",
  "Tests read back one or two series of five integers.",
  [DS, DB], [("copying constructors", DS), ("accessors", DS + " data_2d, err_2d, normalised_data_2d")], ["DataStructure accessors", "SACF.data"])

p("C13", "Inputs whose shapes do not fit are refused, all others accepted",
  "A data set is created if and only if there is at least one time, at least one series, every series has exactly as many values as there are times, and errors, if any are given, have exactly the shape of the values. Otherwise an exception is raised (the empty-data exception when there are no times or no values, the bad-input exception when lengths differ); nothing is ever truncated, padded, mixed between series or read from outside the inputs.",
  ["inputs"], "all combinations of lengths of times, values (1-D or 2-D, ragged) and errors",
  "Two length mismatches of one-dimensional values are tested; ragged series and errors never.",
  [DS], [("shape checks", DS + " setUp and constructors")], ["DataStructure(...)", "SACF(...)"])

p("C14", "A data file is equivalent to the numbers written in it",
  "Loading a file of times, values and optional errors gives the same data set as passing those numbers in memory. This holds for comma, blank or tab separation with any surrounding blanks, Unix or DOS line ends, with or without a final line end, a title line, empty lines and comment lines starting with # anywhere, NaN values or errors, any usual number notation, and any file size; columns after the third are ignored.",
  ["inputs", "configurations"], "all combinations of separators, line ends, titles, comments, empty lines, columns, number notations and lengths",
  "The tests construct from ten files and never look at what was loaded (one of them used to lose a NaN error).",
  [DS], [("line parser", DS + " DataStructure(filename)")], ["DataStructure(filename)", "SACF(filename=)"])

p("C15", "A file that cannot be read completely is an error, never a partial data set",
  "If a data file cannot be opened, or reading it fails at any point, the bad-file exception is raised and no data set results. How the operating system cuts the reads into pieces, and interrupted reads, never change what is loaded; a failure leaves later loads unaffected.",
  ["fault_sequences", "inputs"], "all positions of a failing, short or interrupted read or open during loading, and their combinations",
  "No test makes an open or a read fail.",
  [DS], [("open and read checks", DS + " DataStructure(filename)")], ["DataStructure(filename)"])

p("C16", "Given parameters take effect, omitted ones take their documented defaults",
  "Each of min_lag, max_lag, lag_resolution and alpha that is given, including 0 where meaningful, is the one used and the one the returned correlator reports, independently of the others. Each one omitted is: the time span for max_lag, minus the time span for min_lag, the smallest distance between neighbouring samples for lag_resolution, and the middle (median) of the times counted from the first sample for alpha.",
  ["inputs", "configurations"], "all 16 subsets of given parameters with all values, on all time series, for every selection and weight function",
  "Defaults are tested on the times 0..4 only, where smallest, largest and first distance coincide, and parameters one at a time.",
  [PY, CPP], [("set_up_correlation", PY), ("defaults", CPP + " Correlator(), findMinDiff; " + DS + " settMedian")], ["SACF.autocorrelation(return_correlator=True)[2]", "Correlator properties"])

p("C17", "The correlation at a lag does not depend on which other lags are computed",
  "For fixed data, alpha and functions, the correlation reported at a given lag is the same whatever min_lag, max_lag and lag_resolution it was computed with. In particular ranges wider than the data, resolutions much finer than the sampling and any number of lags are served completely and correctly.",
  ["inputs", "configurations"], "all pairs of lag ranges and resolutions that share a lag, any number of lags and series",
  "All tested grids are no finer and no wider than the default one, for which the result storage was once sized.",
  [CPP, PY], [("result storage and its growth", CPP + " addCorrelationData, cleanCorrelationData")], ["SACF.autocorrelation()", "Correlator.correlations"])

p("C18", "A reused correlator behaves like a fresh one with the same parameters",
  "After any sequence of parameter changes, computations, refused computations, clearing and reading on a correlator, a computation gives exactly the lags and correlations a fresh correlator with the current parameters gives. Reading never changes anything, results persist until the next computation or clearing, and a cleared correlator has no lags and no correlations.",
  ["histories"], "all sequences of set / compute / clear / read operations up to a depth, on one correlator",
  "No test uses a correlator twice, and none clears one.",
  [CPP, CB], [("overwriting and cutting stored results", CPP + " addCorrelationData, cleanCorrelationData"), ("clearCorrelation", "sacf/include/Correlator.h")], ["Correlator API"],
  [{"name": "correlation_data, num_lag_steps", "meaning": "stored lags and correlations, number stored", "where": "sacf/include/Correlator.h"}])

p("C19", "Calls on the same or other analysis objects never influence each other",
  "Every call of autocorrelation gives the result of that call made alone in a fresh process: it does not depend on earlier calls, their parameters, their functions or their failures, on the same object or on others, nor on changes made to previously returned lists. Correlators and results returned earlier are not changed by later calls.",
  ["histories"], "all sequences up to a depth of calls with different parameters, functions and failures on several analysis objects",
  "Each test makes a single call on a fresh object.",
  [PY, CPP], [("a new correlator per call", PY + " autocorrelation")], ["SACF.autocorrelation"])

p("C20", "Concurrent analyses of shared data give the sequential results",
  "Any interleaving of analyses on the same or on different data sets, by threads calling autocorrelation or by step-wise use of several correlators and iterators, gives each of them exactly the result it has when run alone.",
  ["schedules"], "all interleavings (threads up to a preemption bound; step functions completely) of two or three analyses",
  "No test runs two analyses at the same time.",
  [PY, CPP], [("no shared mutable state: per-call correlator, per-lag iterator, read-only data", PY + ", " + CPP)], ["SACF.autocorrelation", "Correlator step functions"])

p("C21", "Objects stay valid as long as anything derived from them is in use",
  "A correlator, and everything it returns, works and gives the same results after the data set, the analysis object, the caller's inputs and all other references have been dropped and collected, in any order. No sequence of creating, dropping and collecting objects makes a later use read freed or changed data.",
  ["histories"], "all orders of creating, dropping, collecting and using data sets, analysis objects, correlators, iterators and results, up to a depth",
  "No test drops an object that another one depends on.",
  [CB], [("keep_alive of the data set by the correlator", CB)], ["Correlator(...)", "SACF.autocorrelation(return_correlator=True)"])

p("C22", "Every analysis ends: parameters that define no finite grid are refused",
  "An autocorrelation over a non-empty lag range with a lag resolution that is zero, negative, NaN or too small to advance the lag, over an infinite or NaN range, or of a time series that is not in ascending order, raises an exception, with every selection and weight function. The same holds for the default resolution of a series with equal times; with an explicit valid resolution such a series is analysed. After a refusal the objects remain usable.",
  ["inputs", "configurations"], "all combinations of special parameter values and time orders, both computation paths",
  "No test passes an unusable parameter or unordered times; the failure is an endless loop that writes out of bounds, which a test could not survive.",
  [CPP, PY], [("order check", CPP + " Correlator()"), ("advance checks in the lag loops", CPP + " calculateStandardCorrelation; " + PY + " lag_generator")], ["SACF.autocorrelation", "Correlator"])

p("C23", "No sequence of API calls accesses memory out of bounds",
  "Whatever sequence of calls is made through the Python API, including step functions in any order, iterators of any size, any step numbers, None, and reading results at any time, each call either succeeds or raises an exception. No call reads or writes outside its buffers, uses freed memory or ends the process.",
  ["histories", "inputs"], "all sequences of API calls up to a depth, over arguments that fit and that do not fit",
  "Tests run an uninstrumented build on ordinary calls; out-of-bounds accesses usually go unnoticed.",
  [CPP, CB, DS, DB], [("bounds-checked access, size checks", CPP), ("None refused for object arguments", CB)], ["whole Python API under AddressSanitizer / UBSan / checked containers"])

p("C24", "Results do not depend on how the extension is compiled",
  "The same sources give the same results, up to rounding, whether they are compiled optimised or not, with checked containers or without, and whether or not the Python headers happen to be visible to the numerical code.",
  ["configurations", "inputs"], "all build configurations supported here x all inputs of a bounded space",
  "The tests run on one build; the header environment in which time differences were truncated to integers is not the one they run in.",
  [CPP, DS, "sacf/include/Correlator.h"], [("overload resolution, initialisation, evaluation order", CPP)], ["SACF API in each build"])

p("C25", "Results have the documented shape",
  "autocorrelation returns the list of lags and, for a single series, one list of as many correlations as there are lags, or, for several series, one such list per series in input order. With return_correlator a third element is added, a correlator whose own lags and correlations are those returned; the first two do not change. Empty lag ranges give empty lists of the same structure.",
  ["inputs", "configurations"], "all numbers of series and lags, given as one-dimensional values, as a list of one or of several series, or by file, and all functions",
  "Tests have one or two series and 5 to 9 lags.",
  [PY, CPP], [("single series unwrapped", PY + " autocorrelation"), ("correlations()", CPP)], ["SACF.autocorrelation"])

p("C26", "A call that fails part way is an error and leaves everything usable",
  "If memory runs out at any allocation the package's own code makes, or a KeyboardInterrupt arrives at any point of its Python code, or an input raises while it is being read, the call either raises an exception or still gives the complete, right result. It never returns a partial or wrong data set or result, and never ends the process. Afterwards inputs, data sets, other correlators and earlier results are unchanged, and all objects, including the correlator the failing call was made on, give the right results when they are used again.",
  ["faults", "histories"], "every allocation of every operation failing (once, or from there on), every line and bytecode interrupted, every input element raising, pairs of failing calls",
  "No test runs out of memory, is interrupted or uses an object again after a failure.",
  [CPP, DS, PY, DB, CB], [("storing, cutting and clearing results", CPP + " addCorrelationData, cleanCorrelationData, clearCorrelation"), ("reading rows of a file", DS + " readDataFromFile")], ["whole Python API"])

p("C27", "Everything a call takes is given back",
  "Whatever sequence of calls is repeated, and whether they succeed, are refused, fail or are interrupted, once their objects and results have been dropped and collected nothing remains of them: no memory of the extensions, no Python objects (inputs included) and no open files that add up from one repetition to the next. Objects that stay in use hold no more after a call has been repeated on them than before.",
  ["histories", "faults"], "all sequences of calls up to a depth, refused ones included, each repeated; every allocation failing and every interruption, repeated",
  "No test repeats anything or looks at what is left; leaks on the ways out of an error are never even executed.",
  [CPP, DS, PY, CB, DB], [("scratch iterator of a lag", CPP + " _calculateStandardCorrelation"), ("ownership in the bindings", CB + ", " + DB)], ["whole Python API"])

p("C28", "Copies and pickles are complete and independent",
  "copy.copy, copy.deepcopy and pickling with every protocol, also into another process, of a data set, an analysis object, a correlator or an iterator, in whatever state it is, give an object that reports the same data, parameters and results and behaves the same under all further calls, whatever has become of the file the data were read from. Further use of the one does not affect the other, and a copy stays usable after the original has been dropped.",
  ["histories", "lifetimes"], "all sequences of operations up to a depth before the copy, all (pairs of) ways of copying, further use of each copy in turn",
  "No test copies or pickles anything; multiprocessing depends on it.",
  [DB, CB, PY], [("state handed over", CPP + " Correlator constructors"), ("state of a data set", DS)], ["copy", "pickle", "multiprocessing"])

p("C29", "Calls change nothing but what they are asked to make",
  "Making data sets (also from files), analysing, using correlators and iterators, copying and dropping them leave the process and everything outside as they were, whether the calls succeed or are refused and whatever state the process is in: nothing is written to standard output or error, no file or folder is created, changed or removed, and working directory, environment, open descriptors, signal handling, limits, C and C++ locale, stream formats, floating point modes, garbage collector, warning filters and the package's own tables of functions stay the same. A process that has used the package ends normally.",
  ["side effects", "histories"], "all sequences of calls up to a depth, refused ones included, from a dozen states of the process",
  "Tests look at results only, in one state of the process.",
  [DS, CPP, PY, DB, CB], [("reading files", DS + " DataStructure(filename)"), ("tables of functions", PY + " SELECTION_FUNCTIONS, WEIGHT_FUNCTIONS")], ["whole Python API"])

p("C30", "The answer does not depend on where a call is made",
  "The same call on the same input gives the same result, or the same kind of error, wherever and under whatever circumstances it is made: in any thread or forked child, in signal handlers, finalizers, exit handlers or while another input is being read, from any working directory, with any C or C++ locale in force, with standard streams closed, with the collector off or a trace function set, for large data as for small, with any interpreter flags (-O, -I, -W error ...), environment variables, and order of imports.",
  ["environment", "contexts"], "all contexts and pairs of contexts, interpreter flags, environments and import orders, each answering the same questions",
  "Tests run in one process with one configuration.",
  [DS, CPP, PY, "sacf/__init__.py"], [("numbers in files", DS + " readValue"), ("scratch memory", DS + " setDataMean")], ["whole Python API"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
