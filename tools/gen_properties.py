"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json
import os

B = "optbinning/binning/"
D2 = B + "multidimensional/"
SK = B + "distributed/"
PW = B + "piecewise/"
SC = "optbinning/scorecard/"
CF = SC + "counterfactual/"

P = []


def add(id, title, statement, over, text, why, files, mech, observe=None,
        state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


add("C01", "Transform returns the metric of the bin a record falls in",
    "Transforming data with a fitted binning gives every clean record exactly the requested metric (weight of evidence, event rate, mean, bin index or bin label) of the bin the record falls in, computed from the statistics of that bin and no other. Special-code and missing records get the requested constant, or the empirical metric of their own special or missing bin when that is requested, and categories never seen get the requested value or the documented default. This holds for binary, continuous and multiclass targets, in one and in two dimensions.",
    ["inputs", "configurations"],
    "all data, all fitted tables, all metric / metric_special / metric_missing / cat_unknown choices, all target types",
    "The tests transform a couple of public data sets with default options and compare a few numbers; special codes, empirical metrics, unseen categories and the continuous classes are not sampled.",
    [B + "transformations.py", D2 + "transformations_2d.py"],
    [("1D transforms", B + "transformations.py:transform_binary_target, transform_continuous_target, transform_multiclass_target, _apply_transform"),
     ("2D transforms", D2 + "transformations_2d.py"),
     ("event rate <-> WoE", B + "transformations.py:transform_event_rate_to_woe, transform_woe_to_event_rate")],
    ["return value of transform / fit_transform"])

add("C02", "Numerical bins are left-closed, right-open everywhere",
    "A numerical value equal to a split point always belongs to the bin that starts at that split point: bins are [a, b) intervals, in ascending order, from minus to plus infinity. Every place that assigns values to bins (prebin counting, table statistics, transforms, two-dimensional cells, sketch counting, piecewise segments, monitoring) and every printed interval label uses this same convention.",
    ["inputs"],
    "all values, in particular values exactly equal to a split point",
    "Ties between values and split points are measure-zero in the sampled data sets (splits are midpoints), so a flipped comparison passes every test; user-supplied splits and integer data hit it at once.",
    [B + "transformations.py", B + "binning_statistics.py", B + "binning.py", SK + "bsketch.py", D2 + "preprocessing_2d.py", PW + "base.py", SC + "monitoring.py"],
    [("digitize / searchsorted side arguments", "every np.digitize / np.searchsorted / comparison with split points in optbinning"),
     ("interval labels", B + "binning_statistics.py:bin_str_interval; " + SC + "monitoring.py")],
    ["bin index of a value equal to a split"])

add("C03", "Each record is exactly one of clean, special or missing",
    "When data is split for binning, every record is classed as missing (missing value or, for categories, null), special (equal to a user special code, or to a code of its special-code group) or clean, a clean record being one that is neither missing nor special, and the feature, the target and the sample weights of a class always come from the same records. A record removed because it is outside the user's value bounds or is a detected outlier does not appear in the clean data. Fitting and transforming use the same classification.",
    ["inputs", "configurations"],
    "all feature/target/weight data, all special code forms (list, array, dictionary), bounds and outlier options",
    "Tests hold no data with both missing and special records, with dictionary special codes and weights, or with both bounds set.",
    [B + "preprocessing.py", D2 + "preprocessing_2d.py", B + "transformations.py", SK + "bsketch.py"],
    [("mask algebra of the splitters", B + "preprocessing.py:split_data, split_data_scenarios, categorical_transform, categorical_cutoff; " + D2 + "preprocessing_2d.py:split_data_2d")],
    ["returned clean / missing / special blocks"])

add("C04", "The binning table accounts for every record, in the right row",
    "The rows of a binning table are the bins in order, then the others bin if there is one, then one row per special code group, then the missing row; the counts, events, sums and extremes of a row are those of the records (or weights) of that bin, and the totals row holds their sums. Percentages, rates and weights of evidence of a row are computed from that row's own counts and the totals. Events are never reported as non-events or vice versa.",
    ["inputs", "configurations"],
    "all data sets, target types, special-code groups and options",
    "Tests compare a few cells of tables built from a few data sets; row alignment when a group of special codes is empty or when several groups exist is not exercised, and nothing covers continuous tables.",
    [B + "binning_statistics.py", D2 + "binning_statistics_2d.py", PW + "binning_statistics.py"],
    [("per-bin aggregation", B + "binning_statistics.py:target_info*, bin_info, bin_categorical, multiclass_target_info"),
     ("table construction", "BinningTable.build, ContinuousBinningTable.build, MulticlassBinningTable.build, BinningTable2D.build, ContinuousBinningTable2D.build, PWBinningTable.build, PWContinuousBinningTable.build")],
    ["rows of build()"])

add("C05", "Reported quality metrics follow their definitions",
    "The divergences (information value / Jeffrey, Jensen-Shannon, Hellinger, triangular), the Gini index, Herfindahl-Hirschman index (raw and normalised), weight of evidence, quality scores, Kolmogorov-Smirnov statistic, population stability index and the regression metrics (MAE, MAPE, MPE, MSE, RMSE, sMAPE, MdAPE, ...) are computed by their published formulas from the two distributions given. The pairwise significance tests compare adjacent bins only, each bin's own event/non-event counts (or means, standard deviations and counts).",
    ["inputs"],
    "all pairs of distributions / prediction vectors",
    "The tests check two or three literal values per metric; an error confined to a branch (zero counts, normalised variant, returned per-bin vector) survives.",
    [B + "metrics.py", "optbinning/metrics/classification.py", "optbinning/metrics/regression.py", B + "binning_statistics.py"],
    [("metric functions", B + "metrics.py; optbinning/metrics/*.py"),
     ("table analysis", B + "binning_statistics.py:*.analysis")],
    ["return values of the metric functions", "analysis() attributes"])

add("C06", "One-dimensional optimisation models enforce every requested constraint",
    "For binary, continuous and multiclass targets and every back end, the optimisation model maximises the requested measure and contains exactly the constraints the options ask for: each prebin in exactly one bin, bins contiguous, minimum/maximum number of bins, of records, events and non-events per bin, the monotonic trend, minimum event-rate or mean difference, maximum p-value (for consecutive or all pairs) and user-fixed splits. A constraint whose option is not given is not added, and one back end never enforces a weaker or stronger version of a constraint than another.",
    ["inputs", "configurations"],
    "all prebin statistics and option combinations",
    "Tests run a handful of option combinations on one data set where most constraints are slack, so a dropped, flipped or off-by-one constraint is invisible.",
    [B + "cp.py", B + "mip.py", B + "continuous_cp.py", B + "multiclass_cp.py", B + "multiclass_mip.py", B + "model_data.py"],
    [("model construction", "BinningCP/BinningMIP/ContinuousBinningCP/MulticlassBinningCP/MulticlassBinningMIP.build_model and add_* methods"),
     ("aggregated coefficients and violation sets", B + "model_data.py")],
    ["constraints added to the solver model"])

add("C07", "Two-dimensional optimisation models select a valid set of rectangles",
    "For two-dimensional binning the model selects rectangles so that every cell of the prebinning grid is covered exactly once, maximises the sum of the selected rectangles' measures, and contains the number-of-bins, bin-size, minimum-difference and monotonicity constraints (separately for each axis) that the options ask for, each axis' option acting on that axis only. The statistics of a candidate rectangle are the sums over exactly the cells it covers.",
    ["inputs", "configurations"],
    "all grids, options and axis combinations",
    "Two small tests exist for the binary case and none for the continuous one.",
    [D2 + "cp_2d.py", D2 + "mip_2d.py", D2 + "model_data_2d.py", D2 + "model_data_cart_2d.py"],
    [("2D models", "Binning2DCP, Binning2DMIP"), ("rectangle data", "model_data, continuous_model_data, model_data_cart, continuous_model_data_cart")],
    ["constraints added to the solver model"])

add("C08", "Solver outcomes are reported and used faithfully",
    "After solving, the reported status is the one the solver returned, the selected bins are read from the solution only when the solver found one, and otherwise the fallback (a single bin with all records) is used. The solution is applied to the prebinning splits in order, and the time limit given by the user is the one passed to the solver in the solver's unit.",
    ["inputs", "configurations", "fault_sequences"],
    "all solver outcomes (optimal, feasible, infeasible, unknown, unbounded, abnormal) of every back end",
    "The tests only see optimal outcomes; infeasible and time-out paths are reached by none.",
    [B + "cp.py", B + "mip.py", B + "ls.py", D2 + "cp_2d.py", D2 + "mip_2d.py", CF + "mip.py", SC + "rounding.py"],
    [("solve methods", "solve of every optimisation class"), ("application of the solution", "_fit_optimizer of the estimators")],
    ["status, splits"])

add("C09", "Every option takes effect under its own name",
    "Each constructor option is stored unchanged under its own name, and wherever the library passes an option on to another of its components (solver models, prebinning, transforms, tables, per-variable binnings, sketches, scorecards, counterfactual models) the value arrives at the parameter of the same meaning: no option is dropped, swapped with another one, replaced by a constant or by its default. In particular minimum/maximum, event/non-event, special/missing and x/y options are never exchanged.",
    ["configurations"],
    "all options of all public classes and all values",
    "Tests set few options, mostly one at a time at values where the option is slack.",
    [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "binning_process.py", SK + "binning_sketch.py", SK + "binning_process_sketch.py", D2 + "binning_2d.py", D2 + "continuous_binning_2d.py", PW + "base.py", B + "uncertainty/binning_scenarios.py", SC + "scorecard.py", SC + "monitoring.py", CF + "counterfactual.py"],
    [("constructors", "every public __init__"), ("forwarding call sites", "every call that passes self options to a library callable")],
    ["effective option values"])

add("C10", "Invalid options and inputs are rejected up front",
    "Every fit, build or transform entry point rejects, with a ValueError or TypeError and before any work is done, each option value outside the documented domain: wrong type, wrong sign or range, an unknown choice, or an inconsistent pair (a minimum above its maximum). Values inside the documented domain are accepted, and classes that share an option accept the same values for it.",
    ["configurations", "inputs"],
    "all option values and pairs of all public classes",
    "Tests try one bad value per option for some classes and do not try boundary values.",
    [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "binning_process.py", D2 + "binning_2d.py", SK + "binning_sketch.py", SK + "binning_process_sketch.py", SK + "bsketch.py", PW + "base.py", B + "uncertainty/binning_scenarios.py", B + "outlier.py", B + "mdlp.py", SC + "scorecard.py", SC + "monitoring.py", CF + "counterfactual.py"],
    [("parameter checkers", "_check_parameters and the _check_* functions of every module")],
    ["exceptions raised"])

add("C11", "Results are unavailable until the step that produces them is done",
    "Asking a binning, table, process, sketch, scorecard, monitor or counterfactual for a result before the step that produces it (fit, build, analysis, solve, generate) raises the documented not-done error instead of returning a stale or empty value. The object only becomes fitted/built after the whole step succeeded, so a step that raised leaves it not fitted.",
    ["histories"],
    "all orders of public calls, including failed ones",
    "Tests call methods in the intended order; few negative tests.",
    ["optbinning/binning/base.py", B + "binning_statistics.py", B + "binning_process.py", SK + "binning_sketch.py", SC + "scorecard.py", SC + "monitoring.py", CF + "counterfactual.py"],
    [("guards", "_check_is_fitted, _check_is_built, _check_is_analyzed, _check_is_solved, _check_is_generated")],
    ["exceptions raised"])

add("C12", "Caller data is never modified",
    "No public function or method modifies in place the arrays, data frames, lists or dictionaries the caller passes (features, targets, sample weights, special codes, parameter dictionaries, tables); results are returned in new objects.",
    ["inputs", "histories"],
    "all argument objects, of any dtype and memory layout",
    "Tests never compare their inputs before and after a call, and whether a conversion copies depends on dtype and layout.",
    ["optbinning"],
    [("in-place operations reachable from public arguments", "whole package")],
    ["argument objects after the call"])

add("C13", "Fitting never rewrites options, and a refit forgets the previous fit",
    "Fitting, transforming or reporting leaves every constructor option as the user set it, so cloning and refitting behave the same. A second fit of the same object gives the result a new object with the same options would give: no counter, flag, cached split or per-variable record of an earlier fit influences it.",
    ["histories"],
    "all sequences of fits, transforms and reports",
    "Tests fit each object once.",
    [B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py", B + "mdlp.py", B + "binning_process.py", D2 + "binning_2d.py", PW + "base.py", SC + "scorecard.py"],
    [("state stores of fit", "fit/_fit of every estimator")],
    ["option attributes, results of a second fit"])

add("C14", "Variables of a binning process do not influence each other",
    "In a binning process each variable is fitted and transformed with its own data, its own special codes, fit parameters and transform parameters; the parameters of one variable never apply to another, whatever the order of the variables, the number of jobs, or whether data comes from memory, from disk or from a dictionary. Results do not depend on which of these routes is taken.",
    ["inputs", "configurations", "schedules"],
    "all variable sets and orders, parameter dictionaries, n_jobs, input routes",
    "Tests use one parameter dictionary for one variable, in one order.",
    [B + "binning_process.py", SK + "binning_process_sketch.py"],
    [("per-variable loops", "_fit_variable, _fit_block, _transform, _transform_disk, BinningProcessSketch.add/solve/transform")],
    ["transformed columns"])

add("C15", "Variable selection applies exactly the given criteria",
    "The variables kept by a binning process are those that satisfy every selection criterion (minimum and maximum of the metric, best or worst top-n or top-fraction strategy), plus the variables fixed by the user; a variable that violates a criterion is never kept and one that satisfies all is never dropped. The same rule is used by the in-memory process and by the sketch.",
    ["inputs", "configurations"],
    "all metric values, criteria dictionaries and fixed variables",
    "One test uses one criterion.",
    [B + "binning_process.py"],
    [("selection", "BaseBinningProcess._support_selection_criteria, _binning_selection_criteria")],
    ["get_support"])

add("C16", "Sketches lose and duplicate nothing when adding or merging",
    "Adding data to a sketch and merging sketches keep every clean, special and missing record exactly once, separately for events and non-events, whichever operand is empty or has only special or missing records. Merging is refused for incompatible sketches, and does not make the two sketches share mutable state, so later additions to one do not change the other.",
    ["histories", "inputs"],
    "all sequences of add, merge and solve on any partition of the data",
    "Tests merge two non-empty sketches once.",
    [SK + "bsketch.py", SK + "binning_sketch.py", SK + "gk.py", SK + "binning_process_sketch.py"],
    [("add / merge", "BSketch, BCatSketch, GK, OptimalBinningSketch, BinningProcessSketch")],
    ["bins() counts"])

add("C17", "Scorecard points are the linear rescaling of the fitted model",
    "The points of a scorecard bin are the model coefficient times the bin's metric value (plus the intercept, shared equally between variables when scorecard points include it), scaled by the requested scaling (PDO/odds or min/max, optionally rounded or reversed), and the score of a record is the sum of the points of its bins plus the intercept when it is kept separate. Missing and special bins get the points of their own requested metric.",
    ["inputs", "configurations"],
    "all fitted models, scaling methods and option combinations",
    "Tests compare scores for a few settings; sign, rounding and reverse options interplay is not sampled.",
    [SC + "scorecard.py", SC + "rounding.py"],
    [("scaling", "_compute_scorecard_points, _compute_intercept_based"), ("fit and score", "Scorecard._fit, _transform"), ("rounding", "RoundingMIP")],
    ["points column, score()"])

add("C18", "Monitoring compares expected and actual data in the right roles",
    "Scorecard monitoring bins the training scores to define the score intervals, computes stability (PSI), significance tests and performance from the actual and expected data sets in their own roles, and never exchanges them. PSI per bin and per variable is computed from the proportions of the same bins for both data sets.",
    ["inputs"],
    "all pairs of actual and expected samples",
    "PSI is symmetric in its total and the tests use one pair of samples.",
    [SC + "monitoring.py"],
    [("monitoring", "ScorecardMonitoring._fit_system, _fit_variables, psi/tests/system reports")],
    ["psi_table, tests_table, statistics"])

add("C19", "Counterfactuals satisfy the requested outcome and constraints",
    "Each generated counterfactual picks exactly one bin per changeable feature, keeps fixed the features the user excludes, respects the limit on changes, reaches the requested outcome (class, probability or value within its bound), and optimises the requested objectives; with several counterfactuals each one satisfies this and the diversity options count differing features or values between pairs. Optional constraints are enforced only when requested, as hard constraints or as penalties.",
    ["inputs", "configurations"],
    "all scorecards, queries, objectives, hard and soft constraints",
    "No test reaches this module.",
    [CF + "counterfactual.py", CF + "mip.py", CF + "multi_mip.py", CF + "problem_data.py", CF + "model_data.py", CF + "utils.py"],
    [("models", "CFMIP, MCFMIP"), ("data", "problem_data, model_data"), ("driver", "Counterfactual._generate")],
    ["constraints added to the solver model"])

add("C20", "Results are reproducible",
    "With the same data and options every fit, transform, report and sketch operation gives the same result: randomness is only drawn from the random_state the user gives (None, where it is an option, asks for unseeded draws) or from a fixed seed, and no result depends on the iteration order of unordered collections, on wall-clock time or on the number of jobs.",
    ["histories", "schedules", "configurations"],
    "all repeated runs, hash seeds and n_jobs",
    "A single run cannot show run-to-run differences.",
    ["optbinning"],
    [("sources of nondeterminism", "whole package")],
    ["returned values"])

add("C21", "Saved objects can be restored",
    "An object written with a save or to-JSON method can be read back by the corresponding load or from-JSON method into an object that gives the same tables and transforms: every field the reader needs is written, under the key the reader uses, and what is read back is put in the place it came from. Reading a file of the wrong kind or type is refused.",
    ["inputs", "histories"],
    "all fitted objects",
    "The round trip is tested for one binary table only.",
    [B + "binning.py", B + "binning_process.py", SC + "scorecard.py", B + "continuous_binning.py", B + "multiclass_binning.py"],
    [("JSON", "to_json, read_json"), ("pickle", "save, load")],
    ["restored object"])

add("C22", "Verbosity and reports never change results or state",
    "Verbose output, logging, timing, information summaries, plots and read-only queries do not change the fitted state or any later result, and nothing is printed or logged when verbosity is off.",
    ["histories", "configurations"],
    "all calls of reporting methods in any order, verbose on or off",
    "Tests do not compare state around reporting calls or capture output.",
    ["optbinning"],
    [("guards around logging and print", "whole package"), ("read-only methods", "information, summary, transform, plot, table accessors")],
    ["object state, stdout"])

add("C23", "Piecewise binning uses the right statistics for every record",
    "A piecewise binning evaluates for each clean record the fitted piece of the interval the value falls in, clipped to the user's bounds, and reports metric values (event rate or weight of evidence, mean) of the special and missing groups from their own events and non-events. Options for bounds, degree, continuity, monotonicity, solver and objective reach the optimiser, and transform and fit-transform agree.",
    ["inputs", "configurations"],
    "all data and options of the piecewise classes",
    "The two piecewise tests use data without special or missing records and without bounds.",
    [PW + "base.py", PW + "binning.py", PW + "continuous_binning.py", PW + "transformations.py", PW + "metrics.py", PW + "binning_statistics.py"],
    [("piecewise pipeline", "BasePWBinning, OptimalPWBinning, ContinuousOptimalPWBinning"), ("transforms", "transform_binary_target, transform_continuous_target"), ("metrics", "binary_metrics, continuous_metrics")],
    ["transform output, statistics"])

add("C24", "Prebinning and outlier detection follow their configuration",
    "The prebinning step uses the requested method (tree, quantile, uniform, entropy-based) with the number of prebins, minimum prebin size, class weights and extra options given for the problem type, and prebins that cannot carry statistics (empty, or without events or non-events) are merged or separated before optimisation. Outlier detectors flag exactly the values outside the documented range, z-score or quantile rule.",
    ["inputs", "configurations"],
    "all data and prebinning / outlier options",
    "The detectors are not exercised by the runnable tests, and prebinning is only seen through final tables.",
    [B + "prebinning.py", B + "mdlp.py", B + "outlier.py", B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py"],
    [("prebinning", "PreBinning.fit, MDLP"), ("refinement", "_prebinning_refinement, _compute_prebins"), ("detectors", B + "outlier.py")],
    ["prebin splits and counts, outlier mask"])

add("C25", "Automatic trend selection stays within the requested family",
    "When an automatic monotonic trend is requested, the trend that is used is computed from the fitted prebin statistics only, always belongs to the requested family (any; ascending/descending only; heuristic or exact peak/valley), and the change point of a heuristic peak or valley is the position of the extreme of the rates. A trend given explicitly by the user is used as given. The trend a table or a piecewise fit names is true of its rates: ascending exactly when no rate falls, descending when none rises, otherwise a peak (valley) only when the rates rise (fall) up to one bin and fall (rise) after it.",
    ["inputs", "configurations"],
    "all prebin statistics and all trend options",
    "Tests check the chosen trend for a few variables.",
    [B + "auto_monotonic.py", B + "binning.py", B + "continuous_binning.py", B + "multiclass_binning.py"],
    [("trend decision", B + "auto_monotonic.py"), ("dispatch", "_fit_optimizer")],
    ["trend passed to the solver"])

add("C26", "Scenario-based binning treats every scenario alike",
    "In binning under uncertainty every scenario contributes its own records, weight and statistics to the model: constraints hold in every scenario, the objective is the weighted average of the scenarios' measures (equal weights by default), and per-scenario tables use that scenario's data. Permuting the scenarios together with their weights does not change the splits.",
    ["inputs", "configurations"],
    "all numbers of scenarios, weights and options",
    "One test class covers three scenarios with default options.",
    [B + "uncertainty/binning_scenarios.py", B + "cp.py", B + "preprocessing.py", B + "model_data.py"],
    [("scenario estimator", "SBOptimalBinning"), ("model", "BinningCP.build_model_scenarios"), ("split", "split_data_scenarios")],
    ["splits, scenario tables"])

add("C27", "Library calls agree with the interfaces they call",
    "No public operation fails with an internal programming error (wrong number of arguments or results, unknown keyword, attribute or variable that was never set, or an interface removed from a dependency) on any supported option value; the only errors raised are the documented ones.",
    ["inputs", "configurations"],
    "all option combinations, including rarely used ones",
    "A wrong call on a rarely taken branch is only seen when that branch runs.",
    ["optbinning"],
    [("call sites, result unpacking, name and attribute use", "whole package")],
    ["exceptions raised"])

add("C28", "The summary statistics report the options and state in use",
    "The information report lists, for each option, the value in use and marks it as default exactly when it equals the documented default of the class; the reported counts, status and objective are those of the last fit, and time statistics are labelled with the step they measure.",
    ["configurations"],
    "all options of all classes with an information method",
    "Printed reports are not inspected by tests.",
    ["optbinning/options.py", "optbinning/information.py", B + "binning_information.py", SC + "scorecard_information.py", SC + "monitoring_information.py", CF + "counterfactual_information.py", SK + "bsketch_information.py", PW + "binning_information.py", B + "binning_process_information.py", SK + "binning_process_sketch_information.py"],
    [("default option tables", "optbinning/options.py"), ("report", "print_*information functions, information.py")],
    ["printed report"])

add("N01", "The solution found is the global optimum",
    "Among all binnings that satisfy the constraints the one returned has the largest objective value.",
    ["inputs"], "all data and constraints",
    "Needs the optimum over all data.",
    [B + "cp.py", B + "mip.py"],
    [("external solver", "OR-Tools")])

add("N02", "Quantile sketch rank error stays within epsilon",
    "For every stream and every merge tree, each quantile the sketch returns has rank error at most eps times the number of values, and the sketch size stays sublinear.",
    ["histories", "inputs"], "all streams and merge trees",
    "Any finite number of streams can miss the worst case.",
    [SK + "gk.py"],
    [("Greenwald-Khanna summary", SK + "gk.py")])

add("N03", "Numerical results are accurate to rounding error",
    "Tables, points and counterfactual scores agree with exact arithmetic to within documented rounding.",
    ["inputs"], "all data magnitudes",
    "Rounding behaviour at extreme magnitudes is not sampled.",
    [B + "metrics.py", SC + "scorecard.py"],
    [("floating point", "numpy")])

add("N04", "Fits finish within the time limit",
    "A fit with a time limit returns within that limit plus preprocessing time proportional to the data size.",
    ["inputs", "schedules"], "all data and limits",
    "Timing is environment dependent.",
    [B + "cp.py", B + "mip.py"],
    [("solver time limit", "solve methods")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
