"""Writes properties.jsonl and MANIFEST.json from the table below (not run by any check)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TRI, BASE = "trikit/triangle.py", "trikit/estimators/base.py"
MACK, BOOT, UT = "trikit/estimators/mack.py", "trikit/estimators/bootstrap.py", "trikit/utils.py"

# id, title, statement, (over, quantifier text), why tests cannot, files, mechanisms [(name, where)], observe
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe, "hook_needed": None}})


prop("T01", "Triangle cells equal the recorded loss amounts",
     "A triangle built by totri from tabular incremental records has one row per origin and one column per development "
     "period with recorded amounts, both ascending; an incremental cell is the sum of that origin and period's records, "
     "and a cumulative cell is the sum of the origin's records up to that period. "
     "Records without an amount count as missing; in a cumulative triangle a missing first-period cell is 1, any other missing "
     "cell at or above the last observed origin of its period repeats the previous period's amount, and the rest are empty. "
     "A first-development-period amount that totals zero or less is replaced by 1, without changing later cumulative amounts.",
     ["inputs"], "every set of (origin, dev, amount) records: any cells present or missing, any amounts, any number of "
     "records per cell, any record order, any integer labels and any size",
     "the tests build triangles from one complete, sorted, positive dataset (raa) with one record per cell",
     [TRI], [("totri, _BaseTriangle.__init__, _neg_handler, _BaseCumTriangle.__init__", TRI)],
     ["totri(data)", "totri(data, tri_type='incr')"])

prop("T02", "Equivalent representations of the same losses give the same triangle",
     "The same losses give the same triangle of a requested type whether they are supplied as incremental or cumulative "
     "amounts and as tabular records or as a triangle-shaped table. "
     "The names of the origin, dev and value columns, additional columns, the order of records and the index of tabular data, "
     "and the spelling of the row index name of triangle-shaped data do not affect cells, labels or any amount later derived "
     "from the triangle (latest diagonal, conversions, estimates).",
     ["inputs", "configurations"], "every loss history x 4 input representations x 2 triangle types x column names x record "
     "orders x index labels x label schemes",
     "tests compare representations for one dataset and always use default column names in sorted order",
     [TRI], [("totri data_format/data_shape branches", TRI), ("origin/dev/value column name handling", TRI)],
     ["totri", "CumTriangle.latest", "to_tbl", "base_cl"])

prop("T03", "Conversions between triangle representations lose nothing",
     "Converting a triangle between incremental and cumulative form (to_incr, to_cum) and back returns the same amounts when "
     "no cell is missing at or above the last observed origin of its period; to_tbl lists exactly one record per non-empty cell in origin and development order (with dropna=False also the empty "
     "cells), and building a triangle from to_tbl output reproduces the original. "
     "A converted triangle then equals the triangle of that type built directly from the original records if these have "
     "positive first-period amounts.",
     ["inputs", "histories"], "every triangle x every sequence of conversions up to the depth bound, including negative and "
     "zero increments and non-default labels",
     "tests check a single conversion of one dataset",
     [TRI], [("to_incr, to_cum, to_tbl", TRI)], ["to_incr", "to_cum", "to_tbl", "totri"])

prop("T04", "Computations never modify their inputs or earlier results",
     "No triangle construction, property, conversion, average, estimate, quantile or exhibit changes the data, triangle, "
     "factor selection or quantile list it is given, nor any object previously returned. "
     "A result obtained before further calls, including plots, still holds the same values after them.",
     ["histories", "inputs"], "every public operation, and every sequence of two operations, on every kind of argument",
     "tests look at the value returned and never at the arguments or at earlier results",
     [TRI, BASE, MACK, BOOT], [("copies of tri, sel, q, reserve_dist before modification", "all estimators")],
     ["arguments and earlier results, compared before and after every call"])

prop("T05", "Structural views agree with the triangle's cells",
     "latest, latest_by_origin and latest_by_devp give, for every origin, its last observed amount with its origin and "
     "development period; rlvi and clvi give the last observed period of each origin and the last observed origin of each "
     "period with their positions; nbr_cells counts non-empty cells; origins and devp list the labels in order. "
     "triind is 0 for observed cells and 1 below the last observed origin of each period, and maturity is the last period "
     "marked observed. "
     "diagonal(offset) on a run-off triangle returns the amounts abs(offset) diagonals before the latest one, in origin order.",
     ["inputs"], "every triangle shape (run-off, rectangular, unequal origin and period counts), with missing cells, any "
     "labels, incremental and cumulative",
     "tests check these views on the square raa triangle only",
     [TRI], [("latest, rlvi, clvi, triind, maturity, diagonal, nbr_cells", TRI)],
     ["CumTriangle and IncrTriangle properties"])

prop("T06", "Link ratios and their averages follow their definitions",
     "a2a holds, for every origin and every development period but the last, the ratio of the next period's cumulative amount "
     "to the period's own amount, where both are observed. "
     "a2a_avgs holds for every development period the simple, geometric, medial (mean after dropping one smallest and one "
     "largest of three or more ratios) and volume-weighted averages over all origins ('all-<kind>') and over the latest k "
     "observed origins ('<kind>-k'), for every k below the number of origins with link ratios. "
     "a2aind is initially 1 for exactly the observed ratios, and a2a_lvi gives the last origin with a ratio and its position for each period.",
     ["inputs", "configurations"], "every positive cumulative triangle x average kind x window length x development period, "
     "including tied ratios, windows longer than the column and fully observed columns",
     "tests compare sums over a few averages of one dataset without ties",
     [TRI], [("a2a, a2a_avgs, _simple, _geometric, _medial", TRI)], ["a2a", "a2a_avgs", "a2aind", "a2a_lvi"])

prop("T07", "Excluded link ratios have no influence; re-including restores",
     "A link ratio set to 0 in a2aind (by the setter or by direct assignment) has no influence on any average of its "
     "development period, on base_cl estimates, or on Mack factors, and all other periods' values are unchanged. "
     "Values depend only on the current set of exclusions, not on the order or history of changes, so re-including a ratio "
     "restores every value; a column whose ratios are all excluded has no average.",
     ["histories", "inputs"], "every set of exclusions and every sequence of exclude/include operations up to the depth "
     "bound, with every average, interleaved with reads of cached results",
     "no existing test excludes a link ratio and looks at the averages or estimates",
     [TRI, MACK, BASE], [("a2aind and its use in a2a_avgs", TRI), ("mod_a2aind", MACK)],
     ["a2aind", "a2a_avgs", "base_cl().ldfs", "mack_cl().ldfs"])

prop("T08", "Chain ladder results follow the development technique",
     "For every origin base_cl reports its maturity, latest amount, the product of the factors from its maturity on (tail "
     "included) as cldf, emergence 1/cldf, ultimate latest x cldf and reserve ultimate - latest; totals are sums over "
     "origins, with no cldf or emergence. "
     "trisqrd keeps every observed amount, develops every missing amount from the preceding period by that period's factor, "
     "and its ultimate column is the last period times the tail and equals the reported ultimate on a triangle without gaps. "
     "The factors used are the selected row of a2a_avgs followed by the tail at the last development period.",
     ["inputs", "configurations"], "every positive cumulative triangle x every average selection x tail factors above, at and "
     "below 1, square and rectangular shapes, any labels",
     "tests compare totals for raa with a few selections",
     [BASE, TRI], [("BaseChainLadder.__call__, _ldfs, _cldfs, _ultimates, _reserves, _trisqrd", BASE)],
     ["base_cl().summary", "base_cl().trisqrd", "base_cl().ldfs"])

prop("T09", "Supplied development factors are used exactly as given",
     "base_cl with a list, tuple, array or Series of factors (one per development period but the last) uses those factors in "
     "development order and the tail at the last period, giving results equal to the development technique with them; the "
     "container and numeric type make no difference. "
     "Passing the values of an a2a_avgs row gives the same estimates as naming the row, and a sequence of any other length "
     "is rejected with an error.",
     ["inputs", "configurations"], "every factor vector over the value alphabet (below, at and above 1) x container type x "
     "tail x triangle size",
     "tests pass one list of factors for one dataset",
     [BASE], [("BaseChainLadder.__call__ sel handling", BASE)], ["base_cl(sel=...)"])

prop("T10", "Estimates do not depend on labels or currency unit",
     "Relabelling origins and development periods in any order-preserving way changes only the labels of base_cl, mack_cl "
     "and boot_cl results, not their numbers. "
     "Multiplying all amounts by a positive constant multiplies amounts (latest, ultimates, reserves, standard errors, "
     "quantiles) by it and leaves factors, emergence and coefficients of variation unchanged, for base_cl and for mack_cl "
     "with normal or (where reserves are positive) lognormal distribution.",
     ["inputs"], "every order-preserving relabelling in the scheme set x scale factors x triangles x estimator settings",
     "tests use one label scheme per dataset and never compare two runs",
     [TRI, BASE, MACK, BOOT], [("label- and scale-dependent steps of the estimators", "all estimators")],
     ["base_cl", "mack_cl", "boot_cl"])

prop("T11", "Mack factors and point estimates follow the model",
     "On a run-off triangle mack_cl's factor for a development period is the mean of its link ratios weighted by the "
     "starting amount raised to alpha (0, 1 or 2), with factor 1 at the last period, and maturity, cldf, emergence, latest, "
     "ultimate, reserve, their totals and the squared triangle follow from these factors as for the chain ladder. "
     "With alpha=1 every one of these equals base_cl with all-weighted factors and tail 1, whatever dist, q or two_sided.",
     ["inputs", "configurations"], "every run-off triangle of 4 or more periods in the bounded space x alpha x dist x q",
     "tests check totals of one dataset with default labels",
     [MACK, BASE], [("MackChainLadder._ldfs and __call__", MACK)], ["mack_cl().summary", "mack_cl().ldfs", "mack_cl().trisqrd"])

prop("T12", "Mack standard errors follow the recursive mean squared error",
     "devpvar is Mack's variance of each development period (weighted squared deviations of link ratios over the degrees of "
     "freedom, the last one by Mack's extrapolation) and ldfvar is that variance over the period's total weight, for alpha "
     "0, 1 and 2; link ratios excluded in a2aind have weight zero in both. "
     "process_error and parameter_error of every origin equal the recursions from these variances, std_error is the root of "
     "their sum, the total std_error includes the covariance between origins caused by common factors, and cv is std_error "
     "over reserve; the fully developed origin has no error.",
     ["inputs", "configurations"], "every run-off triangle of 4 or more periods in the bounded space x alpha",
     "tests check rounded totals for one dataset with alpha 1",
     [MACK], [("_devp_variance, _ldf_variance, _process_error, _parameter_error, mse_total", MACK)],
     ["mack_cl().summary", "devpvar", "ldfvar", "process_error", "parameter_error"])

prop("T13", "Mack reserve distributions match the estimate's mean and error",
     "For every origin but the fully developed one, and in total, the distribution in rvs has the reserve as its mean and "
     "std_error as its standard deviation, normal or (for positive reserves) lognormal as requested. "
     "The quantile columns of summary and the output of get_quantiles are the quantiles of these distributions, "
     "non-decreasing in q, and two_sided=True reports the (1-q)/2 and (1+q)/2 quantiles.",
     ["inputs", "configurations"], "every triangle in the bounded space x alpha x dist x quantile lists x two_sided",
     "tests check one dataset's totals at two quantiles",
     [MACK, BASE], [("dist parameterisation and quantile columns in __call__", MACK), ("get_quantiles", MACK)],
     ["mack_cl().rvs", "mack_cl().summary", "mack_cl().get_quantiles"])

prop("T14", "Mack assumption tests compute the published statistics",
     "devp_corr_test returns Mack's weighted Spearman rank correlation of link ratios of adjacent development periods (ties "
     "ranked by their mean) with bounds of plus and minus the central-p normal quantile times its standard deviation, "
     "whatever the state of the random number generator; ranked_a2a holds these ranks. "
     "cy_effects_test returns the sum over calendar diagonals with at least two ratios of min(small, large) link ratio counts "
     "relative to the period medians, with bounds E[Z] -/+ the two-sided normal quantile times sd[Z]; a2a_assignment marks ratios above, below and at the median +1, -1 and 0.",
     ["inputs", "configurations"], "every joint rank pattern of link ratios in the bounded space, including ties, x labels x p",
     "tests check both on one dataset; rank patterns and ties are a combinatorial space",
     [MACK, TRI], [("devp_corr_test, cy_effects_test, _cy_effects_table", MACK), ("ranked_a2a, a2a_assignment", TRI)],
     ["devp_corr_test", "cy_effects_test", "ranked_a2a", "a2a_assignment"])

prop("T15", "Bootstrap fit, residuals and scale follow the ODP model",
     "boot_cl's fitted cumulative triangle has the observed latest diagonal and recedes by the all-weighted factors; the "
     "fitted incremental triangle is its differences; unscaled residuals are (actual - fitted)/sqrt(|fitted|) per observed "
     "cell. "
     "scale_param is the sum of squared unscaled residuals over the degrees of freedom dof = cells - (periods - 1) + origins, "
     "adjusted residuals are unscaled ones times sqrt(cells/dof), the sampling distribution is the non-zero adjusted "
     "residuals outside the last origin and last period, and residuals_detail summarises the residuals.",
     ["inputs"], "every run-off triangle in the bounded space, including negative increments and arbitrary labels",
     "tests check sums of one dataset; cell-wise values and negative increments are not reached",
     [BOOT], [("_tri_fit_cum, _tri_fit_incr, _resid_us, _resid_adj, _scale_param, _sampling_dist, dof", BOOT)],
     ["boot_cl() result attributes"])

prop("T16", "Bootstrap simulations apply resampling and process error exactly",
     "In every simulation each observed cell's resampled increment is fitted + residual x sqrt(|fitted|), with the residual "
     "taken from the sampling distribution (or from a centred normal of its standard deviation when parametric); resampled "
     "increments are cumulated, factors are the all-origin weighted averages of the resampled triangle, and each origin is "
     "developed from its resampled latest amount by them. "
     "Each future increment is drawn from a gamma distribution with the absolute forecast increment as mean and that times "
     "scale_param as variance, with the forecast's sign, and a simulation's ultimate for an origin is its resampled latest "
     "amount plus the drawn increments.",
     ["inputs", "schedules"], "every answer of the random number generator in the bounded alphabet (residual assigned to each "
     "cell, gamma outcome), x number of simulations x triangles",
     "tests fix one seed and compare one rounded total",
     [BOOT], [("_bs_samples, _bs_ldfs, _bs_forecasts, _bs_process_error", BOOT)], ["boot_cl().sims_data", "boot_cl().reserve_dist"])

prop("T17", "Bootstrap summaries aggregate exactly the simulations run",
     "reserve_dist has one record per simulation and origin plus one total per simulation that is the sum over origins, and "
     "each reserve is that simulation's ultimate less its latest amount, zero for the fully developed origin. "
     "In summary, latest is the observed amount, ultimate is the mean simulated ultimate (the observed amount for the fully "
     "developed origin), reserve is ultimate less latest, std_error is the sample standard deviation of simulated reserves "
     "by origin and in total, cv is std_error over reserve, and quantile columns are sample quantiles of simulated reserves "
     "with the requested interpolation; totals sum the origins. "
     "origin_dist lists per simulation and origin the same amounts as reserve_dist.",
     ["inputs", "configurations"], "every triangle in the bounded space x sims x seeds x parametric x q x two_sided x interpolation",
     "tests check totals of one run",
     [BOOT], [("_bs_reserves, _bs_std_error, __call__ aggregation, origin_dist", BOOT)],
     ["boot_cl().summary", "reserve_dist", "origin_dist"])

prop("T18", "random_state makes bootstrap runs reproducible and isolated",
     "With an integer random_state (Python or numpy integer) boot_cl returns identical results every time whatever ran "
     "before, and leaves numpy's global generator untouched; different seeds give different simulations. "
     "With a RandomState, draws continue from and advance that generator only; with None, draws come from and advance "
     "numpy's global generator, so after np.random.seed(s) a run gives what a RandomState(s) gives, and two runs in a row differ.",
     ["histories"], "every sequence of boot_cl calls, global re-seedings and global draws up to the depth bound x kinds of "
     "random_state x parametric",
     "tests run one seed once",
     [BOOT], [("random_state handling in _bs_samples and _bs_process_error", BOOT)], ["boot_cl(random_state=...)", "np.random.get_state()"])

prop("T19", "Results do not depend on what was computed before",
     "Every property, method and estimate of a triangle returns the same values whether it is the first call on a fresh "
     "triangle or follows any other calls on it, on results obtained from it, or on other triangles. "
     "Two triangles alive at the same time never influence one another.",
     ["histories"], "every sequence of public operations up to the depth bound on one triangle and interleaved on two",
     "tests call one operation per triangle in one order",
     [TRI, BASE, MACK, BOOT], [("lazily cached properties", TRI), ("cached mod_tri, dof, dfrlvi", "estimators")],
     ["all public operations"])

prop("T20", "Quantile requests are answered per quantile and labelled with it",
     "get_quantiles, for Mack and bootstrap results, returns one column per distinct requested quantile in ascending order, "
     "labelled by its percentile with the right ordinal suffix, and summary has a '<percent>%' column for each q (for both "
     "interval ends when two_sided); a number, list, tuple or array in any order, with duplicates, is accepted, and a "
     "quantile outside [0, 1] is rejected with an error. "
     "Bootstrap quantiles are sample quantiles with the requested interpolation, raised to lb where below it, and "
     "both agree with the summary's columns for the same q.",
     ["inputs", "configurations"], "every quantile list over the alphabet (all whole percents, halves and fractions, 0, 1, "
     "out of range) x container x order x interpolation x lb",
     "tests ask for two or three quantiles",
     [BASE, MACK, BOOT], [("_qtls_formatter (both), get_quantiles", "trikit/estimators")], ["get_quantiles", "summary columns"])

prop("T21", "Sample datasets load completely and consistently",
     "get_datasets lists every loadable sample dataset in order, without the CAS database; load returns exactly the origin, "
     "dev and value fields of all records of the named file, and with tri_type the triangle totri builds from them. "
     "Unknown names and triangle types are rejected with an error, and modifying a loaded dataset does not affect later loads.",
     ["configurations", "histories"], "every dataset x every tri_type spelling x repeated and interleaved loads, and every "
     "small synthetic dataset file in the bounded space",
     "tests check shapes and sums of some datasets",
     [UT, "trikit/datasets/__init__.py", "trikit/__init__.py"], [("_load, _get_datasets, dataref", UT)], ["load", "get_datasets"])

prop("T22", "CAS database queries select exactly the matching records",
     "load_lrdb returns, in file order, exactly the records matching every given filter (lob, grcode, grname; None means no "
     "filter) with the requested loss type, only training records unless train_only is False; with tri_type it returns the "
     "triangle aggregating those records. "
     "A filter value absent from the records left by the preceding filters is rejected; get_lrdb_lobs and get_lrdb_specs "
     "list exactly the distinct lines and the distinct (loss_key, grcode, grname) combinations of the database, in order.",
     ["inputs", "configurations"], "every combination of filter values, loss type, train_only and tri_type on every small "
     "synthetic database in the bounded space",
     "tests need the full CAS file, which is not packaged, and query a handful of combinations",
     [UT], [("_load_lrdb, _get_lrdb_lobs, _get_lrdb_specs", UT)], ["load_lrdb", "get_lrdb_lobs", "get_lrdb_specs"])

prop("T23", "Exhibits draw the numbers of the result they belong to",
     "Triangle plots (combined and faceted) draw one line per origin through its observed amounts; base_cl plots draw per "
     "origin the observed amounts and the forecasts up to ultimate, and totals; Mack plots and diagnostics draw each reserve "
     "distribution, its mean and requested quantile, development paths and residuals; bootstrap plots draw actuals, "
     "forecasts and the interval, and hist the simulated reserves and median by origin. "
     "No exhibit fails for any valid triangle and style option, and exhibit_path is written.",
     ["inputs", "configurations"], "every exhibit x triangle size x label scheme x amounts scale x style options in the space",
     "tests never draw an exhibit",
     [TRI, BASE, MACK, BOOT], [("plot, diagnostics, hist and their data transforms", "all modules")],
     ["lines, collections, patches and annotations of the figure"])

prop("T24", "Invalid arguments are rejected, valid spellings accepted",
     "totri rejects data that is not a DataFrame, that lacks the named columns, or an unknown data_shape or data_format; "
     "diagonal rejects offsets beyond the number of periods; base_cl rejects unknown selections and wrong factor counts; "
     "mack_cl rejects an unknown dist; boot_cl rejects an unknown procdist; all reject quantiles outside [0, 1]; load and "
     "load_lrdb reject unknown names, types and filters. "
     "A rejected call leaves triangle and data unchanged, so a following valid call gives the usual result; documented "
     "spellings (upper or lower case and abbreviated data_format and tri_type of totri) are equivalent.",
     ["inputs", "histories"], "every argument position x alphabet of invalid values x following valid call",
     "tests exercise a few errors one at a time",
     [TRI, BASE, MACK, BOOT, UT], [("_validate and argument checks", "all modules")], ["exceptions raised by the public API"])

prop("T25", "Printed triangles and results show every amount, correctly rounded",
     "str, repr and print of a triangle or of an estimator's result show every origin, every column and every amount, whatever the size of "
     "the table or pandas' display options: amounts in whole units with thousands separators, cldf and emergence with five decimals, "
     "cv with three, missing ones as NaN; the amounts themselves are not changed.",
     ["inputs", "configurations"], "every small table of amounts, sizes and labels, display options, kinds of result",
     "tests never print; widths, separators, options and missing cells interact",
     [TRI, BASE, MACK, BOOT], [("__repr__", TRI), ("_formatters, __repr__ of results", BASE + ", " + MACK + ", " + BOOT)],
     ["str, repr and print of triangles and results"])

prop("T26", "Estimator objects can be called again and again",
     "An estimator object (BaseChainLadder, MackChainLadder, BootstrapChainLadder) may be called any number of times, with any arguments, "
     "with rejected calls, exclusions on its triangle and other estimators in between: each call gives what the triangle's own "
     "method gives on a fresh triangle in the same state, for arguments by position or by keyword alike.",
     ["histories"], "every word of calls and triangle operations up to a length, on one or several estimator objects",
     "it is about call histories of one object; tests make one call per object",
     [BASE, MACK, BOOT, TRI], [("__call__ and stored properties of estimators", BASE + ", " + MACK + ", " + BOOT), ("base_cl, mack_cl, boot_cl", TRI)],
     ["results of estimator objects"])

prop("T27", "An interrupted call leaves no trace",
     "If a call on a triangle, estimator or result is interrupted (Ctrl-C) or fails for lack of memory, at any point, then repeating it and "
     "every other call give what they give on an untouched object: no view, factor, estimate or residual is left half built. "
     "An interrupted assignment to a2aind is either made or not made.",
     ["crash_points", "histories"], "every call x every executed source line at which it can be interrupted x every following call",
     "a test cannot place an interrupt at every point of a call; the effect shows only in a later call",
     [TRI, MACK, BOOT, BASE], [("lazily computed and stored properties", TRI), ("mod_tri, dof, dfrlvi", MACK + ", " + BOOT)],
     ["any property or method after an interrupted one"])

prop("T28", "Results do not depend on ambient settings, and leave them alone",
     "What trikit computes does not depend on pandas options (copy-on-write included), numpy's error state and print options, warning "
     "filters, the working directory, global generators (except where simulations are not seeded), environment, interpreter flags or "
     "hash seeds; and neither importing it nor any call changes any of these. (Exhibits may set figure defaults.)",
     ["configurations"], "every setting and pair of settings x every public operation",
     "tests run under one configuration",
     [TRI, BASE, MACK, BOOT, UT], [("every public operation", TRI), ("in place changes of frames", BOOT)],
     ["results under the settings", "the settings after the calls"])

prop("T29", "Calls that overlap in time on shared objects do not disturb each other",
     "Threads that read views, averages, estimates, quantiles or tests of one triangle, estimator or result at the same time each get what "
     "they get alone, whatever the interleaving, and so do all later calls. (Not claimed for exhibits, changes to a2aind during "
     "another call, and simulations without a seed or with a shared generator.)",
     ["schedules"], "every pair of calls x every schedule within the preemption bound",
     "tests are single threaded; a race shows under one of many schedules",
     [TRI, MACK, BOOT, BASE], [("lazily computed and stored properties", TRI), ("mod_tri, dof, dfrlvi", MACK + ", " + BOOT)],
     ["results of the overlapping calls and of later ones"])

prop("T30", "A triangle is a DataFrame: inherited operations work, storing included",
     "Every operation inherited from pandas.DataFrame (selection, arithmetic, aggregation, grouping, windows, reshaping, conversion, export) works on a "
     "cumulative or incremental triangle, whatever was done with it before, gives what it gives on a plain DataFrame with the same cells, and "
     "leaves the triangle alone. A triangle or result restored from a pickle answers every call as the stored one does, exclusions "
     "included, and the two are independent.",
     ["inputs", "histories"], "inherited operations x triangles x earlier use; pickle protocols x triangles and results x following calls",
     "tests use three inherited operations at most and never store a triangle",
     [TRI, BASE, MACK, BOOT], [("_BaseTriangle as DataFrame subclass", TRI), ("result classes", BASE + ", " + MACK + ", " + BOOT)],
     ["inherited methods", "pickled and restored objects"])

prop("T31", "Amounts depend on recorded labels and values, not on how the data holds them",
     "Cells and everything derived from a triangle are the same whichever column types hold the labels and amounts of the data (signed, unsigned, "
     "nullable, float with whole labels, categorical with or without unused categories, object, decimal, sparse), whatever the data's index, column "
     "order, extra columns, memory layout, attributes or DataFrame subclass, and, for triangle-shaped tables, whatever the types of cells and "
     "labels and the order of rows and columns. Cells are floats; labels that are floats only differ in how they are written. (Labels of tabular "
     "data are numbers, not text.)",
     ["inputs"], "types of the fields x forms of the data x triangle types; orders of rows and columns",
     "tests only use frames of int64 and float64 columns read from csv files, rows and columns sorted",
     [TRI], [("totri", TRI), ("_BaseTriangle constructor", TRI), ("a2a_avgs", TRI)],
     ["totri and every operation on its result"])

prop("T32", "What calls return, and what they were given, can be edited freely",
     "Tables, Series, arrays and lists returned by trikit, also as attributes of a result, belong to the caller: overwriting, relabelling or extending "
     "them in place changes neither the triangle, nor what any later call returns (defaults of arguments and packaged data included), nor anything "
     "another call returned before. Neither does editing the data, factors or quantiles after the call that took them. (A result's `tri` is the "
     "triangle itself, and a triangle's `a2aind` is its record of exclusions.)",
     ["inputs", "histories"], "call x object reachable from its result x edit x calls made before x call made afterwards",
     "tests never edit what they get; sharing shows only when an edit is followed by another call",
     [TRI, BASE, MACK, BOOT, UT], [("cached views", TRI), ("results", BASE + ", " + MACK + ", " + BOOT), ("load", UT)],
     ["triangle views", "results of estimators", "datasets", "arguments"])

META = {}
try:
    import meta
    META = meta.META
except ImportError:
    pass

TECH = "explicit-state bounded model checking: exhaustive enumeration of %s on the real code, each compared with a reference model"
NOTE = ("Every case of the stated bounded space (evidence: coverage.bounds) is executed on /repo's code and compared with an "
        "independent pure-Python reference model; nothing is claimed beyond the bounds. Trusts CPython, numpy, pandas, scipy "
        "and the reference model in mc/ref.py; floating point comparisons use relative tolerance 1e-8.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", pid + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": "/verif/mc/run %s quick" % pid,
                "thorough_cmd": "/verif/mc/run %s thorough" % pid,
                "technique": TECH % META.get(pid, "inputs"),
                "level": "model_checking", "level_note": NOTE})
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    man = {"version": 1, "setup_cmd": "/verif/mc/setup", "checks": checks, "not_applicable": na,
           "notes": "All checks share mc/core.py (driver), mc/ref.py (reference model), mc/space.py (input spaces). "
                    "No hooks in /repo are needed: every check uses the public API."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
