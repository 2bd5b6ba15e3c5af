# Each P(...) call: id, title, statement, quantifier over, quantifier text, why tests cannot settle it,
# files, mechanism, observe_at, level note.

NOTE = ("Generated-input search against an independently written reference; gives no proof beyond the cases of the "
        "run. Trusts numpy/pandas arithmetic and the reference formulas.")

P("E01", "Event equalization keeps exactly the cases every series has",
  "Given any verification table and any choice of series, fixed and independent variables, event equalization returns "
  "exactly the input rows whose case (valid time and lead, plus the independent value when asked) occurs for every "
  "combination of series and fixed values. Returned rows carry unchanged contents in input order, and no row is invented, "
  "duplicated or dropped for any other reason. The set kept does not depend on row order or on the order in which series "
  "values are listed.",
  ["inputs", "configurations"],
  "All tables (with duplicated cases, missing series members, grouped series values, integer or text series columns, "
  "missing fixed values) and all series/fixed/independent configurations.",
  "The suite equalizes a handful of stored files and asserts row counts only; it never checks which rows survive nor other "
  "configurations.",
  ["metcalcpy/event_equalize.py", "metcalcpy/agg_stat_event_equalize.py", "metcalcpy/util/utils.py"],
  [("intersection of case strings over permutations of series and fixed values", "metcalcpy/event_equalize.py:event_equalize"),
   ("per-axis driver", "metcalcpy/util/utils.py:equalize_axis_data")],
  ["returned data frame", "tab-separated output file"], NOTE)

P("E02", "Equalizing against a stored case list keeps exactly the listed cases",
  "Equalizing a table against previously computed cases returns exactly the rows, unchanged and in order, whose valid time "
  "and lead appear in the stored list for that variable and series, and an empty table when none do. Run from a parameter "
  "set, the output file holds that result for every variable and series of both axes, each row once, or the input unchanged when "
  "equalization is switched off.",
  ["inputs", "configurations"],
  "All input tables, stored case lists and parameter sets (grouped series values, one or two axes, equalization on or off).",
  "One stored file pair is run and nothing is asserted about the result.",
  ["metcalcpy/event_equalize_against_values.py", "metcalcpy/agg_stat_eqz.py"],
  [("case string membership filter", "metcalcpy/event_equalize_against_values.py:event_equalize_against_values"),
   ("per variable and series driver", "metcalcpy/agg_stat_eqz.py:AggStatEventEqz")],
  ["returned data frame", "tab-separated output file"], NOTE)

P("C01", "Contingency-table scores equal their definitions on the pooled counts",
  "For any set of 2x2 contingency-table rows, every contingency score (including the neighbourhood variants) equals its "
  "published definition evaluated on the column sums, to seven decimals. The answer depends only on the pooled counts, not "
  "on how they are split over rows or in which order the columns come.",
  ["inputs"],
  "All non-negative count tables of any number of rows, any column order, any extra columns.",
  "No baseline test evaluates a single contingency score; only threshold sorting and the ROC table builder are run.",
  ["metcalcpy/util/ctc_statistics.py", "metcalcpy/util/nbrctc_statistics.py", "metcalcpy/sum_stat.py"],
  [("score functions over summed columns", "metcalcpy/util/ctc_statistics.py"),
   ("neighbourhood wrappers", "metcalcpy/util/nbrctc_statistics.py")],
  ["returned score"], NOTE)

P("C02", "Multi-category skill equals its definition on the pooled table",
  "For any set of multi-category contingency tables with the same categories, the multi-category Heidke skill with expected "
  "correct rate equals (accuracy - expected) / (1 - expected) on the summed table, to seven decimals, whatever the number of "
  "categories and however counts are split over rows. It is one exactly when every pair falls on the diagonal.",
  ["inputs"],
  "All table sizes, counts, splits and expected-correct rates.",
  "No baseline test touches the multi-category statistic.",
  ["metcalcpy/util/mcts_statistics.py", "metcalcpy/agg_stat.py"],
  [("diagonal over total", "metcalcpy/util/mcts_statistics.py:calculate_mcts_hss_ec")],
  ["returned score"], NOTE)

P("C03", "ROC curves order thresholds by value and pair each with its own rates",
  "For any contingency tables given per threshold, threshold sorting returns the same rows ordered by numeric "
  "threshold value and, for equal values, by comparison operator (<, <=, ==, >=, >), ascending or descending, and the ROC table has one point per threshold in numeric order whose detection "
  "and false-detection rates are those of the pooled counts of exactly that threshold's rows.",
  ["inputs"],
  "All lists of thresholds (several operators, negative, decimal and multi-digit values, repeated thresholds) and counts, "
  "in any row order.",
  "Tests sort two stored files whose thresholds happen to sort the same as text and as numbers.",
  ["metcalcpy/util/ctc_statistics.py"],
  [("operator weight then numeric value sort", "metcalcpy/util/ctc_statistics.py:sort_by_thresh"),
   ("per-threshold rates", "metcalcpy/util/ctc_statistics.py:calculate_ctc_roc")],
  ["returned data frame"], NOTE)

P("C04", "Economic value follows the cost/loss model from the pooled table",
  "For any contingency or probability table and any cost/loss ratios, the relative economic value, hit rate, "
  "false-alarm rate, base rate and maximum value equal those of the standard cost/loss decision model on the pooled "
  "counts; the best value is attained at the base rate and equals hit rate minus false-alarm rate. Adding the "
  "base rate inserts it into the ratio list in order without changing the values at the other ratios.",
  ["inputs"],
  "All count tables, threshold choices and cost/loss grids with or without the base rate.",
  "One stored table is asserted at one grid.",
  ["metcalcpy/util/eclv_statistics.py", "metcalcpy/util/ctc_statistics.py"],
  [("piecewise value curve", "metcalcpy/util/ctc_statistics.py:calculate_economic_value"),
   ("table pooling and thresholding", "metcalcpy/util/eclv_statistics.py:calculate_eclv")],
  ["returned dictionary"], NOTE)

P("L01", "Scalar partial-sum statistics equal those of the underlying pairs",
  "For any forecast/observation pairs distributed over rows of scalar or anomaly partial sums, every continuous statistic "
  "(means, standard deviations, errors, correlation, skill, scatter index, anomaly correlation, gradient and spread-skill "
  "variants included) computed from the rows equals the same statistic computed directly from all pairs, within rounding.",
  ["inputs"],
  "All pair sets, all splits of the pairs over rows, single-row and aggregated evaluation.",
  "No baseline test compares a statistic computed from partial sums with raw pairs; only one mean is asserted on stored data.",
  ["metcalcpy/util/sl1l2_statistics.py", "metcalcpy/util/sal1l2_statistics.py", "metcalcpy/util/ssvar_statistics.py",
   "metcalcpy/util/grad_statistics.py", "metcalcpy/agg_stat.py"],
  [("weighted partial sums divided by the total", "metcalcpy/util/sl1l2_statistics.py"),
   ("anomaly partial sums", "metcalcpy/util/sal1l2_statistics.py"),
   ("row weighting before aggregation", "metcalcpy/agg_stat.py:_prepare_*_data")],
  ["returned statistic", "aggregated output file"], NOTE)

P("L02", "Vector wind statistics equal those of the underlying wind pairs",
  "For any forecast/observed wind vectors distributed over rows of vector partial sums, every vector statistic (speeds, "
  "variances, vector errors, speed errors, directions in degrees, anomaly correlation) computed from the rows equals the same quantity "
  "computed directly from all vectors, within rounding.",
  ["inputs"],
  "All wind pair sets in every quadrant, all splits over rows, single-row and aggregated evaluation.",
  "No baseline test evaluates any vector statistic.",
  ["metcalcpy/util/vl1l2_statistics.py", "metcalcpy/util/val1l2_statistics.py", "metcalcpy/util/vcnt_statistics.py",
   "metcalcpy/util/met_stats.py"],
  [("vector partial sums", "metcalcpy/util/vl1l2_statistics.py"),
   ("vector continuous statistics", "metcalcpy/util/vcnt_statistics.py")],
  ["returned statistic"], NOTE)

P("L03", "Ensemble and neighbourhood statistics aggregate as pair-weighted means",
  "For any rows of ensemble, ranked-probability or neighbourhood continuous statistics, the aggregated value equals the "
  "definition applied to the pair-count weighted means of the row values (squares averaged before roots, skill scores "
  "formed from averaged components). A single row reproduces its own value, and splitting or merging rows with equal "
  "values changes nothing.",
  ["inputs"],
  "All row sets with any weights; single-row and aggregated evaluation.",
  "Only the ensemble spread and error of one stored file are asserted.",
  ["metcalcpy/util/ecnt_statistics.py", "metcalcpy/util/rps_statistics.py", "metcalcpy/util/nbrcnt_statistics.py",
   "metcalcpy/agg_stat.py"],
  [("weighted averages", "metcalcpy/util/ecnt_statistics.py:weighted_average"),
   ("row weighting before aggregation", "metcalcpy/agg_stat.py:_prepare_ecnt_data")],
  ["returned statistic", "aggregated output file"], NOTE)

P("L04", "Probability-forecast scores satisfy their definitions and decomposition",
  "For any probability-bin counts, base rate, reliability, resolution, uncertainty, Brier score and skill, calibration, bin "
  "counts and ROC area equal their definitions on the pooled bins, the Brier score equals reliability minus resolution plus "
  "uncertainty, and the ROC area lies between zero and one. Only the pooled bin counts matter, not the row order or split.",
  ["inputs"],
  "All bin tables including bins with no forecasts and tables with only events or only non-events.",
  "One stored file's ROC area is asserted; the other scores are never run.",
  ["metcalcpy/util/pstd_statistics.py"],
  [("bin pooling and score terms", "metcalcpy/util/pstd_statistics.py")],
  ["returned score"], NOTE)

P("M01", "Object ratio statistics count exactly the objects their name selects",
  "For any non-empty set of matched/unmatched, simple/cluster, forecast/observed objects, every object-count, area, and volume ratio and every "
  "object-based contingency score (hits, misses, false alarms, CSI, POD, FAR) equals the same quotient obtained by naively "
  "counting (or summing the size of) the objects its name denotes. Row order does not matter.",
  ["inputs"],
  "All object sets, for plain, two-dimensional and three-dimensional object statistics.",
  "No baseline test evaluates any of the two hundred object statistics.",
  ["metcalcpy/util/mode_ratio_statistics.py", "metcalcpy/util/mode_arearat_statistics.py",
   "metcalcpy/util/mode_2d_ratio_statistics.py", "metcalcpy/util/mode_2d_arearat_statistics.py",
   "metcalcpy/util/mode_3d_ratio_statistics.py", "metcalcpy/util/mode_3d_volrat_statistics.py"],
  [("flag filters on object rows", "metcalcpy/util/mode_*_statistics.py"),
   ("row filter", "metcalcpy/util/utils.py:column_data_by_name_value")],
  ["returned ratio"], NOTE)

P("M02", "Track revision diagnostics never mix values of different tracks",
  "For any table of tracked objects, the revision series places each object's values together in row order with one missing "
  "value between objects, and the reported left-sided runs-test probability about the median, autocorrelation at the requested lag and "
  "its significance limit are those of that series with its mean removed. They are missing for constant or too little data and "
  "do not depend on how the objects' rows are interleaved.",
  ["inputs"],
  "All collections of objects, values, interleavings in time and lag choices.",
  "One stored file is asserted.",
  ["metcalcpy/util/utils.py", "metcalcpy/util/wald_wolfowitz_runs_test.py", "metcalcpy/util/correlation.py"],
  [("per-object separation of the series", "metcalcpy/util/utils.py:calculate_mtd_revision_stats")],
  ["returned dictionary"], NOTE)

P("N01", "Missing or degenerate data give a missing statistic, never a failure",
  "For every statistic and any table in which needed columns are wholly missing, values are partly missing, totals are zero "
  "or a denominator vanishes, the call returns either a finite number or the missing marker and never raises, and "
  "a statistic whose defining quotient has a zero denominator is reported missing rather than as a number.",
  ["inputs", "fault_sequences"],
  "All statistics by all placements of missing values, all-missing columns, empty tables and zero totals.",
  "Tests only feed complete, well-behaved tables.",
  ["metcalcpy/sum_stat.py", "metcalcpy/util/utils.py", "metcalcpy/util/ctc_statistics.py", "metcalcpy/util/sl1l2_statistics.py",
   "metcalcpy/util/ecnt_statistics.py", "metcalcpy/util/vcnt_statistics.py"],
  [("exceptions and warnings mapped to missing", "metcalcpy/util/*_statistics.py"),
   ("missing-aware column sums", "metcalcpy/util/utils.py:sum_column_data_by_name")],
  ["returned statistic"], NOTE)

P("N02", "Computing a statistic leaves its inputs and later results unchanged",
  "Evaluating any statistic, correlation, test or curve on a table leaves the table, the column list and the parameters as they were, "
  "and repeating the call, or making other calls in between, gives the identical result.",
  ["histories", "inputs"],
  "All sequences of calls over all statistics and tables, including calls that end in a missing value.",
  "Each test makes one call on fresh data, so neither mutation nor carried-over state can show.",
  ["metcalcpy/sum_stat.py", "metcalcpy/util/ctc_statistics.py", "metcalcpy/util/pstd_statistics.py", "metcalcpy/util/eclv_statistics.py",
   "metcalcpy/util/correlation.py", "metcalcpy/util/utils.py"],
  [("functions work on copies", "metcalcpy/util/*_statistics.py")],
  ["returned statistic", "argument objects"], NOTE)

P("A01", "Aggregated statistics come from exactly the rows of each series point",
  "Running the aggregation on any input file and parameter set writes one row per series point, independent value and "
  "statistic, whose value equals the statistic of exactly the input rows matching that point's series values (members of "
  "a group pooled together), independent value, variable and, when equalization is on, the equalized cases. The row "
  "reports the number of those rows; points with no data are reported missing. Rows replace what the output file held, or "
  "follow it when appending is asked for.",
  ["inputs", "configurations"],
  "All input tables and parameter sets over line types, groups, one or two axes, with or without event equalization.",
  "Five stored parameter sets are run and single values asserted.",
  ["metcalcpy/agg_stat.py", "metcalcpy/util/utils.py"],
  [("row selection per point", "metcalcpy/agg_stat.py:_proceed_with_axis"),
   ("statistic dispatch", "metcalcpy/agg_stat.py:_calc_stats")],
  ["tab-separated output file"], NOTE)

P("A02", "Aggregation is invariant under how data are split, ordered and labelled",
  "Splitting one table row into several that pool to it, permuting input rows, reordering columns, adding "
  "rows of unrelated series, or renaming series consistently in data and parameters does not change any aggregated value "
  "beyond rounding. Grouping values under one series gives the same value as if all those rows had carried one common series value.",
  ["inputs", "configurations"],
  "All input tables and parameter sets and all such transformations of them.",
  "Tests run one fixed ordering of one fixed file.",
  ["metcalcpy/agg_stat.py", "metcalcpy/sum_stat.py"],
  [("pooled sums per point", "metcalcpy/agg_stat.py")],
  ["tab-separated output file"], NOTE)

P("A03", "Summary statistics are computed row by row from each row's own columns",
  "Running the summary on any input file and parameter set appends to every selected row the value of each requested statistic "
  "computed from that row alone, leaves all other columns as they were and preserves the rows. With field groups "
  "that ask for aggregation the rows are first combined into their pair-weighted combination per "
  "valid time and lead.",
  ["inputs", "configurations"],
  "All tables and parameter sets over line types, with or without equalization and special groups.",
  "No baseline test runs the summary program.",
  ["metcalcpy/sum_stat.py", "metcalcpy/util/utils.py"],
  [("row loop", "metcalcpy/sum_stat.py:process_rows"), ("dispatch", "metcalcpy/sum_stat.py:calculate_statistic")],
  ["tab-separated output file"], NOTE)

P("A04", "Scorecard entries are the named difference of the two series' means",
  "For any summary input and derived-curve list, each scorecard row holds the difference, significance or single-series "
  "value named by its label, computed from exactly the rows of the two named series at that row's independent value and "
  "paired by case; the significance has the sign of the improvement and grows with the confidence that the means differ.",
  ["inputs", "configurations"],
  "All tables, groups of values, derived operations and both significance conventions.",
  "One stored file is asserted at three cells.",
  ["metcalcpy/scorecard.py", "metcalcpy/util/utils.py"],
  [("derived entries", "metcalcpy/scorecard.py:_get_stats_for_derived")],
  ["tab-separated output file"], NOTE)

P("A05", "Aggregated economic value curves match the pooled table of each series",
  "Running the economic-value aggregation on any input file writes, for every series and threshold, one row per cost/loss "
  "ratio (base rate included when asked) whose value equals the cost/loss model on exactly that series' pooled rows and "
  "is missing when the table lacks events or non-events, with bootstrap bounds that bracket in order and the number of "
  "rows used. Rows replace what the output file held, or follow it when appending is asked for.",
  ["inputs", "configurations"],
  "All input tables, series, thresholds, grids, iteration counts and seeds.",
  "One stored file is asserted at three cells.",
  ["metcalcpy/agg_eclv.py", "metcalcpy/util/eclv_statistics.py", "metcalcpy/bootstrap.py"],
  [("per series loop", "metcalcpy/agg_eclv.py:_proceed_with_axis")],
  ["tab-separated output file"], NOTE)

P("A06", "Object aggregation reports each series point's own object ratios",
  "Running the object-ratio aggregation on any object table writes one row per series point and statistic "
  "whose value equals the ratio over exactly that point's objects and whose bounds come from resampling that point's "
  "cases; points of different statistics never exchange values. Objects of no point of the run change nothing, and "
  "equalization keeps each object of a listed case once and leaves the input file as it is.",
  ["inputs", "configurations"],
  "All object tables, series, groups, statistics, seeds and iteration counts.",
  "No baseline test runs this program.",
  ["metcalcpy/agg_stat_bootstrap.py", "metcalcpy/bootstrap.py"],
  [("point loop", "metcalcpy/agg_stat_bootstrap.py:_proceed_with_axis")],
  ["tab-separated output file"], NOTE)

P("B01", "Bootstrap intervals are quantiles of statistics of genuine resamples",
  "For any data, statistic, method, confidence level and block length, the bootstrap reports the statistic of the original data and bounds that are the "
  "requested quantiles of statistics of resamples; each resample has the original size, contains only original rows kept whole, and with blocks consists of "
  "circularly consecutive runs of the block length. Lower never exceeds upper, widening the confidence never narrows "
  "the interval, and resamples that all give the same statistic give a zero-width or missing interval.",
  ["inputs", "configurations"],
  "All data arrays, statistics, interval methods, levels, block lengths, iteration counts and seeds.",
  "Interval tests are skipped for run time; the rest only check that bounds bracket the value at two cells.",
  ["metcalcpy/bootstrap.py"],
  [("circular block resampling", "metcalcpy/bootstrap.py:_generate_distributions_cbb"),
   ("percentile and pivotal intervals", "metcalcpy/bootstrap.py:_get_confidence_interval_and_value")],
  ["interval object", "values passed to the statistic"], NOTE)

P("B02", "Seeded runs reproduce exactly, independent of batching and parallelism",
  "With a fixed random seed, repeating any bootstrap or aggregation run in the same or a fresh process gives identical "
  "bounds and values, whatever ran before; the point values do not depend on the seed, the number of iterations, the batch "
  "size or the number of workers.",
  ["histories", "schedules", "configurations"],
  "All seeds, run sequences, iteration counts, batch sizes and worker counts.",
  "Each test runs once with one seed; reproducibility is never compared.",
  ["metcalcpy/bootstrap.py", "metcalcpy/agg_stat.py", "metcalcpy/agg_eclv.py", "metcalcpy/agg_stat_bootstrap.py"],
  [("seeding before resampling", "metcalcpy/agg_stat.py:calculate_stats_and_ci")],
  ["interval object", "tab-separated output file"], NOTE)

P("D01", "Derived curves apply the named operation to the two named series",
  "For any two series, a derived point's value is the named operation (difference, ratio, skill score, significance, "
  "single, equivalence) of the first series' value and the second's over the cases of the same independent value, in the stated order, "
  "is labelled with both names and the operation, and is missing when either operand is missing. "
  "Swapping the operands negates a difference and inverts a ratio; a series against itself gives zero and one.",
  ["inputs", "configurations"],
  "All pairs of series, operations, tables, independent values and grouped series.",
  "Two operations are asserted on stored files.",
  ["metcalcpy/agg_stat.py", "metcalcpy/util/utils.py"],
  [("derived values", "metcalcpy/util/utils.py:calc_derived_curve_value"),
   ("derived series selection", "metcalcpy/agg_stat.py:_get_bootstrapped_stats_for_derived")],
  ["tab-separated output file", "returned value"], NOTE)

P("F01", "Field aggregation before equalization conserves pair counts and sums",
  "When rows of several field values are combined into one per valid time and lead, the combined row's total is the sum of the "
  "totals, its count columns are sums, and its mean columns are the total-weighted means of the combined rows; the "
  "label lists the combined values and rows not asked to be combined pass through untouched.",
  ["inputs", "configurations"],
  "All tables, line types and groups of field values.",
  "Tests only check that no deprecation warning is raised.",
  ["metcalcpy/util/utils.py", "metcalcpy/sum_stat.py"],
  [("group sums", "metcalcpy/util/utils.py:calc_series_sums"),
   ("grouping by valid time and lead", "metcalcpy/util/utils.py:aggregate_field_values")],
  ["returned data frame"], NOTE)

P("T01", "Paired equivalence testing follows the two one-sided t tests",
  "For any paired sample sizes, means, standard deviations, correlation and equivalence bounds, the reported t values, "
  "probabilities, difference and confidence limits equal those of the paired t test and two one-sided tests, and exactly one of the four "
  "combined outcomes is reported, consistent with those probabilities. Exchanging the two samples with mirrored bounds mirrors the result.",
  ["inputs"],
  "All sample summaries, bounds and significance levels, including extreme and boundary values.",
  "One sample is asserted.",
  ["metcalcpy/util/tost_paired.py", "metcalcpy/util/utils.py"],
  [("two one-sided t tests", "metcalcpy/util/tost_paired.py:tost_paired")],
  ["returned dictionary"], NOTE)

P("T02", "Correlation, autocorrelation and runs tests match their definitions",
  "For any series, the correlation coefficients and probabilities of every offered method, autocovariances and "
  "autocorrelations at every lag, and the runs-test counts, statistic and probability equal independent "
  "evaluations of their definitions; correlations are symmetric, invariant to positive rescaling, within [-1, 1], and missing "
  "values are excluded pairwise.",
  ["inputs"],
  "All series, with missing values, ties, every method, tail and threshold option.",
  "One stored series is asserted per function.",
  ["metcalcpy/util/correlation.py", "metcalcpy/util/wald_wolfowitz_runs_test.py", "metcalcpy/util/utils.py"],
  [("correlation methods", "metcalcpy/util/correlation.py:corr"), ("lagged covariance", "metcalcpy/util/correlation.py:acf"),
   ("runs test", "metcalcpy/util/wald_wolfowitz_runs_test.py:runs_test")],
  ["returned frame, list or dictionary"], NOTE)

P("T04", "Power, Bayes factor and interval of a correlation match their definitions",
  "For any correlation and number of pairs, the power of its test, its Bayes factors and the interval around it, and the "
  "interval around a difference of means in units of spread, equal independent evaluations of their definitions. The number of pairs, "
  "correlation or level solved for a wanted power gives that power back, and is missing where no value does. Rows or columns with "
  "missing values are left out, from both tables together when they are paired.",
  ["inputs"],
  "All correlations, numbers of pairs, levels, tails and table shapes.",
  "No baseline test asserts these figures.",
  ["metcalcpy/util/correlation.py"],
  [("power", "metcalcpy/util/correlation.py:power_corr"), ("Bayes factor", "metcalcpy/util/correlation.py:bayesfactor_pearson"),
   ("interval", "metcalcpy/util/correlation.py:compute_esci"), ("missing rows", "metcalcpy/util/correlation.py:remove_na")],
  ["returned number, pair or table"], NOTE)

P("T03", "Standard-error estimates follow their formulas and scale with the data",
  "For any data series the standard errors of mean, median and sum equal their published formulas including the "
  "autocorrelation inflation, scale in proportion to the data, ignore an added constant and missing "
  "entries, and are reported missing or zero rather than failing for too-short series.",
  ["inputs"],
  "All series with and without missing entries, of every length.",
  "Only the lag-one autocorrelation of one list is asserted.",
  ["metcalcpy/util/utils.py"],
  [("standard errors", "metcalcpy/util/utils.py:compute_std_err_from_mean")],
  ["returned pair"], NOTE)

P("U01", "Table and list utilities behave like their plain definitions",
  "Rounding rounds halves up at every precision, column extraction and summation select exactly the named column and skip missing values, "
  "filters select exactly the matching rows, permutation builders list every combination exactly once in a stable "
  "order, set helpers keep exactly the common or distinct members, and classification of integers, floats, booleans "
  "and derived names agrees with plain parsing.",
  ["inputs"],
  "All numbers, tables, lists and strings in the documented domain.",
  "Tests cover a few examples of each.",
  ["metcalcpy/util/utils.py", "metcalcpy/util/met_stats.py"],
  [("utilities", "metcalcpy/util/utils.py")],
  ["returned value"], NOTE)

P("U02", "Longitude conversions preserve positions and the data at them",
  "Converting longitudes yields values in the target range that denote the same meridians, and reordering a grid from a starting meridian "
  "returns every grid point once, in eastward order within one turn of that start, together with where it was. Flipping a field "
  "between the two conventions keeps every longitude with its own column of data and leaves the input as it was.",
  ["inputs"],
  "All longitude grids, windows and starting conventions.",
  "One grid each is asserted.",
  ["metcalcpy/util/utils.py", "metcalcpy/contributed/spacetime/spacetime_utils.py",
   "metcalcpy/contributed/tropical_diagnostics/utils.py"],
  [("wrap", "metcalcpy/util/utils.py:convert_lon_360_to_180"), ("window", "metcalcpy/util/utils.py:convert_lons_indices"),
   ("grid flip", "metcalcpy/contributed/spacetime/spacetime_utils.py:lonFlip")],
  ["returned array"], NOTE)

P("X01", "Forecast difficulty combines spread and threshold nearness pointwise",
  "For any ensemble fields, the difficulty index at each point equals half the envelope weight times the normalised "
  "relative spread plus the nearness of the exceedance probability to the decision level, independent of the other points once the reference "
  "spread is fixed; invalid input (wrong shapes, non-positive spread) is rejected. The envelope is the piecewise linear "
  "interpolation of its nodes with the given values beyond its ends, and unsorted nodes are rejected.",
  ["inputs"],
  "All ensembles, thresholds, envelopes and reference values.",
  "One synthetic field is asserted.",
  ["metcalcpy/calc_difficulty_index.py", "metcalcpy/piecewise_linear.py"],
  [("index formula", "metcalcpy/calc_difficulty_index.py:forecast_difficulty"),
   ("envelope", "metcalcpy/piecewise_linear.py:PiecewiseLinear")],
  ["returned field"], NOTE)

P("X02", "Vertical interpolation reproduces fields linear in the coordinate",
  "For any columns whose surfaces rise through the levels and any target levels, vertical interpolation returns the "
  "linear interpolation between the two bracketing surfaces with the units converted, reproduces the values at surfaces, "
  "holds the end values beyond the column, and treats columns independently whatever the order of the dimensions. Heights "
  "derived from pressure follow the hypsometric relation summed upward from the surface, levels under the ground being "
  "missing. Written files hold the interpolated fields with their coordinates and, where asked for, the valid and reference "
  "times, whatever the local time zone.",
  ["inputs", "configurations"],
  "All columns, dimension orders, target levels, units, missing values and ground pressures.",
  "No baseline test runs vertical interpolation.",
  ["metcalcpy/vertical_interp.py"],
  [("bracketing weights", "metcalcpy/vertical_interp.py:vertical_interp"),
   ("layer thickness sum", "metcalcpy/vertical_interp.py:height_from_pressure")],
  ["returned field"], NOTE)

P("X03", "Cyclone-relative wind components are a pure rotation of the wind",
  "For any wind fields on the cyclone range-azimuth grid, the radial and tangential components are the projections of the "
  "wind onto the outward and counter-clockwise directions at each point (azimuth counted counter-clockwise from north), "
  "so speed is preserved and rotating both wind and azimuth together leaves them unchanged. Files are read alike whatever "
  "the order of their dimensions.",
  ["inputs"],
  "All winds, azimuth grids, levels and times.",
  "No baseline test covers the cyclone processing.",
  ["metcalcpy/process_tcrmw.py"],
  [("rotation", "metcalcpy/process_tcrmw.py:compute_wind_components")],
  ["returned fields"], NOTE)

P("X04", "Zonal and meridional means and wave decomposition match definitions",
  "For any field, the zonal mean averages over longitude, the meridional mean is the cosine-latitude weighted average over exactly the "
  "requested latitude band, zonal wave amplitudes and phases are those of the discrete Fourier modes, the wave "
  "contributions sum back to the field, and wave covariances sum to the zonal covariance, for both transform packages and any grid size.",
  ["inputs", "configurations"],
  "All fields, grid sizes (odd and even), bands, wavenumber subsets and transform packages.",
  "No baseline test covers these preprocessors.",
  ["metcalcpy/pre_processing/directional_means.py", "metcalcpy/pre_processing/waves.py"],
  [("weighted band mean", "metcalcpy/pre_processing/directional_means.py:meridional_mean"),
   ("Fourier modes", "metcalcpy/pre_processing/waves.py")],
  ["returned arrays"], NOTE)

P("X05", "Space-time spectra and wave filters keep exactly the intended modes",
  "For any data, segment cross-spectra are the products of discrete Fourier amplitudes averaged over latitude, coherence "
  "lies in [0, 1] and is one for a field with itself, symmetric and antisymmetric parts recombine to the field, and the "
  "taper and smoother conserve their stated weights. The wave filter is a linear projection keeping exactly the modes "
  "inside its limits, and dispersion curves satisfy the shallow-water relation. Saved spectra and longitude flips keep "
  "every value with its coordinate.",
  ["inputs", "configurations"],
  "All fields, grid sizes, segment lengths, filter limits, wave types and equivalent depths.",
  "No baseline test covers the spectral package.",
  ["metcalcpy/contributed/spacetime/spacetime.py", "metcalcpy/contributed/spacetime/matsuno_plot.py",
   "metcalcpy/contributed/spacetime/spacetime_utils.py"],
  [("segment spectra", "metcalcpy/contributed/spacetime/spacetime.py:mjo_cross_segment"),
   ("filter mask", "metcalcpy/contributed/spacetime/spacetime.py:kf_filter_mask")],
  ["returned arrays"], NOTE)

P("X06", "MJO and ENSO indices are the stated projections of filtered anomalies",
  "For any fields and patterns, the index coefficients are the least-squares coefficients on the two patterns of each "
  "time's field with the running mean removed or the period band kept, they recover known coefficients exactly, are "
  "linear in the field, and grids that do not match the patterns are rejected. Daily anomalies average to zero over each "
  "calendar day. Wave activity, its skill and its modes, and the monthly wind-power and ENSO indices, equal their stated "
  "averages, projections and correlations, labelled by their own month.",
  ["inputs"],
  "All fields, patterns, times and normalisations.",
  "No baseline test covers the index package.",
  ["metcalcpy/contributed/rmm_omi/compute_mjo_indices.py", "metcalcpy/contributed/mjo_enso/compute_mjo_enso.py",
   "metcalcpy/contributed/tropical_diagnostics/ccew_activity.py"],
  [("projection", "metcalcpy/contributed/rmm_omi/compute_mjo_indices.py:regress_vector_onto_eofs"),
   ("running mean", "metcalcpy/contributed/rmm_omi/compute_mjo_indices.py:rem_120day_mean")],
  ["returned arrays"], NOTE)

P("X07", "Blocking and weather-regime diagnostics match direct evaluation",
  "For any height fields, the central blocking latitude is the smoothed latitude of largest weighted variability, a "
  "longitude is instantaneously blocked exactly when the mean poleward height exceeds the equatorward one for some "
  "latitude offset, groups are runs of blocked longitudes (closed over small gaps, around the globe) of at least the "
  "required size, and a block is a group that stays in place for five days or more. Regime frequencies, components, "
  "relabelling, reading order and written files preserve every day's values and classification.",
  ["inputs", "configurations"],
  "All height fields, blocked-longitude patterns, regime sequences and settings.",
  "No baseline test covers this package.",
  ["metcalcpy/contributed/blocking_weather_regime/Blocking.py",
   "metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py",
   "metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py"],
  [("blocking index", "metcalcpy/contributed/blocking_weather_regime/Blocking.py:run_mod_blocking1d"),
   ("grouping", "metcalcpy/contributed/blocking_weather_regime/Blocking.py:run_Calc_GIBL"),
   ("regime counts", "metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py:compute_wr_freq")],
  ["returned arrays", "text and netCDF files"], NOTE)

P("Y01", "Configuration reading substitutes exactly the tagged environment variables",
  "For any configuration text and environment, reading it yields the same structure as plain YAML except that each "
  "variable reference in a tagged value is replaced once by that variable's value, or by the variable's name when unset; "
  "untagged quoted text is never altered and a file and the same text given inline read the same. One reading has no "
  "effect on later readings with other tags, nor on plain YAML reading.",
  ["inputs", "configurations"],
  "All documents, tagged values with any number of references, environments and sequences of readings.",
  "No baseline test runs the reader.",
  ["metcalcpy/util/read_env_vars_in_config.py"],
  [("tag constructor", "metcalcpy/util/read_env_vars_in_config.py:parse_config")],
  ["returned structure"], NOTE)

P("Y02", "Image comparison detects every difference and writes faithful pictures",
  "For any two images of one size, the similarity is the mean local structural similarity of the grey images, which is "
  "symmetric and one exactly for equal grey images; the difference picture holds the local similarity from different (0) "
  "to equal (255), the threshold picture its low part, and the marked pictures the images with a box around each marked "
  "region. The outputs can be saved or shown in any order and any number of times with the same result, and unreadable images "
  "are rejected by name.",
  ["inputs", "histories"],
  "All image pairs and all orders of requests.",
  "One image pair is compared once.",
  ["metcalcpy/compare_images.py"],
  [("structural similarity", "metcalcpy/compare_images.py:CompareImages")],
  ["similarity", "written image files"], NOTE)

P("Y03", "Plot validation touches only the files of the plot it names",
  "For any directories of plot files, cleaning removes exactly the generated outputs, a matched plot has only its own "
  "generated files removed while those of a mismatched plot are kept and reported, and the original plots and "
  "specifications are never touched. Test selection returns in order exactly the specification files last changed on a "
  "day of the requested period, both ends included.",
  ["inputs", "histories"],
  "All directory contents, names with shared prefixes or several dots, dates and period settings.",
  "Only name replacement and one period are asserted.",
  ["metcalcpy/validate_mv_python.py"],
  [("prefix deletion", "metcalcpy/validate_mv_python.py:delete_similar_files"),
   ("date selection", "metcalcpy/validate_mv_python.py:get_test_xml")],
  ["directory contents", "returned lists"], NOTE)
