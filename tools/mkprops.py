#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = False
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Event equalization keeps exactly the cases common to all series",
  "Equalizing a table over series variables and fixed variables returns exactly those input rows, unaltered and in input order, whose case (valid time and lead, plus the independent value when it takes part) occurs in every combination of series value and fixed value. Grouped series values count as their members, numbers match by value, NA matches missing values, and time and lead variables do not split the rows. Equalizing the result again changes nothing.",
  ["inputs", "configurations"], "all tables, series/fixed value lists, group notations, valid-time columns and independent variables, with and without the independent variable in the case",
  "The tests equalize two fixed files and compare row counts; the quantifier is over every pattern of missing, repeated and grouped cases.",
  ["metcalcpy/event_equalize.py"],
  [("case key and permutation intersection", "metcalcpy/event_equalize.py:event_equalize")],
  [("equalization_cases", "cases still common to the permutations seen so far", "metcalcpy/event_equalize.py")],
  ["rows of the returned table"])

p("C02", "Equalization over both plot axes leaves the same cases on every series",
  "When a run asks for event equalization, each axis is first equalized over its own series for each of its variables, and if there is a second axis the two results are then equalized together over the series of both axes. The result holds exactly the rows that survive this, once per selecting variable and statistic, and nothing else.",
  ["inputs", "configurations"], "all input tables and configurations of one or two axes, series variables, forecast variables, fixed variables and groups",
  "Existing tests run one single-axis and one two-axis configuration; which rows survive depends on the joint pattern of cases over axes, variables and statistics.",
  ["metcalcpy/util/utils.py", "metcalcpy/agg_stat_event_equalize.py", "metcalcpy/event_equalize.py"],
  [("per-axis then joint equalization", "metcalcpy/util/utils.py:perform_event_equalization,equalize_axis_data"),
   ("stand-alone driver", "metcalcpy/agg_stat_event_equalize.py:AggStatEventEqualize")],
  None, ["rows of the equalized table / written file"])

p("C03", "Equalization against a reference case list keeps exactly the listed cases",
  "Equalizing a table against a list of cases keeps exactly the rows whose valid time and lead form a listed case, unaltered and in order, and gives an empty table when none is listed or there is no valid time. The file driver applies this for each forecast variable and series variable of each axis with the reference cases of the same variable and series, and copies the input when equalization is off.",
  ["inputs", "configurations"], "all tables, reference files, groups, axes and forecast variables",
  "One fixed data file per test; partial overlap, other variables' cases and second axes are not reached.",
  ["metcalcpy/event_equalize_against_values.py", "metcalcpy/agg_stat_eqz.py"],
  [("isin on case key", "metcalcpy/event_equalize_against_values.py:event_equalize_against_values"),
   ("per axis/variable loop", "metcalcpy/agg_stat_eqz.py:AggStatEventEqz.perform_ee_on_axis")],
  None, ["rows of the returned table / written file"])

p("C04", "Contingency-table scores equal their definition on the pooled counts",
  "Every categorical score computed over any number of 2x2 contingency rows (plain or neighborhood) equals its textbook definition applied to the cell counts summed over the rows, rounded half up to seven decimals. It therefore does not depend on how the cases are split into rows or on row order, and it is missing exactly when the definition has a zero denominator or takes the logarithm of a non-positive number.",
  ["inputs"], "all finite collections of rows of non-negative counts",
  "The tests evaluate a handful of scores on one fixed table; no test pools several rows, hits empty margins or cross-checks scores.",
  ["metcalcpy/util/ctc_statistics.py", "metcalcpy/util/nbrctc_statistics.py", "metcalcpy/util/utils.py"],
  [("column sums", "metcalcpy/util/utils.py:sum_column_data_by_name"),
   ("score functions", "metcalcpy/util/ctc_statistics.py:calculate_*"),
   ("neighborhood score functions", "metcalcpy/util/nbrctc_statistics.py:calculate_nbr_*")],
  None, ["returned score"])

p("C05", "Scalar partial-sum scores aggregate as total-weighted means",
  "Every continuous score computed from scalar, scalar-anomaly, gradient and spread/skill partial-sum lines (means, deviations, errors, correlations, skill scores, gradient scores) equals its definition applied to the partial sums averaged over the lines with their totals as weights. On a single line it equals the definition on that line, and it is missing when the definition divides by zero or takes the root of a negative number.",
  ["inputs"], "all finite collections of partial-sum lines with positive totals, aggregated or single",
  "Tests check two scores on one table; unequal totals over several lines are what separates a weighted mean from a plain one.",
  ["metcalcpy/util/sl1l2_statistics.py", "metcalcpy/util/sal1l2_statistics.py", "metcalcpy/util/grad_statistics.py", "metcalcpy/util/ssvar_statistics.py", "metcalcpy/agg_stat.py"],
  [("multiplying by totals before aggregation", "metcalcpy/agg_stat.py:AggStat._prepare_sl1l2_data,_prepare_sal1l2_data,_prepare_grad_data,_prepare_ssvar_data"),
   ("dividing by the summed total", "metcalcpy/util/utils.py:get_total_values"),
   ("score functions", "metcalcpy/util/sl1l2_statistics.py, sal1l2_statistics.py, grad_statistics.py, ssvar_statistics.py")],
  None, ["returned score"])

p("C06", "Vector partial-sum scores aggregate as total-weighted means",
  "Every wind-vector score computed from vector and vector-anomaly partial-sum lines (speeds, directions, vector errors, variances, anomaly correlations) equals its definition applied to the partial sums averaged over the lines with their totals as weights. Directions are degrees in [0, 360), direction errors are the signed smallest angle, and a score is missing when its definition is undefined, e.g. the direction of a zero vector.",
  ["inputs"], "all finite collections of vector partial-sum lines with positive totals, aggregated or single",
  "No existing test computes any of these scores.",
  ["metcalcpy/util/vl1l2_statistics.py", "metcalcpy/util/val1l2_statistics.py", "metcalcpy/util/vcnt_statistics.py", "metcalcpy/util/met_stats.py", "metcalcpy/agg_stat.py"],
  [("multiplying by totals before aggregation", "metcalcpy/agg_stat.py:AggStat._prepare_vl1l2_data,_prepare_val1l2_data,_prepare_vcnt_data"),
   ("speed and direction", "metcalcpy/util/met_stats.py"),
   ("score functions", "metcalcpy/util/vl1l2_statistics.py, val1l2_statistics.py, vcnt_statistics.py")],
  None, ["returned score"])

p("C07", "Ensemble, ranked-probability and neighborhood scores aggregate by weight",
  "Ensemble continuous, ranked-probability and neighborhood-continuous scores over several lines equal their definition on the quantities averaged with the line totals (member-bias terms: with their own counts) as weights, where root-mean-square and spread quantities are averaged as squares and skill scores are rebuilt from the averaged score and its averaged reference. On a single line each score reproduces that line's own value.",
  ["inputs"], "all finite collections of lines with positive totals",
  "No existing test computes any of these scores.",
  ["metcalcpy/util/ecnt_statistics.py", "metcalcpy/util/rps_statistics.py", "metcalcpy/util/nbrcnt_statistics.py", "metcalcpy/agg_stat.py"],
  [("preparation of sums", "metcalcpy/agg_stat.py:AggStat._prepare_ecnt_data,_prepare_rps_data,_prepare_nbr_cnt_data"),
   ("score functions", "metcalcpy/util/ecnt_statistics.py, rps_statistics.py, nbrcnt_statistics.py")],
  None, ["returned score"])

p("C08", "Probability-table scores equal the Brier decomposition and the ROC area",
  "For probabilistic contingency tables pooled over lines, reliability, resolution, uncertainty, base rate, calibration, Brier score (reliability - resolution + uncertainty), Brier skill score and ROC area (trapezoids through the per-threshold hit and false-alarm rates between (0,0) and (1,1)) equal their definitions on the pooled bin counts. Empty bins contribute nothing.",
  ["inputs"], "all finite collections of probability bins and counts",
  "Only the ROC area is computed in a test, on one file.",
  ["metcalcpy/util/pstd_statistics.py"],
  [("bin pooling", "metcalcpy/util/pstd_statistics.py:_calc_common_stats"), ("decomposition", "metcalcpy/util/pstd_statistics.py:calc_reliability,calc_resolution,calc_uncertainty"), ("ROC", "metcalcpy/util/pstd_statistics.py:_calc_pct_roc,calculate_pstd_roc_auc")],
  None, ["returned score"])

p("C09", "ROC tables list each threshold once, in numeric threshold order",
  "Building a ROC table from contingency rows gives one line per distinct threshold with the hit rate and false-alarm rate of that threshold's pooled rows. Sorting rows by threshold orders them by numeric value and then by comparison operator (<, <=, ==, >=, >), ascending or descending as asked, and keeps every row.",
  ["inputs", "configurations"], "all multisets of thresholds with optional operators, signs and decimals, in any row order, ascending or descending",
  "The tests use files whose thresholds have equal widths, for which text order and numeric order agree.",
  ["metcalcpy/util/ctc_statistics.py"],
  [("threshold parsing and sort", "metcalcpy/util/ctc_statistics.py:sort_by_thresh"), ("ROC table", "metcalcpy/util/ctc_statistics.py:calculate_ctc_roc")],
  None, ["returned table"])

p("C10", "Economic value curves equal relative value for every cost/loss ratio",
  "The economic value at each cost/loss ratio equals the relative-value definition on the pooled 2x2 counts (for probability lines: counts split at the threshold), on the requested ratios in ascending order with the base rate added when asked. The file driver writes one line per ratio for every series and threshold with the number of pooled rows.",
  ["inputs", "configurations"], "all counts, cost/loss grids, line types, series and thresholds, with and without the base rate point and bootstrap",
  "One contingency file and one configuration are tested.",
  ["metcalcpy/util/ctc_statistics.py", "metcalcpy/util/eclv_statistics.py", "metcalcpy/agg_eclv.py"],
  [("value function", "metcalcpy/util/ctc_statistics.py:calculate_economic_value"), ("line types", "metcalcpy/util/eclv_statistics.py:calculate_eclv"), ("driver", "metcalcpy/agg_eclv.py:AggEclv")],
  None, ["returned curve / written file"])

p("C11", "Object ratio statistics count exactly the objects their name denotes",
  "Every object-attribute ratio named by two three-letter codes (forecast/observed/all, simple/cluster/all, matched/unmatched/all) equals the number - or total area or volume - of objects selected by the first code divided by that of the second, with 2D and 3D variants restricted to objects of that type. Object hit, miss, false-alarm counts and the scores built from them use the same selections, and a ratio with an empty denominator is missing.",
  ["inputs"], "all finite collections of objects with any flags, areas/volumes and types, for each of the ratio statistics",
  "Two ratios are tested on one file; there are about 200 hand-written functions.",
  ["metcalcpy/util/mode_ratio_statistics.py", "metcalcpy/util/mode_arearat_statistics.py", "metcalcpy/util/mode_2d_ratio_statistics.py", "metcalcpy/util/mode_2d_arearat_statistics.py", "metcalcpy/util/mode_3d_ratio_statistics.py", "metcalcpy/util/mode_3d_volrat_statistics.py"],
  [("flag filters", "metcalcpy/util/utils.py:column_data_by_name_value,nrow_column_data_by_name_value"), ("ratio functions", "metcalcpy/util/mode_*_statistics.py")],
  None, ["returned ratio"])

p("C12", "Score calls are total: a number or missing, never an exception or NaN",
  "For every score of every line type and every finite table of numeric or missing cells, including empty margins, single rows, zero totals and all-missing columns, the call returns a finite number or a missing marker and raises no exception.",
  ["inputs"], "all scores x all tables with zero, missing and degenerate cells",
  "Tests use healthy tables only.",
  ["metcalcpy/util/ctc_statistics.py", "metcalcpy/util/sl1l2_statistics.py", "metcalcpy/util/sal1l2_statistics.py", "metcalcpy/util/ssvar_statistics.py", "metcalcpy/util/grad_statistics.py", "metcalcpy/util/vl1l2_statistics.py", "metcalcpy/util/val1l2_statistics.py", "metcalcpy/util/vcnt_statistics.py", "metcalcpy/util/ecnt_statistics.py", "metcalcpy/util/rps_statistics.py", "metcalcpy/util/nbrcnt_statistics.py", "metcalcpy/util/nbrctc_statistics.py", "metcalcpy/util/pstd_statistics.py", "metcalcpy/util/mcts_statistics.py"],
  [("try/except around each formula, warnings raised as errors", "metcalcpy/util/*_statistics.py")],
  [("warnings filter", "process-wide list that turns numeric warnings into exceptions", "python warnings module")], ["return value or exception"])

p("C13", "Score results do not depend on earlier calls and leave their inputs alone",
  "In any sequence of score calls within one process, each call returns what it returns in a fresh process, whatever was computed before it, leaves the table, column list and configuration passed in unchanged, and does not leave warnings turned into errors.",
  ["histories"], "all finite sequences of score, derived-curve, pipeline and utility calls in one process",
  "Each test makes one call; the shared process-wide warning state and mutated inputs only show across calls.",
  ["metcalcpy/util/ctc_statistics.py", "metcalcpy/util/sl1l2_statistics.py", "metcalcpy/util/eclv_statistics.py", "metcalcpy/util/utils.py", "metcalcpy/agg_stat.py"],
  [("warnings set to error then to ignore around each formula", "metcalcpy/util/*_statistics.py")],
  [("warnings filter", "process-wide; an early return that leaves it at 'error' makes later unrelated calls fail", "python warnings module"), ("params", "configuration dictionary shared by caller and pipeline", "metcalcpy/agg_stat.py")], ["return values, inputs before/after, warning filter before/after"])

p("C14", "The aggregation run writes one correct line for every requested point",
  "For every configuration the aggregation run writes, per axis, exactly one line for each combination of series values, independent values and statistics, in order, labelled with them and the axis variable. Each line carries the statistic computed from exactly the input rows that match the point (groups as unions, numbers by value) and the number of those rows; points without data are written with a missing value and zero rows.",
  ["inputs", "configurations"], "all input tables and configurations of line type, axes, series, groups, independent values and statistics",
  "Tests run four configurations and compare a few cells.",
  ["metcalcpy/agg_stat.py"],
  [("point enumeration, filtering, dispatch", "metcalcpy/agg_stat.py:AggStat._proceed_with_axis,_get_bootstrapped_stats,_calc_stats"), ("output", "metcalcpy/agg_stat.py:AggStat.calculate_stats_and_ci")],
  None, ["output file"])

p("C15", "Derived curves combine the right two series with the right operation",
  "A derived series is evaluated once per independent value from its two named component series at that value: difference, ratio, skill score ((first-second)/first), or first component alone. It is missing when a component is missing or a divisor is zero, its curve name spells operation and components, and it is refused when a component has several values for one valid time and lead.",
  ["inputs", "configurations"], "all pairs of series, operations, group notations, independent values and data tables, with and without bootstrap",
  "Tests check two derived points; pairing errors show only when several candidate series exist.",
  ["metcalcpy/agg_stat.py", "metcalcpy/util/utils.py"],
  [("point construction", "metcalcpy/agg_stat.py:AggStat._get_derived_points"), ("component lookup", "metcalcpy/agg_stat.py:AggStat._get_bootstrapped_stats_for_derived"), ("operation", "metcalcpy/util/utils.py:calc_derived_curve_value,get_derived_curve_name,is_derived_point")],
  None, ["output file, returned values"])

p("C16", "Bootstrap replicates are circular-block resamples of the data",
  "Every bootstrap replicate has as many rows as the data, every row is a row of the data, and it consists of consecutive blocks of the requested length (the last possibly cut) each running circularly from a drawn start; with block length one rows are drawn singly. Exactly the requested number of replicates is evaluated, whatever the batch size, the same random seed reproduces the same result, and the reported value is the statistic of the original data.",
  ["inputs", "configurations", "schedules"], "all sample sizes, block lengths, iteration counts, batch sizes, thread counts and random draws",
  "Tests use one seed and compare final numbers with a tolerance; replicate structure is never observed.",
  ["metcalcpy/bootstrap.py"],
  [("block expansion", "metcalcpy/bootstrap.py:_generate_distributions_cbb"), ("batching and threads", "metcalcpy/bootstrap.py:_bootstrap_sim_cbb,_bootstrap_distribution_cbb"), ("original statistic", "metcalcpy/bootstrap.py:bootstrap_and_value")],
  [("numpy global generator", "drawn starts", "numpy.random")], ["arrays passed to the statistic function, returned result"])

p("C17", "Confidence limits are the configured percentiles of the replicates",
  "With the percentile method the limits are the linearly interpolated alpha/2 and 1-alpha/2 percentiles of the non-missing replicate values, with the pivotal method twice the value minus the opposite percentile, the lower limit never exceeds the upper, and both are missing when the value or every replicate is missing or (percentile method) the replicates are all equal. Every pipeline uses the alpha and method of its configuration.",
  ["inputs", "configurations"], "all replicate distributions (ties, missing values, constants), alphas, methods and pipelines",
  "Tests fix alpha at its default value and one distribution.",
  ["metcalcpy/bootstrap.py", "metcalcpy/agg_stat.py", "metcalcpy/agg_eclv.py", "metcalcpy/agg_stat_bootstrap.py"],
  [("interval", "metcalcpy/bootstrap.py:_get_confidence_interval_and_value,_get_confidence_interval_and_value_eclv,BootstrapResults"), ("callers", "metcalcpy/agg_stat.py:AggStat._get_bootstrapped_stats")],
  None, ["returned limits, output file"])

p("C18", "The object-ratio bootstrap run reports every point from its own objects",
  "For each combination of series values, independent value and ratio statistic the object-ratio run writes exactly one line with the ratio over the objects that match the point, the number of those objects, and (with replicates) limits that enclose resampled ratios. Several statistics, grouped series values, several independent values and a second axis each keep their own line.",
  ["inputs", "configurations"], "all object tables and configurations of series, groups, independent values, statistics and axes",
  "The test runs one configuration with one statistic per axis.",
  ["metcalcpy/agg_stat_bootstrap.py", "metcalcpy/bootstrap.py"],
  [("point loop and output row lookup", "metcalcpy/agg_stat_bootstrap.py:AggStatBootstrap._proceed_with_axis"), ("case resampling", "metcalcpy/agg_stat_bootstrap.py:AggStatBootstrap._calc_stats")],
  None, ["output file"])

p("C19", "The summary run computes each line's statistic from that line alone",
  "The summary run writes one line per input line (after equalization or merging of grouped values when configured), in order, with the statistic named on the line computed from the counts or sums on that line, the identifying columns unchanged and the consumed count and sum columns removed.",
  ["inputs", "configurations"], "all tables and line types handled by the summary run",
  "No existing test exercises the summary run.",
  ["metcalcpy/sum_stat.py"],
  [("row loop", "metcalcpy/sum_stat.py:SumStat.process_rows,calculate_statistic"), ("column removal", "metcalcpy/sum_stat.py:SumStat.calculate_stats")],
  None, ["output file"])

p("C20", "Merging grouped values pools each case's lines into one consistent line",
  "Merging the lines of a ';'-group of values yields, for every valid time and lead, one line whose counts are the sums and whose mean-type sums are the total-weighted means of the merged lines, labelled with the group, while all other lines stay as they were. No line is counted twice or lost.",
  ["inputs", "configurations"], "all tables, line types and ';'-groups over series or lead",
  "No existing test reaches this code.",
  ["metcalcpy/util/utils.py"],
  [("selection and replacement", "metcalcpy/util/utils.py:aggregate_field_values"), ("sums per line type", "metcalcpy/util/utils.py:calc_series_sums")],
  None, ["returned table"])

p("C21", "Scorecard values are the configured comparison of paired statistics",
  "Each scorecard line holds, for its pair of models at its lead, region and level, the mean difference, the first model's mean, or the significance of the mean paired difference over common valid times: under the NCAR rule one minus the two-sided paired t-test p-value, negated when the first model is farther from the perfect score and missing for statistics without one; under the EMC rule the level 0.95/0.99/1 with thresholds set by the number of days, positive for the smaller bias or RMSE and the larger value of any other statistic. Differences that do not vary have no significance; several values for one valid time and lead are refused.",
  ["inputs", "configurations"], "all paired series, statistics, number-of-days settings, both rules and all derived operations",
  "Tests cover one file per rule.",
  ["metcalcpy/scorecard.py", "metcalcpy/util/utils.py"],
  [("NCAR rule", "metcalcpy/scorecard.py:Scorecard._calculate_diff_sig_ncar"), ("EMC rule", "metcalcpy/scorecard.py:Scorecard._calculate_diff_sig_emc"), ("pair lookup", "metcalcpy/scorecard.py:Scorecard._get_stats_for_derived"), ("perfect score", "metcalcpy/util/utils.py:perfect_score_adjustment")],
  None, ["output file, returned significance"])

p("C22", "Paired equivalence tests classify difference and equivalence consistently",
  "The paired two-one-sided test reports the mean difference, the equivalence bounds, t statistics, p-values and both confidence intervals consistently with the sample size, means, deviations, correlation and alpha. Its outcome labels say 'different' exactly when the t-test p-value is below alpha and 'equivalent' exactly when both one-sided p-values are, and swapping the samples together with mirrored bounds mirrors the result.",
  ["inputs"], "all sample sizes, means, deviations, correlations, bounds and alphas",
  "Three fixed parameter sets are tested.",
  ["metcalcpy/util/utils.py", "metcalcpy/util/tost_paired.py"],
  [("test", "metcalcpy/util/utils.py:tost_paired,pt,qt"), ("duplicate", "metcalcpy/util/tost_paired.py")],
  None, ["returned record"])

p("C23", "Serial-dependence statistics follow the series, skipping missing values",
  "Lag correlation, first-order autocorrelation coefficient, autocorrelation-inflated standard errors of mean, median and sum, the runs test and the revision statistics equal their definitions on the non-missing values in series order. Runs and their expected number and variance count only values off the threshold, and inflation applies only in its documented range.",
  ["inputs"], "all finite numeric series with missing values and ties, lags, thresholds and alternatives",
  "One series per function is tested.",
  ["metcalcpy/util/correlation.py", "metcalcpy/util/wald_wolfowitz_runs_test.py", "metcalcpy/util/utils.py"],
  [("autocorrelation", "metcalcpy/util/correlation.py:acf,autocovariance; metcalcpy/util/utils.py:autocor_coef"), ("standard errors", "metcalcpy/util/utils.py:compute_std_err_*"), ("runs", "metcalcpy/util/wald_wolfowitz_runs_test.py:runs_test"), ("revision", "metcalcpy/util/utils.py:calculate_mtd_revision_stats")],
  None, ["returned values"])

p("C24", "Longitude conversion is a sorted bijection onto the target range",
  "Converting longitudes yields values congruent modulo a full turn to the inputs, inside the target half-open range, in ascending order, one per input. The index form also returns the positions of the inputs in that order, so that applying them to any field keeps value and longitude together.",
  ["inputs"], "all finite lists of longitudes, start longitudes and ranges",
  "Two regular grids are tested.",
  ["metcalcpy/util/utils.py"],
  [("conversion", "metcalcpy/util/utils.py:convert_lon_360_to_180,convert_lons_indices")],
  None, ["returned arrays"])

p("C25", "Forecast difficulty follows its definition and its taper",
  "The difficulty index at each grid point is half the taper at the mean times the sum of the normalised relative spread and the threshold-exceedance uncertainty, computed from that point alone apart from the common normaliser. The taper interpolates linearly between its knots, takes its left and right values outside them, and knots that are too few, unsorted or of different length are refused.",
  ["inputs", "configurations"], "all fields, ensembles, thresholds, knots and factors",
  "Two smooth fields are tested.",
  ["metcalcpy/calc_difficulty_index.py", "metcalcpy/piecewise_linear.py"],
  [("index", "metcalcpy/calc_difficulty_index.py:_difficulty_index,forecast_difficulty"), ("taper", "metcalcpy/piecewise_linear.py:PiecewiseLinear")],
  None, ["returned field"])

p("C26", "Vertical interpolation is linear between bracketing levels in every column",
  "Interpolating a field to requested levels gives, in each column, the linear interpolation between the two model levels whose surfaces bracket the requested level after unit conversion, and the nearest end value outside the column; a level equal to a surface takes that surface's value. Heights derived from pressure increase upwards, starting at the surface height.",
  ["inputs", "configurations"], "all columns of monotone surfaces, fields, requested levels and units",
  "No existing test exercises it.",
  ["metcalcpy/vertical_interp.py"],
  [("weights", "metcalcpy/vertical_interp.py:vertical_interp"), ("hydrostatic heights", "metcalcpy/vertical_interp.py:height_from_pressure")],
  None, ["returned field"])

p("C27", "Directional means and zonal waves are exact averages and decompositions",
  "The zonal mean is the average over longitude; the meridional mean is the cosine-latitude weighted average over the requested latitude band only and refuses an empty band. Zonal wave coefficients, amplitudes, contributions and covariances are those of the discrete Fourier transform along longitude: contributions of all waves add up to the field and covariances of all waves add up to the mean product.",
  ["inputs", "configurations"], "all fields, bands, wave selections and numbers of longitudes",
  "No existing test exercises them.",
  ["metcalcpy/pre_processing/directional_means.py", "metcalcpy/pre_processing/waves.py"],
  [("means", "metcalcpy/pre_processing/directional_means.py"), ("waves", "metcalcpy/pre_processing/waves.py")],
  None, ["returned arrays"])

p("C28", "Configuration values expand each referenced environment variable exactly",
  "Reading a configuration replaces every ${NAME} in every unquoted or tagged scalar by the value of that environment variable, inserted as it is, or by NAME when it is unset, and leaves all other text, types and structure as written. The result depends on the file and the environment only, and other readers of YAML in the process are not affected.",
  ["inputs", "histories"], "all configurations, environments and sequences of reads in one process",
  "No existing test exercises it.",
  ["metcalcpy/util/read_env_vars_in_config.py"],
  [("resolver and constructor", "metcalcpy/util/read_env_vars_in_config.py:parse_config")],
  None, ["returned configuration"])

p("C29", "Enumerated value combinations are complete, unique and in order",
  "Enumerating combinations of value lists yields every combination exactly once, in the documented nesting order, ignoring empty lists where documented. The small value helpers (integer/float recognition, intersections, unique values, boolean parsing, half-up rounding) agree with their descriptions on every input.",
  ["inputs"], "all lists of lists, dictionaries and strings",
  "A few examples each are tested.",
  ["metcalcpy/util/utils.py"],
  [("enumeration", "metcalcpy/util/utils.py:create_permutations,create_permutations_mv"), ("helpers", "metcalcpy/util/utils.py:is_string_integer,is_string_strictly_float,intersection,unique,parse_bool,round_half_up")],
  None, ["returned lists"])

p("C30", "Plot validation touches only its own output and picks the right period",
  "The plot validation run considers exactly the XML files of the input directory modified within the configured (or default) inclusive period, in name order, refuses a period that ends before it starts, and deletes or overwrites nothing outside its four output directories; for images it reports identical, different or both missing as they are, and removes by-products only in the identical or both-missing case.",
  ["inputs", "configurations", "histories"], "all directory contents, file times, periods and image pairs",
  "One period check is tested.",
  ["metcalcpy/validate_mv_python.py", "metcalcpy/compare_images.py"],
  [("period and selection", "metcalcpy/validate_mv_python.py:get_testing_period,get_test_xml"), ("clean-up", "metcalcpy/validate_mv_python.py:clean,delete_similar_files"), ("comparison", "metcalcpy/validate_mv_python.py:main, metcalcpy/compare_images.py")],
  None, ["files and printed verdicts"])

p("C31", "Image comparison products can be requested in any order and number",
  "For a pair of readable images of equal size the similarity is 1 exactly when their grey versions agree, and the difference, threshold and marked images can each be saved any number of times in any order with the same content every time. Unreadable images are refused at construction.",
  ["histories", "inputs"], "all image pairs and all sequences of requests",
  "Each product is requested once, in one order.",
  ["metcalcpy/compare_images.py"],
  [("lazy products", "metcalcpy/compare_images.py:CompareImages")],
  [("lazy caches", "threshold and marked images, computed on first use", "metcalcpy/compare_images.py")], ["files written"])

p("C32", "Blocking is found on the whole circle of longitudes",
  "A longitude is blocked when the mean height of the northern half of a band about the latitude of largest day-to-day variability exceeds that of the southern half for one of the configured shifts; blocked longitudes at most the configured distance apart, and at least the configured number of degrees long, form a group. A block is a chain of groups on days one or two apart that overlap by more than the configured amount, lasts at least five, ends before its centre has travelled farther than allowed, and no group belongs to two blocks; missing fields block nothing. All of this is the same wherever the prime meridian lies, and a season without groups has no blocks.",
  ["inputs", "configurations"], "all fields on whole degrees, seasons, missing days, settings and rotations of the longitudes",
  "No existing test exercises it.",
  ["metcalcpy/contributed/blocking_weather_regime/Blocking.py"],
  [("variability and instantaneous blocking", "metcalcpy/contributed/blocking_weather_regime/Blocking.py:run_CBL,run_Calc_IBL"), ("groups", "metcalcpy/contributed/blocking_weather_regime/Blocking.py:run_Calc_GIBL"), ("blocks", "metcalcpy/contributed/blocking_weather_regime/Blocking.py:run_Calc_Blocks")],
  None, ["returned arrays"])

p("C33", "Weather regimes partition the days and are reported as they are",
  "Anomalies are what the least-squares line over the seasons leaves at each calendar day and point, weighted by the cosine of latitude; principal components are orthonormal, in order of variance, and all together give the anomalies back. Each day belongs to the regime whose pattern is nearest, regimes are numbered by decreasing share of days, windowed counts count every day of the window once, and matching forecast regimes to observed ones only rearranges patterns, shares and labels, one to one. Files written and read hold exactly these values, masked or absent values being missing.",
  ["inputs", "configurations"], "all height fields, labellings, windows, renamings and file contents",
  "No existing test exercises it.",
  ["metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py", "metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py"],
  [("anomalies, components, classes, counts", "metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py"), ("matching and files", "metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py")],
  None, ["returned arrays", "files written"])

p("C34", "Oscillation and wave indices are the stated projections of anomalies",
  "A running anomaly is the value minus the mean of the available values of the current and the previous 120 days, a seasonal one minus the mean of its calendar day; filters keep exactly the requested periods and eastward wavenumbers of the detrended, tapered, padded data for any number of times and longitudes and leave their input unchanged. Index components are the least-squares coefficients of the two patterns of the day, normalised as documented, data on another grid than the patterns being refused; wave activity is the length of the projection onto the patterns of the month, skill the correlation with the first line. Computed patterns and their series are orthonormal, in order of explained share, and reproduce the data.",
  ["inputs", "configurations"], "all series, fields, patterns, sampling rates, periods, wavenumbers, calendars and grids",
  "No existing test exercises it; the published reference files have one size, so odd sizes and other grids never occur.",
  ["metcalcpy/contributed/rmm_omi/compute_mjo_indices.py", "metcalcpy/contributed/tropical_diagnostics/ccew_activity.py"],
  [("indices, filters, regression", "metcalcpy/contributed/rmm_omi/compute_mjo_indices.py"), ("anomalies, projection, activity, skill, patterns", "metcalcpy/contributed/tropical_diagnostics/ccew_activity.py")],
  None, ["returned arrays"])

p("C35", "Space-time spectra and wave filters select what their arguments say",
  "Power, co- and quadrature spectra are those of the Fourier coefficients of the detrended, tapered segments, averaged over latitudes and segments, one row per frequency and one column per eastward wavenumber for any number of times and longitudes; smoothing keeps sums and gaps, coherence and phase follow from the averaged spectra, symmetric and anti-symmetric parts add up to the field for latitudes in either order. A wave filter keeps exactly the coefficients within the requested periods, eastward wavenumbers and dispersion curves, one open depth included, and returns data of the same size; dispersion curves solve their equations on the side of their direction. Changing the longitude convention keeps every value with its longitude, and no input is modified.",
  ["inputs", "configurations"], "all fields, sizes of either parity, latitudes, segments, regions and longitudes",
  "The one existing test needs a data file of one size that is not part of the repository.",
  ["metcalcpy/contributed/spacetime/spacetime.py", "metcalcpy/contributed/spacetime/spacetime_utils.py", "metcalcpy/contributed/spacetime/matsuno_plot.py", "metcalcpy/contributed/tropical_diagnostics/utils.py"],
  [("spectra, smoothing, symmetry, wave filter", "metcalcpy/contributed/spacetime/spacetime.py"), ("dispersion curves", "metcalcpy/contributed/spacetime/matsuno_plot.py"), ("longitudes and files", "metcalcpy/contributed/spacetime/spacetime_utils.py")],
  None, ["returned arrays", "files written"])

p("C36", "Correlation analysis follows from the complete pairs",
  "Pearson, rank, Kendall, biweight, percentage-bend and outlier-free rank correlations equal their definitions on the pairs with both values known, whatever the order of the pairs, and are missing when a side does not vary. Explained variance, significance for one or two sides, confidence interval, power and Bayes factor follow from that coefficient and the number of pairs, and a sample size, coefficient or level solved for gives the power asked for. Removing incomplete data keeps every complete pair, row or column in its order and nothing else.",
  ["inputs", "configurations"], "all pairs of finite series with ties, gaps and outliers; all solvable power problems",
  "The existing test compares one Pearson coefficient of one pair of lists; ties, gaps, robust variants and the power solver are never run.",
  ["metcalcpy/util/correlation.py"],
  [("coefficients and derived quantities", "metcalcpy/util/correlation.py corr, bicor, percbend, shepherd"), ("power and intervals", "metcalcpy/util/correlation.py power_corr, compute_esci"), ("incomplete data", "metcalcpy/util/correlation.py remove_na")],
  None, ["returned table", "returned arrays"])

p("C37", "Files of gridded results hold every value at its labels and times",
  "A written file of interpolated data has every field with its values, number type, attributes and axes in order, a valid-time axis in front when asked for, and its lead and reference times are those of the calendar in any local time zone. Storm data are read with their axes in one fixed order whatever their order in the file, every value staying at its labels. Radial and tangential winds are the components along and across the ray at the azimuth, so the wind speed is kept.",
  ["inputs", "configurations"], "all datasets over named axes with listed number types, all time stamps and zones, all winds and azimuths",
  "No test writes a file or runs the storm program; the valid-time option and other time zones were never exercised.",
  ["metcalcpy/vertical_interp.py", "metcalcpy/process_tcrmw.py"],
  [("file writer", "metcalcpy/vertical_interp.py write_dataset"), ("storm axes and winds", "metcalcpy/process_tcrmw.py read_tcrmw, compute_wind_components")],
  None, ["files written", "returned arrays"])

p("C38", "Oscillation stress, its Kelvin wave power and monthly coupling indices",
  "The stress of the oscillation at a grid point is the sum over the four patterns of the regression of the band-passed flux of the point on the projection of all available points onto the pattern, times that projection; filters act per point, points without data stay missing. Wind power is current times stress of both components, weighted with the meridional structure of the Kelvin wave, which is normalised over the given band, fixed at the cell nearest to the equator and follows its equation from there to both sides. Each monthly index is the minimum over the first of the month and the 90 days before it of the first unit-variance component plus the second (or its magnitude), scaled to unit variance and labelled with that month. No input is modified.",
  ["inputs", "configurations"], "all fluxes with points without data, filters of odd length, patterns, latitude bands from south to north around the equator, and daily series whose 91st day is the first of a month",
  "No existing test exercises it.",
  ["metcalcpy/contributed/mjo_enso/compute_mjo_enso.py"],
  [("stress", "metcalcpy/contributed/mjo_enso/compute_mjo_enso.py:calc_tau_MJO"), ("power", "metcalcpy/contributed/mjo_enso/compute_mjo_enso.py:calc_wpower_MJO"), ("indices", "metcalcpy/contributed/mjo_enso/compute_mjo_enso.py:make_maki")],
  None, ["returned arrays"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
