d('E01', "tables over few valid times, leads, series and fixed values: a design complete for the wanted values apart from a few removed, repeated and unrelated rows, or rows at random; text, integer, grouped, date and missing values; direct calls, parameter sets and the file program",
  "set intersection: collect the cases of every combination, keep a row when its case is in all of them; rows compared by content",
  "up to 4 valid times, 3 leads, about 40 rows of the design plus up to 5 more, up to 2 fixed variables with 2 values each",
  "the tests equalize stored files; which case is lost depends on the combination of values present")
d('E02', "tables and stored cases from one small pool, stray columns, parameter sets for one or two axes with equalization on or off, run as a program in a scratch directory",
  "membership filter, row by row", "up to 14 rows, up to 10 stored cases, 1-2 series variables", "one stored file is equalized; partial overlap, integer series and two axes are not")
d('C01', "count rows with many zeros, any column order, extra text columns",
  "exact fraction arithmetic of the definitions on the sums; tolerance from propagated rounding where a score is built from rates that are already rounded; one row against any split of it",
  "1-60 rows, counts to 60000 (8 rows and 5000 for the split)", "the stable tests sort thresholds and build ROC curves, but do not evaluate these scores on tables with empty cells or several rows")
d('C02', "k x k tables in the columns of the line type, cells and columns in any order", "the definition on the summed table; one for diagonal tables",
  "k from 2 to 5, 1-5 rows, counts to 60000", "no stable test evaluates the score")
d('C03', "thresholds with mixed operators, negative and decimal values or names, rows in any order", "sorting by value and operator; rates of the pooled counts of each threshold",
  "1-8 thresholds, up to 25 rows", "the stored thresholds are few and fixed")
d('C04', "2x2 tables, probability bins and any set of cost/loss ratios", "expected expense of climatological, perfect and actual decisions",
  "1-12 rows of 2x2 counts, up to 25 rows of bins, up to 25 ratios", "one stored curve")
d('L01', "raw pairs distributed over rows of partial sums with different offsets and scales; constant, perfect and opposite forecasts",
  "the statistic of the raw pairs in double precision, tolerance scaled with the conditioning of the sums", "1-25 rows of 1-30 pairs",
  "stored sums give no independent truth, and few statistics are asserted")
d('L02', "raw wind vectors in all quadrants and on the axes, distributed over rows", "direct evaluation from the vectors; directions compared on the circle",
  "1-20 rows of 1-5 vectors", "no stable test evaluates vector statistics")
d('L03', "rows of ensemble, ranked-probability and neighborhood statistics with very different pair counts; single rows used as they are",
  "weighted means, with squares taken before roots and skill taken from averaged parts", "1-8 rows, pair counts to 60000", "no stable test evaluates these line types over several cases")
d('L04', "probability bin tables with empty bins and one-sided tables", "the definitions on pooled bins, the decomposition identity, ROC area as a rank-sum probability",
  "up to 12 bins, up to 20 rows (30 for a single bin)", "only the ROC area of stored tables is tested")
d('M01', "object sets with all flag combinations in two and three dimensions", "count or size sum decoded from the name of the statistic; parts of a whole add to one, inverse ratios multiply to one",
  "0-60 objects", "no test asserts the individual ratios")
d('M02', "tracks with interleaved rows, ties and any lag limit", "per-object series joined with one missing value, autocorrelation and runs probability evaluated directly; renaming, shifting and scaling",
  "1-12 objects of 1-15 values", "one stored track set")
d('N01', "every statistic with missing or zero cells, rows and columns, absent columns and empty tables; whole program runs", "no exception; finite or missing; missing where exact arithmetic finds a vanishing denominator",
  "small tables; up to 6 objects; up to 6 faults per file", "the suite has hardly any degenerate input")
d('N02', "sequences of calls over all statistics, correlations, tests and curves; program runs repeated with one parameter set", "deep comparison of the arguments before and after, and of repeated results",
  "2-40 calls", "leaking state needs a history")
d('A01', "input tables and parameter sets for every line type, groups, one or two axes, equalization, appended output", "independent row selection and pooling, then the statistic of the pooled row (see the method above)",
  "up to 16 rows (more when equalized, up to 400 in long runs), up to 3 statistics", "the stored files cover a handful of parameter sets")
d('A02', "pairs of runs related by shuffling, unrelated rows, renaming, grouping and splitting", "equal values up to rounding", "as A01; a row is split into up to 3", "a relation needs pairs of runs")
d('A03', "tables and parameter sets of the summary, with field groups", "the statistic of each row alone; pair-weighted combination for groups, also where a row belongs to several groups", "1-12 rows (a small grid for equalization)",
  "no stable test runs the summary on its own")
d('A04', "summary rows of two series over leads, masks and days; differences placed next to the critical values", "means, paired t probability, table of levels, perfect score of every statistic",
  "up to 110 days, 1-3 derived entries", "one stored scorecard")
d('A05', "2x2 and probability tables with parameter sets", "the cost/loss model on the pooled rows; bounds recomputed from resampled rows with the same seed", "1-10 rows, 10-40 iterations", "one stored file")
d('A06', "object tables with series, groups and statistics", "M01 reference for each point; bounds inside what subsets of cases can give, and the same with the objects of no point removed; files before and after equalization", "1-40 objects, 1-4 statistics", "one stored file and three asserted values")
d('B01', "data, recording statistic functions, methods, levels, block lengths, batches", "structure of every recorded resample; quantiles by interpolation of the recorded values; frequencies within ten standard deviations",
  "1-70 rows, 2-150 iterations (600 for frequencies)", "the two bootstrap tests are not among the stable ones, and random output cannot be compared with a file")
d('B02', "pairs and sequences of runs with equal or different seeds, iterations, batches, workers, and fresh interpreters", "equality", "4-12 rows, 2-60 iterations, up to 3 workers", "needs histories and processes")
d('D01', "operand lists and whole runs with derived curves", "the operation on independently computed operands; swap and identity relations; sign of improvement for every statistic with a perfect score",
  "up to 4 values per list, 1-4 days, 15-60 iterations", "few stored derived curves")
d('F01', "tables with field groups for every supported line type", "sums and weighted means per valid time, lead and statistic", "up to 20 rows", "one stored table")
d('T01', "sample summaries, including extreme, equal and perfectly correlated ones", "t distribution by incomplete beta function and by numerical integration; outcome consistency; mirror relation",
  "n to 100000, 1-200 degrees of freedom for the integrals", "one example")
d('T02', "series with ties and missing values, all methods, tails and thresholds", "direct definitions; symmetry and scaling", "up to 60 values", "one example each")
d('T04', "correlations, numbers of pairs, levels, wanted powers, tails, prior scales, one- and two-dimensional tables with gaps", "normal approximation and quantiles evaluated directly; Bayes factors as integrals over the prior; the solved value put back into the power", "up to 400 pairs (60 for Bayes factors), correlations in hundredths; one-sided Bayes factors are not claimed", "no stable test")
d('T03', "series with gaps, trends, jumps and strong autocorrelation", "the formula; scaling and shift relations", "1-60 values", "the lag-one coefficient of one series")
d('U01', "decimal numbers, tables, lists and texts", "the decimal module, list comprehensions", "up to 15 rows, numbers to 10^11 scaled by up to 6 decimals", "single examples")
d('U02', "longitude grids and fields in both conventions", "modular arithmetic; bookkeeping of columns", "up to 40 longitudes", "one example each for two of the conversions")
d('X01', "ensembles, thresholds, envelopes, invalid input", "the formula, point by point", "up to 3 x 4 points, 1-8 members, 2-6 nodes", "one stored field")
d('X02', "columns, orders of dimensions, units, ground pressures, valid and reference times, local time zones, files and the program", "interpolation per column; hypsometric sum; times read back from the file", "1-6 levels, up to 5 targets", "no stable test")
d('X03', "winds, azimuths, files in any order of dimensions, the program", "explicit projection; turning the storm", "up to 4 ranges, 8 azimuths, 3 levels, 3 times", "no stable test")
d('X04', "fields, odd and even grids, bands, subsets of waves, both packages", "explicit Fourier sums and weighted means", "up to 8 latitudes, 13 longitudes", "no stable test")
d('X05', "fields, segment lengths, filter limits, wave types", "explicit Fourier sums, linearity, enumeration of modes, the shallow-water relation",
  "segments of 2-14 times, up to 4 segments; filters up to 32 times and 14 longitudes", "the one test that exists is not among the stable ones")
d('X06', "fields, patterns, calendars, leads", "least squares, running means and Fourier sums by loop", "up to 140 times for the running means, 420 days for the ENSO indices", "no stable test")
d('X07', "height fields, blocked patterns, sequences of regimes, files", "circular grouping, loops over days", "up to 360 longitudes, 3 seasons", "no stable test")
d('Y01', "YAML documents, tags, references, environments, sequences of readings", "the structure the text was written from, with one substitution per reference", "up to 10 leaves per node, 2-4 readings", "no stable test")
d('Y02', "small images, sequences of requests for pictures to a file or to a window (windows are stand-ins that keep the picture)", "structural similarity evaluated directly; comparison of pixels", "7-26 pixels a side, 1-7 requests", "one stored pair")
d('Y03', "scratch directories with similar names; removals are intercepted, and one aimed outside is recorded and not carried out", "expected remaining set and report", "up to 10 files per directory", "only the period and one name are tested")

HEAD = """
# Design

Target: METcalcpy, a Python library that turns verification tables into statistics, confidence intervals and
diagnostic fields. `properties.jsonl` lists what a user relies on; this file says how generated-input search decides
each. It is written by `tools/design.py` from `tools/design_src.py` and the facets declared in the checks.

## Method shared by all checks

* `run_check.sh <ID>` runs `checks/<id>.py` with the interpreter the project is installed in, importing `metcalcpy` from `/repo`.
* A check is a list of *facets*. A facet is a Hypothesis strategy that builds a plain JSON-able case by construction,
  an oracle, a rule for non-trivial cases, and a number of cases for each tier.
* The oracle is written from the definition (formula, raw pairs, loop over rows).
  It uses public functions and files only, so a refactoring that keeps behaviour stays quiet.
* The checks of whole programs (A01, A02, A03, D01, F01) select and pool rows on their own. For probability, ensemble,
  ranked and neighbourhood continuous rows the statistic is then computed here as well. For the other line types it is the
  single-row function of the package, applied to the row pooled here; C01-C03 and L01-L04 decide those functions from their definitions.
* Hypothesis follows every fresh case by about six variations of it. The harness varies one case in eight, so that a
  facet choosing among line types or statistics sees all of them within the quick tier.
* `VERIF_SEED` seeds Hypothesis; every random choice of a case, bootstrap seeds included, is drawn by Hypothesis.
* A failing case is shrunk and written to `evidence/replay/<ID>-<facet>.json`;
  `bash run_check.sh <ID> --replay <file>` reruns exactly that case.
* Exit 1 comes only from a disagreement with the oracle, or an exception out of the code under test where the property
  promises a value. A failure of the harness itself ends with another code and no VIOLATION line.
* Evidence: cases generated, distinct non-trivial ones by the stated rule (hash of the case), and samples, per facet.
  A facet without any non-trivial case is a check error.
* Warning filters, numpy error state, the numpy generator and pandas options are reset before each case.
* Known findings are listed in `known_findings.txt`, matched by facet and message; never written at run time.
* Cost: facets run in parallel on up to 8 cores. The quick tier takes between 2 and 22 seconds per check.
  A facet stops at 150 seconds in the quick and 600 in the thorough tier, a check at 840.
* The level is exploration throughout: no alarm means that no counterexample was found within the bounds.

## Properties
"""

TAIL = """
## Defects found on the unchanged tree

Repaired ones are the `fixed:` lines of `known_findings.txt`, each with its commit. Left as known findings:

* T02, facet `runs_undefined`: the runs test raises an exception when the series has no values on both sides of the threshold.
* T02, facet `runs_integer_mean`: the runs test of an integer array about its mean cuts at the truncated mean.
  The module of both is named like a test file, so it is not changed. One commit did repair it; the next restores the original.
* D01, facet `equivalence_program`: the equivalence operation requested through the aggregation program raises KeyError.

## Alarms that were the check's fault, and what changed

* C01: SEDI and EDI are built from rates that are already rounded; the tolerance now propagates that rounding.
* T01: levels next to a probability near 0; a reference for the noncentral t distribution that was itself imprecise.
* T02: rescaling of the percentage bend correlation. T03: rounding noise of constant decimals.
* E02: 'yes' and 'no' are not booleans the program supports. U01: decimal ties that a double only approximates.
* N01: the expected-correct rate must be the same in all rows, as documented. N02: runs test outside its domain.
* D01: the order of keys was lost when a case was stored. X03: alignment of coordinates in the rotation oracle.
* X02: numeric time coordinate. X06: modes with a constant column. X07: components of a single point.

## Behaviour no property claims

* Object aggregation counts a case drawn several times in a resample once.
* The summary with aggregation on both axes or with groups on the second axis; a semicolon inside a series value of the aggregation.
* Event equalization may add a column to the data it is given.
* Scorecard: odds ratio and its logarithm, the sign of the day-based convention for statistics without an agreed direction, series without a lead time.
* Untagged plain YAML values that contain a reference are substituted too.
* X02: surfaces that do not rise through the levels; inputs whose valid time is a coordinate rather than a variable. X04: integer fields.
* X05: coherence probability, limits in reverse order or beyond the resolution, the smoother on isolated values, the
  Nyquist wavenumber, frequency limits for odd numbers of times. X06: wavenumber limits that are exact integers.
* X07: detrending inside the weighting, missing values read as -9999, blocks moving across longitude 0, odd north and south limits.
* `metcalcpy/util/read_file.py` needs the METdatadb package, `metcalcpy/contributed/zonal_meridional/recipes.py` imports
  modules that are not in the repository, `scratch/` needs a database client, and plotting helpers need kaleido: not reachable here, no property about them.

## Planted bugs

Run with `vcheck`; every one in `seeded/` is caught by the check of its property.

| bug | check | remark |
|---|---|---|
| block-resample-end | B01 | |
| resample-batch-overrun | B01 | |
| derived-pairs-by-lead | A04 | |
| scorecard-month-band | A04 | missed at first; differences are now drawn next to the critical values |
| ecnt-low-side-weight | L03 | |
| ee-missing-fixed-value | E01 | |
| mode-3d-oca-osa | M01 | |
| pct-single-count-bin | L04 | |
| stderr-high-autocorrelation | T03 | |
| nbrcnt-group-reference | F01 | |
| gibl-gap-limit | X07 | |
| uneven-azimuths | X03 | |
| phase-quadrant | X05 | |
| value-at-base-rate | C04 | |
| skill-negative-reference | D01 | |
| acf-lags-valid-only | T02 | |
| ground-mask-units | X02 | |
| file-day-utc | Y03 | missed at first; the local time zone is now varied |
| flip-at-180 | U02 | |
| object-second-axis-variable | A06 | |
| seed-zero | B02 | seed 0 is now drawn often instead of by chance |
| direction-along-axis | L02 | |
| ratio-step-not-dividing | A05 | |
| category-cell-order | C02 | |
| enso-three-months | X06 | |
| perfect-score-sign | A04 | |
| wave-phase-origin | X04 | |
| solved-level-above-half | T04 | |
| box-inside-ring | Y02 | |
| member-at-threshold | X01 | |
| negative-float-text | U01 | |
| discriminant-no-hits | C01 | |
| scatter-negative-mean | L01 | |
| empty-bin-calibration | N01 | missed at first; more quotients are now asked for with a zero denominator |
| ratios-sorted-in-place | N02 | |
| equal-rows-of-stored-case | E02 | equal rows were added to the comparison of both programs |
| series-named-like-statistic | A01 | series named like statistics were added to the points |
| bins-of-any-series | A02 | written together with the check of whole curves |
| groups-last-series-only | A03 | groups with common members were added |
| test-interval-level | T01 | |
| tagged-text-blanks | Y01 | |
| close-thresholds | C03 | |

Nine more were dropped: five failed a stable test, four touched lines of a repair (all caught). M02 has none: the
stable test of the revision statistics rejects every edit tried.

Small mutations of the statistics modules, the equivalence test and event equalization (521 in two samples, then the
default flags again on their own, then 539 more over the programs and diagnostics) were also run against the checks, and the survivors read. Gaps in claimed results
led to stronger checks: the default flag of single rows in L01 and L03, the critical values in A04, the invalid
arguments of T01. The rest change messages, warning filters or unreachable branches, set a flag that cancels in a
ratio, or touch code no property claims. One group is left open on purpose: the default flag of the ensemble
square-root scores, which only matters to callers that supply the squared columns made inside the library.
"""
