"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

U = "estimation/utilities/"; D = "estimation/unidimensional/dichotomous/"; Y = "estimation/unidimensional/polytomous/"
M = "estimation/multidimensional/"; C = "common/"; F = "factoranalysis/"; S = "synthetic/"

p("D01", "Tagging and reverse scoring keep valid answers and never lose a missing mark",
  "Tagging missing data leaves every valid answer as it was and turns every other cell, whatever the storage type of the table, into the one reserved missing code that all of the library recognises. Reverse scoring maps answer v of a reversed item to max+1-v, touches no other item, keeps every missing cell missing, and applied twice gives the table back. No sequence of these steps ever turns a missing cell into an answer or edits the caller's table.",
  ["inputs", "histories"], "every table (shape, storage type, values), every list of valid answers, every set of reversed items, every sequence of the steps",
  "The tests tag one int64 table and reverse one table; they never chain the steps, never use narrow storage types and look at a handful of cells.",
  [U+"utils.py", C+"reverse.py"], [("mask and overwrite on a copy", U+"utils.py:tag_missing_data"), ("missing code restored after the arithmetic", C+"reverse.py:reverse_score")],
  [("table", "answers by item and respondent, with the missing code", "argument and return value")], ["girth.tag_missing_data", "girth.common.reverse_score"])

p("D02", "Ordinal recoding is an order-preserving renumbering of each item's answers",
  "Recoding an ordinal table gives each item its own block of consecutive codes, the blocks following each other in item order, and within a block codes follow the order of the answers that item really has; missing cells stay missing and the returned mask marks exactly the answered cells. The reported number of categories of an item is its number of distinct answers, at least two, and an item with one single answer is coded low if that is the lowest answer of the whole table and high otherwise. With trimming on, exactly the respondents whose answered items are all at the table's lowest or all at its highest answer (and those who answered nothing) are dropped, the order of the others kept.",
  ["inputs"], "every ordinal table, with any answer codes, gaps, missing cells, integer storage type, and either trimming choice",
  "One test with a fixed random table looks at sizes and extremes; gaps, missing cells, single-valued items and narrow storage types are not enumerated.",
  [U+"polytomous_utils.py"], [("unique/inverse renumbering with a running offset", U+"polytomous_utils.py:condition_polytomous_response")],
  [("linear codes", "block offset plus rank of the answer", "return value")], ["girth.condition_polytomous_response"])

p("D03", "True/false counts, kernel signs and trimming see exactly the valid answers",
  "For every item the reported counts are the number of answers equal to 0 and equal to 1, everything else ignored, and the kernel sign of a cell is -1 for 1, +1 for 0 and 0 for anything else. Trimming a set of response patterns removes exactly the patterns whose valid answers do not vary (patterns with no valid answer included) together with their counts, and keeps the others in order with their own counts. The analytic start value of an item is computed from these same counts.",
  ["inputs"], "every table over {0, 1, missing, other codes}, every pattern set and count vector",
  "Tests use a few fixed tables and never enumerate mixtures of missing and constant patterns.",
  [U+"utils.py"], [("equality masks", U+"utils.py:get_true_false_counts"), ("equality masks", U+"utils.py:convert_responses_to_kernel_sign"), ("masked variance", U+"utils.py:trim_response_set_and_counts")],
  [], ["girth.get_true_false_counts", "girth.convert_responses_to_kernel_sign", "girth.trim_response_set_and_counts", "girth.mml_approx"])

p("D04", "Options: defaults, overrides, and rejection of anything invalid, everywhere",
  "Validating options returns the documented defaults with exactly the caller's entries replaced, never edits the caller's dictionary, and two calls never share state. Any unknown key, any value outside an option's documented type and range, or a non-empty container that is not a dictionary makes the validation, and every estimation routine that takes options, fail instead of computing. Accepted settings are honoured: the latent density is evaluated at the requested number of quadrature points within the requested bounds.",
  ["configurations", "histories"], "every combination of option keys with valid and invalid values, every routine that takes options, every sequence of validations",
  "Tests try one bad value per key on the validator alone; combinations, every routine, and leakage between calls are out of their reach.",
  [U+"girth_options.py", Y+"grm_mml.py", M+"multidimensional_mml_methods.py"], [("per-key predicates over a fresh default dictionary", U+"girth_options.py:validate_estimation_options")],
  [("options", "effective option dictionary", "return value")], ["girth.validate_estimation_options", "girth.default_options", "all estimators"])

p("D05", "No call has side effects and no result depends on what was called before",
  "No public function changes its array, dictionary or list arguments, nor, given a seed where it takes one, the process-wide random state, and repeating a call with the same arguments (and seed, where it takes one) gives the same result whatever other calls happened in between. Results belong to the caller: overwriting a returned array changes neither the arguments nor any later result.",
  ["histories"], "every sequence of public calls, repetitions and overwrites of results",
  "Each test calls a function once on fresh data and compares numbers; none looks at the arguments afterwards or interleaves calls.",
  ["estimation", "common", "factoranalysis", "synthetic"], [("copies before in-place arithmetic", U+"polytomous_utils.py"), ("local random generators", S+"dichotomous.py"), ("fresh default options", U+"girth_options.py")],
  [("memo", "result first seen for each call", "specification only")], ["every public function"])

p("D06", "Results depend on the answers, not on how the table is stored",
  "Every routine that takes a table of answers gives the same result for the same answers stored as any integer type (or, for true/false data, as booleans), in row- or column-major order, as a view into a larger array, or in read-only memory. In particular no narrow type overflows silently.",
  ["inputs", "configurations"], "every routine, every table, every storage type and memory layout that can hold its answers",
  "The tests use int64 (and float64) row-major arrays only.",
  [U+"polytomous_utils.py", D+"partial_integrals.py", D+"rasch_mml.py", C+"polychoric.py", U+"utils.py"],
  [("explicit conversions before arithmetic and indexing", U+"polytomous_utils.py:condition_polytomous_response")], [], ["every routine that takes answers"])

p("E01", "Item estimates do not depend on the order of the respondents",
  "Reordering the respondents leaves the item estimates of every estimation routine unchanged, up to its convergence tolerance, and reorders the returned abilities in the same way. Repeating every respondent the same number of times leaves the item estimates of the marginal and conditional maximum likelihood routines and of the dichotomous joint routines unchanged as well.",
  ["inputs"], "every table, every permutation of respondents, every repetition factor, every estimator and option set",
  "Every test fits one ordering of one table.",
  [D+"jml_methods.py", D+"rasch_mml.py", D+"rasch_conditional.py", Y+"grm_mml.py", Y+"pcm_mml.py"], [("patterns aggregated with counts, sums over respondents", D+"rasch_mml.py:onepl_mml")],
  [("presentation", "how the base table is shown: respondent order, copies, item order, codes", "specification")], ["all estimators"])

p("E02", "Item estimates follow the items when the items are reordered",
  "Reordering the items reorders the estimated parameters in the same way and leaves the abilities unchanged, up to the convergence tolerance of the routine, also when items have different numbers of categories or missing answers. Which row an item occupies never changes what is estimated for it.",
  ["inputs"], "every table with any mixture of category counts, every permutation of items, every unidimensional estimator",
  "Every test fits one item order.",
  [D+"jml_methods.py", D+"rasch_mml.py", Y+"grm_mml.py", Y+"grm_jml.py", Y+"pcm_mml.py", Y+"pcm_jml.py", Y+"grm_mml_eap.py"], [("block offsets into linearised parameters", Y+"grm_mml.py")],
  [], ["all estimators"])

p("E03", "Only the order of the answer codes matters to the polytomous routines",
  "Replacing the answer codes of a table by any other integer codes in the same order (shifting, stretching, using gaps or negative codes), for the whole table at once, leaves every polytomous estimate and ability unchanged; items with fewer categories keep their thresholds first and the rest of their row blank.",
  ["inputs"], "every table, every strictly increasing recoding, every polytomous and graded routine (the two-parameter routine included)",
  "Tests always code answers 1..k or 0/1.",
  [U+"polytomous_utils.py", Y+"grm_mml.py", Y+"grm_jml.py", Y+"pcm_mml.py", Y+"pcm_jml.py", Y+"grm_mml_eap.py", M+"multidimensional_mml_methods.py"], [("rank coding", U+"polytomous_utils.py:condition_polytomous_response")],
  [], ["grm_*", "pcm_*", "twopl_mml*"])

p("E04", "Reversing the scale mirrors the estimates",
  "When every answer is reversed (1 becomes 0, the highest category becomes the lowest), difficulties change sign, thresholds change sign and order, discriminations stay, and abilities change sign, up to convergence tolerance, for every Rasch, one-, two-parameter, graded response and partial credit routine under a symmetric latent density.",
  ["inputs"], "every table and option set with a symmetric latent density",
  "No test relates a fit to the fit of the reversed data.",
  [D+"rasch_mml.py", D+"rasch_conditional.py", D+"jml_methods.py", Y+"grm_mml.py", Y+"pcm_mml.py", Y+"grm_jml.py"], [("symmetric kernels and quadrature", Y+"partial_integrals_poly.py")], [], ["all of those estimators"])

p("E05", "Missing answers carry no information",
  "A respondent who answered nothing changes no item estimate of any routine that accepts missing data; in ability estimation an unanswered item acts exactly as if it were not on the respondent's test. Whatever stood in a cell before it was tagged as missing has no influence on any result.",
  ["inputs"], "every pattern of missing cells, every routine that accepts missing data, every number of empty respondents",
  "Tests compare one random missing pattern with a stored number.",
  [U+"utils.py", U+"polytomous_utils.py", D+"partial_integrals.py", Y+"partial_integrals_poly.py", D+"ability_estimation.py", Y+"grm_jml.py", Y+"pcm_jml.py", D+"jml_methods.py"], [("factor 1 for missing cells", Y+"partial_integrals_poly.py"), ("kernel sign 0", U+"utils.py")], [], ["all estimators and ability routines"])

p("E06", "Items nobody or everybody endorses get the extreme difficulty on the right side",
  "In the marginal one- and two-parameter and graded routines an item that nobody endorses is placed at or near the upper end of the difficulty range and an item that everybody endorses at or near the lower end, whatever its position on the test and whether or not the lookup table is used. Such an item does not disturb the estimates of the other items, and between items with the same discrimination a smaller share of endorsements always means a larger difficulty.",
  ["inputs", "configurations"], "every table with constant items at any row, with and without missing cells, table lookup on or off",
  "Tests never fit a table with a constant item, though bootstrap resamples of small tables contain them.",
  [U+"look_up_table.py", U+"polytomous_utils.py", Y+"grm_mml.py", Y+"grm_mml_eap.py", D+"rasch_mml.py"], [("limits of the interpolation", U+"look_up_table.py:create_beta_LUT"), ("single-valued items", U+"polytomous_utils.py:_solve_for_constants")], [], ["rasch_mml", "onepl_mml", "twopl_mml", "grm_mml", "twopl_mml_eap", "grm_mml_eap"])

p("E07", "Dichotomous marginal and conditional estimation recovers exact populations",
  "On a table whose pattern frequencies are exactly those of a Rasch, one- or two-parameter population with the stated latent density, the marginal routines return the population's parameters up to their convergence tolerance, for any quadrature, any latent density, lookup table on or off, and with answers missing completely at random. On tables whose patterns have exactly their conditional Rasch frequencies the conditional routine returns the population's difficulties, centred at zero and divided by the given discrimination.",
  ["inputs", "configurations"], "every exact population: item parameters, discrete latent density, quadrature, missingness design, options",
  "Tests fit random samples and compare with stored numbers or loose errors under the default density.",
  [D+"rasch_mml.py", D+"twopl_mml.py", Y+"grm_mml.py", D+"rasch_conditional.py", D+"twopl_mml_eap.py"], [("marginal likelihood on quadrature points", D+"rasch_mml.py:onepl_mml"), ("conditional likelihood by symmetric functions", D+"rasch_conditional.py")], [], ["rasch_mml", "onepl_mml", "twopl_mml", "twopl_mml_eap", "rasch_conditional"])

p("E08", "Polytomous marginal estimation recovers exact populations",
  "On a table whose pattern frequencies are exactly those of a graded response or partial credit population with the stated latent density, the marginal routines return the population's discriminations and thresholds up to their convergence tolerance, also with different numbers of categories per item, with answers missing completely at random, for any quadrature and with the lookup table on or off. Thresholds of the graded model come out in increasing order.",
  ["inputs", "configurations"], "every exact population: item parameters, category counts, discrete latent density, quadrature, missingness design",
  "Tests check random samples against stored errors.",
  [Y+"grm_mml.py", Y+"pcm_mml.py", Y+"grm_mml_eap.py", Y+"partial_integrals_poly.py"], [("marginal likelihood on quadrature points", Y+"grm_mml.py"), ("joint minimisation per item", Y+"pcm_mml.py")], [], ["grm_mml", "pcm_mml", "grm_mml_eap"])

p("E09", "Joint estimates are a fixed point of person and item estimation",
  "When a joint maximum likelihood routine stops by convergence, its item parameters satisfy the items' own likelihood equations given the abilities that maximise the respondents' likelihood under these same parameters, standardised as the routine standardises them; perfect and zero response patterns and empty respondents take no part. The Rasch routine leaves the discrimination it was given untouched and the one-parameter routine returns a single one.",
  ["inputs"], "every dichotomous table (missing cells included) on which the routine converges inside its parameter bounds",
  "Tests compare one table with stored numbers.",
  [D+"jml_methods.py", Y+"grm_jml.py", Y+"pcm_jml.py"], [("alternating minimisation", D+"jml_methods.py:_jml_abstract")], [], ["rasch_jml", "onepl_jml", "twopl_jml", "grm_jml", "pcm_jml"])

p("E10", "What an estimation reports is complete and agrees with itself",
  "Every estimation result has one discrimination and one row of thresholds per item within the documented search ranges, blank exactly where an item has fewer categories, and one ability per respondent. The reported abilities are the expected-a-posteriori abilities of the data under the reported parameters and density, the reported information criteria are those of the reported parameters (log-likelihood, number of estimated density parameters, number of respondents), and each delta is null minus final. The multidimensional routine additionally keeps its identification pattern (zeros above the reversed diagonal of the last items).",
  ["inputs", "configurations"], "every table and option set, every estimator",
  "Tests look at selected entries of the results of one data set.",
  [Y+"grm_mml.py", Y+"pcm_mml.py", Y+"gum_mml.py", Y+"grm_mml_eap.py", M+"multidimensional_mml_methods.py", U+"latent_ability_distribution.py"], [("final recomputation of the integrals", Y+"grm_mml.py"), ("AIC/BIC", U+"latent_ability_distribution.py:compute_metrics")], [], ["all estimators"])

p("A01", "Expected-a-posteriori abilities are exact posterior means",
  "The expected-a-posteriori ability of a respondent is the posterior mean of the latent trait given the answered items, the item parameters and the latent density, for the one-, two- and three-parameter models and for the multidimensional graded and two-parameter models, factor by factor. In the one- and two-parameter routines a single discrimination stands for all items.",
  ["inputs", "configurations"], "every response pattern with missing cells, every item set, every density and quadrature, one to three factors",
  "Tests check averages over random data.",
  [D+"ability_estimation.py", D+"ability_threepl.py", Y+"ability_estimation_poly.py", M+"multidimensional_ability_methods.py"], [("ratio of weighted sums over quadrature points", Y+"ability_estimation_poly.py")], [], ["ability_eap", "ability_3pl_eap", "multidimensional_ability_eap"])

p("A02", "Maximum likelihood and maximum a posteriori abilities sit at the maximum",
  "The maximum likelihood and maximum a posteriori abilities satisfy the likelihood (respectively posterior) equation of the respondent's answered items, or lie at the end of the search range. A respondent whose answered items are all wrong, all right or absent gets the caller's no-estimate value with magnitude kept: negative for all wrong, positive for all right, not-a-number by default.",
  ["inputs"], "every response pattern with missing cells, every item set, every prior, every no-estimate value",
  "Tests check averages over random data and one trimmed pattern.",
  [D+"ability_estimation.py", D+"ability_threepl.py", M+"multidimensional_ability_methods.py"], [("bounded scalar minimisation per respondent", D+"ability_estimation.py:ability_map"), ("trimming and sentinel", D+"ability_estimation.py:ability_mle")], [], ["ability_mle", "ability_map", "ability_3pl_map", "multidimensional_ability_map"])

p("A03", "A respondent's ability depends on that respondent's answers only",
  "Scoring respondents together, one by one, in any grouping or order, or next to copies of themselves gives each respondent the same ability. More endorsements never give a lower ability on positively discriminating items.",
  ["inputs", "histories"], "every set of respondents and every way to split it into batches, every ability routine",
  "Tests score one full table at a time.",
  [D+"ability_estimation.py", D+"ability_threepl.py", M+"multidimensional_ability_methods.py"], [("per-respondent minimisation or per-row integrals", D+"ability_estimation.py")], [], ["all ability routines"])

p("L01", "The estimated latent density is a standardised density and never fits worse",
  "The spline density is non-negative, evaluates as the stated cubic B-spline combination, and after estimation or resampling integrates to one with mean zero and variance one. Without estimation, and in the first iteration, the caller's density is used unchanged; with estimation the density returned fits at least as well as any other admissible spline it could have chosen, and the information criteria count its free parameters.",
  ["inputs", "configurations"], "every spline size, quadrature range, coefficient vector and likelihood table",
  "Tests evaluate a few spline points and one resampling.",
  [U+"latent_ability_distribution.py"], [("equality constraints", U+"latent_ability_distribution.py:_parameter_constraints"), ("constrained minimisation", U+"latent_ability_distribution.py:optimize_distribution")], [], ["girth.LatentPDF", "girth.CubicSplinePDF", "girth.utilities.latent_ability_distribution.resample"])

p("L02", "The difficulty lookup inverts the marginal probability",
  "The lookup function returns the difficulty at which the marginal probability of a correct answer, under the requested density and quadrature, equals the given share, for every discrimination on its grid range including both ends, and it is non-increasing in the share. Shares beyond what its difficulty range can produce give the nearest end of that range.",
  ["inputs", "configurations"], "every grid, density, quadrature, discrimination in range and share in [0, 1]",
  "One test evaluates two points in the middle of one grid.",
  [U+"look_up_table.py"], [("bilinear interpolation", U+"look_up_table.py:create_beta_LUT")], [], ["girth.create_beta_LUT"])

p("B01", "The bootstrap summarises exactly the requested resamples on any worker count",
  "The bootstrap fits the model on exactly the requested number of resamples, each made of as many whole respondents as the data has, drawn with replacement by independent streams, with the caller's options; with the same seed and number of processes it is reproducible, and no two workers repeat each other's draws. Standard errors, bias and 95% limits are the sample standard deviation, mean minus solution, and 2.5/97.5 percentiles of those fits, parameter by parameter and in the shape of the solution, and a given solution is used as is.",
  ["schedules", "inputs", "configurations"], "every data set, number of iterations, number of worker processes, seed, worker schedule, and model function",
  "The bootstrap tests are skipped; nothing runs it.",
  [U+"bootstrap_errors.py"], [("split into chunks with one random stream each", U+"bootstrap_errors.py:standard_errors_bootstrap"), ("pool of spawned processes", U+"bootstrap_errors.py")], [("chunks", "iterations assigned to a worker", U+"bootstrap_errors.py")], ["girth.standard_errors_bootstrap"])

p("P01", "The polychoric matrix holds every pair exactly once, on any number of cores",
  "The correlation matrix computed on any number of processes equals the serial one: symmetric, ones on the diagonal, each pair in its own place, for any number of items from one up and also with more processes than pairs, and no shared memory is left behind. A contingency table counts, for each pair of answers in range, exactly the respondents giving that pair and nobody else, for any range including negative answers, and cleaning it removes exactly the empty rows and columns.",
  ["schedules", "inputs", "configurations"], "every table, answer range, number of items and processes, every worker schedule",
  "Tests run one table on two processes and three small contingency tables.",
  [C+"polychoric.py"], [("pairs split in chunks over shared memory", C+"polychoric.py:polychoric_correlation"), ("linear index counting", C+"polychoric.py:contingency_table")], [("chunks", "pairs assigned to a worker", C+"polychoric.py")], ["girth.common.polychoric_correlation", "polychoric_correlation_serial", "contingency_table", "validate_contingency_table"])

p("P02", "Polychoric and polyserial correlations are those of the latent variables",
  "A polychoric correlation reproduces the correlation known in closed form for evenly split two-category items, ignores the labels of the categories and answers out of range, changes sign when one item is reversed, and follows the items when they are reordered; it satisfies the likelihood equation of its model, thresholds taken from the margins. A polyserial correlation satisfies the likelihood equation of its model, does not depend on the scale of the continuous variable or the labels of the ordinal one, and changes sign when either is reversed.",
  ["inputs"], "every pair of ordinal or continuous variables that is not degenerate",
  "Tests check three correlations on random data with loose tolerance.",
  [C+"polychoric.py", C+"polyserial.py"], [("bivariate normal rectangle probabilities", C+"polychoric.py:_polychoric_correlation_value"), ("one-dimensional minimisation", C+"polyserial.py")], [], ["girth.common.polychoric_correlation", "girth.common.polyserial_correlation"])

p("S01", "Classical statistics are computed from the valid answers only, item by item",
  "Item counts, means and standard deviations are those of the valid answers of the item; item-score correlations correlate the item with the mean of the respondent's other valid answers over the respondents who answered the item; Cronbach's alpha, and alpha without each item, are those of the answers used. Missing answers never enter as numbers.",
  ["inputs"], "every ordinal table with missing cells",
  "Tests compare complete data with library calls and one small missing case.",
  [U+"ctt_statistics.py", C+"cronbach_alpha.py"], [("masked sums", U+"ctt_statistics.py"), ("masked variances", C+"cronbach_alpha.py")], [], ["girth.classical_test_statistics", "girth.common.cronbach_alpha"])

p("S02", "Synthetic data follow the stated model",
  "For every item and ability the generated answers have exactly the category probabilities of the requested model and parameters (two- and three-parameter, multidimensional, graded, partial credit and unfolding), independently over items and respondents, with answers 0/1 or 1..levels. The same seed gives the same data, parameters given once apply to all items whatever their storage type, and parameters the model does not admit are refused: graded thresholds that do not rise, unfolding thresholds that are not mirrored around the middle or not odd in number, polytomous items with fewer than two thresholds.",
  ["inputs", "configurations"], "every model, parameter set (also integer-typed), ability vector and seed",
  "Tests check averages at a few parameter sets with float parameters, and stored values of one seed.",
  [S+"dichotomous.py", S+"polytomous.py"], [("uniform draw against cumulated probabilities", S+"polytomous.py"), ("parameter checks", S+"polytomous.py:_check_difficulty_parameters")], [], ["girth.synthetic.create_synthetic_irt_dichotomous", "girth.synthetic.create_synthetic_irt_polytomous"])

p("F01", "Factor extraction explains the matrix it was given",
  "Principal components return eigenvector loadings scaled to their eigenvalues, largest first, and all of them together reproduce the matrix. On a matrix that exactly has the requested number of common factors, principal axis, minimum rank and maximum likelihood extraction return unique variances and loadings that reproduce it, whatever admissible initial guess is given; reported eigenvalues are the sums of squared loadings column by column, in decreasing order except for maximum likelihood.",
  ["inputs", "configurations"], "every exact factor matrix (items, factors, loadings), every initial guess, every number of components",
  "Tests recover one random matrix per method, and two of these tests fail here on signs.",
  [F+"pca.py", F+"paf.py", F+"minimum_rank.py", F+"maximum_likelihood.py"], [("eigen-decomposition", F+"pca.py"), ("fixed point / SLSQP / conditional maximisation", F+"paf.py")], [], ["girth.factoranalysis.*"])

p("F02", "Rotations and angles preserve what they must",
  "The Procrustes matrix is orthogonal and maps the collected matrix onto the target when the two differ by a rotation or reflection; rotated loadings times the returned bases give the original loadings back, with unit-length bases, orthogonal on request, and the same seed gives the same rotation. Hyperspherical angles of a vector give its direction back and unit vectors have length one in any dimension; entropy of loadings is zero for one-hot rows, largest for even rows, and ignores signs, order and row scale.",
  ["inputs"], "every loading matrix, rotation, angle vector and axis choice",
  "Tests use one or two random instances each.",
  [C+"procrustes.py", C+"hypersphere.py", C+"entropy.py", F+"rotation.py"], [("singular value decomposition", C+"procrustes.py"), ("basin hopping over angles", F+"rotation.py")], [], ["girth.common.procrustes_rotation", "girth.common.hyperspherical_*", "girth.common.entropy", "girth.factoranalysis.sparsify_loadings"])

p("M01", "Marginal item estimates sit at the maximum of the marginal likelihood",
  "For every marginal routine the reported item parameters, with the latent density and quadrature of the call, are a stationary best solution of what the routine maximises: changing the parameters of one item (within the routine's bounds, and keeping the observed shares for the routines that reproduce them) never makes the answers more likely; the routines which place difficulties by the observed shares reproduce these shares; on the exact population of known items nothing less likely than the truth comes out. Discriminations and the scale of the posterior-mean routines are the posterior means under the stated prior.",
  ["inputs", "configurations"], "every table, missing pattern, quadrature, latent density and marginal routine",
  "Tests compare with stored numbers or allow wide root-mean-square errors against the generating values.",
  [D+"rasch_mml.py", D+"twopl_mml.py", D+"threepl_mml.py", D+"twopl_mml_eap.py", Y+"grm_mml.py", Y+"pcm_mml.py", Y+"gum_mml.py", Y+"grm_mml_eap.py", M+"multidimensional_mml_methods.py"], [("item-wise maximisation over the quadrature", Y+"grm_mml.py"), ("sign of the positions", Y+"gum_mml.py")], [], ["all *_mml routines", "twopl_mml_eap", "grm_mml_eap"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(P))
