#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and from which
harness files exist (a property without a harness is listed as not applicable)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S = "include/albatross/src/"
def prop(i, title, statement, over, text, why, files, mech):
    P.append(dict(id=i, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=[S + f for f in files.split()], mechanism=[dict(name=n, where=S + w) for n, w in mech])))
NOTB = "The stock build does not compile the tests of this part at all; where tests exist they use a handful of hand-picked numbers."
prop("C01", "Gaussian process predictions are the exact Gaussian conditional",
 """Fitting a Gaussian process and predicting returns the mean, the marginal variances and the joint covariance of the Gaussian conditional distribution implied by the model's mean function, its covariance function and the variances of the training targets, whichever form of prediction is asked for and however it is asked.
 Covariance terms that apply to measurements only enter for the training data and for predictions with measurement noise, never for plain (latent) predictions; predicting at no features gives an empty prediction.
 The prior of a set of features is the Gaussian with the mean function and the covariance function evaluated at them.""",
 ["inputs"], "every kernel value, mean value, target value, target variance and noise (training covariance positive definite); up to 4 training and 3 test points",
 "Tests compare a few kernels on fixed toy data with the same linear algebra; they cannot show that no kernel, mean or noise value breaks the algebra.",
 "models/gp.hpp covariance_functions/representations.hpp core/fit_model.hpp core/prediction.hpp core/model.hpp", [("fit, predict, marginal and joint prediction", "models/gp.hpp"), ("prediction forms", "core/prediction.hpp")])
prop("C02", "Updating a fitted Gaussian process equals refitting with all data",
 """Updating a fitted model with further observations gives predictions (mean, marginal variance, joint covariance) at every feature that equal those of the model fitted once to the old and the new observations together, including target variances, measurement noise and a non-zero mean function.
 Updating repeatedly composes, and updating in one batch or in several, in any order, gives the same posterior.
 The fit that was updated is itself unchanged. (Noise is independent between measurements, that is, new observations are of features distinct from the old ones.)""",
 ["inputs", "histories"], "every kernel, mean, target and variance value and every split of the data into fit and update batches within the bounds",
 "The update test uses one fixed dataset without measurement noise; a missing noise term or a wrong block survives it.",
 "models/gp.hpp core/fit_model.hpp linalg/block_symmetric.hpp", [("update of a conditional fit", "models/gp.hpp"), ("block inverse solve", "linalg/block_symmetric.hpp")])
prop("C03", "Gaussian likelihoods agree with the multivariate normal density",
 """Every Gaussian log likelihood the library computes (scalar, diagonal, dense, via a factorisation, of a fitted process's training targets, or as a scoring metric) equals the exact log density of the stated Gaussian at the deviation, so the forms agree with each other wherever they overlap.
 The likelihood of a Gaussian process is that of the prior with its measurement noise and the variances of its targets, plus the log prior of its parameters where the metric says so.""",
 ["inputs"], "every deviation, covariance, target and target variance (positive definite), up to 3 dimensions",
 "Tests compare a few constants; sign, factor and noise terms that vanish on them go unnoticed.",
 "evaluation/likelihood.hpp models/gp.hpp evaluation/prediction_metrics.hpp evaluation/model_metrics.hpp evaluation/differential_entropy.hpp stats/gaussian.hpp", [("negative log likelihood", "evaluation/likelihood.hpp"), ("GP log likelihood", "models/gp.hpp")])
prop("C04", "Held-out predictions equal explicit refits without the held-out data",
 """For a Gaussian process the closed-form leave-one-out and leave-group-out predictions equal what fitting on the remaining data and predicting the held-out features with measurement noise (and the held-out targets' own variances) gives, in mean, marginal variance and joint covariance, for every grouping of the data.""",
 ["inputs", "configurations"], "every kernel, mean, target and variance value and every grouping of up to 4 observations",
 "Tests check a fixed dataset and two groupings to a loose tolerance.",
 "models/gp.hpp evaluation/cross_validation_utils.hpp evaluation/cross_validation.hpp linalg/block_utils.hpp eigen/serializable_ldlt.hpp", [("held out predictions", "evaluation/cross_validation_utils.hpp"), ("inverse block extraction", "eigen/serializable_ldlt.hpp")])
prop("C05", "Cross validation folds partition the data and predictions return in order",
 """For every grouping of a dataset the folds' test sets partition the data, each fold trains on exactly the complement of its test set, and every observation keeps its own feature, value and variance.
 Assembled cross-validated predictions place the prediction of each observation at that observation's original position, whichever form (mean, marginal, joint) is requested, and scores are computed fold by fold on matching predictions and truths.""",
 ["inputs", "configurations"], "every assignment of up to 5 observations to groups and every target value",
 "Tests use sorted contiguous groupings of toy data where wrong orders coincide with right ones.",
 "evaluation/folds.hpp evaluation/cross_validation.hpp evaluation/cross_validation_utils.hpp indexing/subset.hpp indexing/group_by.hpp", [("folds", "evaluation/folds.hpp"), ("reassembly", "evaluation/cross_validation_utils.hpp")])
prop("C06", "Grouping, filtering, subsetting and combining lose and invent nothing",
 """Grouping a container or dataset by any key function yields groups that partition it, each holding exactly the elements with its key in their original order; the group indexers, counts, keys, first and last group agree with that.
 Filtering keeps exactly what the predicate accepts, applying a function visits every element or group once in order, and combining groups or maps of parts returns exactly their concatenation.
 Unique values, subsets by index and set subset-and-restore operations follow their element-wise definitions.""",
 ["inputs", "configurations"], "every key assignment and predicate over up to 5 elements, every index list over up to 4",
 "Tests use a few literal containers.",
 "indexing/group_by.hpp indexing/filter.hpp indexing/apply.hpp indexing/subset.hpp indexing/unique.hpp indexing/block.hpp utils/map_utils.hpp", [("group_by", "indexing/group_by.hpp"), ("subset", "indexing/subset.hpp")])
prop("C07", "Covariance function composition follows the kernel algebra",
 """The value of a sum (product) of covariance functions is the sum (product) of the values of those of its terms that are defined for the features, regardless of nesting and of which side defines a term; zero for variants whose terms do not apply.
 Values are symmetric in their arguments, covariance matrices and diagonals are the element-wise values, measurement-only terms apply only when both sides are measurements, and covariance of linear combinations is the bilinear expansion.
 Scaling multiplies by the scaling of both features, and noise and mean functions compose the same way.""",
 ["inputs", "programs"], "every value of the component functions and parameters, over a set of compositions covering each combinator and feature wrapper",
 "Tests instantiate compositions with constant-valued kernels, so swaps and omissions coincide.",
 "covariance_functions/covariance_function.hpp covariance_functions/callers.hpp covariance_functions/measurement.hpp covariance_functions/noise.hpp covariance_functions/scaling_function.hpp covariance_functions/mean_function.hpp core/linear_combination.hpp", [("callers", "covariance_functions/callers.hpp"), ("sum and product", "covariance_functions/covariance_function.hpp")])
prop("C08", "Threaded evaluation equals serial evaluation for every schedule",
 """Every asynchronous helper and every operation that accepts a thread pool (map and apply over containers and groups, covariance matrices, block solves, cross validation) gives the same result, in the same order, as its serial form, for every order in which the pool runs the tasks, and with no pool or a pool of any size.
 Every element is processed exactly once, no two tasks access the same memory without order (unless both only read), and all tasks have finished when the call returns.""",
 ["schedules", "inputs"], "every order in which up to 4 tasks may run, every pair of conflicting memory accesses by unordered tasks, and every value they compute",
 "Tests see the schedules the machine happens to produce.",
 "utils/async_utils.hpp covariance_functions/callers.hpp indexing/apply.hpp linalg/block_diagonal.hpp", [("async_apply", "utils/async_utils.hpp"), ("covariance matrix blocks", "covariance_functions/callers.hpp")])
prop("C09", "Structured matrices and factorisation wrappers equal their dense meaning",
 """Products, solves, square-root solves, determinants, diagonals, inverse blocks and inverse diagonals computed through block-diagonal, block-symmetric, direct-inverse, explained-covariance and factorisation wrappers equal the same operation on the dense matrix they stand for, with every permutation the factorisation may choose.
 Slicing a block-diagonal matrix and assembling block matrices preserve the entries they name.""",
 ["inputs"], "every entry value of matrices up to 3x3 (positive definite where required), every block structure of them",
 "Tests use random well-conditioned matrices whose factorisations rarely pivot.",
 "linalg/block_diagonal.hpp linalg/block_symmetric.hpp linalg/block_utils.hpp linalg/qr_utils.hpp eigen/serializable_ldlt.hpp covariance_functions/representations.hpp utils/eigen_utils.hpp", [("block diagonal", "linalg/block_diagonal.hpp"), ("LDLT wrapper", "eigen/serializable_ldlt.hpp"), ("covariance representations", "covariance_functions/representations.hpp")])
prop("C10", "Sparse Gaussian process equals the PITC/FITC posterior it approximates",
 """The sparse Gaussian process's predictions (mean, marginal, joint) and likelihood equal those of the exact Gaussian process whose training covariance is the low-rank approximation through the inducing points plus the exact within-group residual covariance and noise.
 With inducing points at all training features it equals the exact Gaussian process.
 Updating it with new groups of data equals fitting to all of the data with the same inducing points, and re-basing it on other inducing points keeps the predictions those inducing points carry.""",
 ["inputs", "configurations"], "every target and variance value, every grouping, a family of kernels; up to 4 observations and 3 inducing points",
 "Tests check closeness on one sine dataset at tolerances that hide missing terms.",
 "models/sparse_gp.hpp linalg/qr_utils.hpp linalg/block_diagonal.hpp", [("sparse fit", "models/sparse_gp.hpp")])
prop("C11", "RANSAC only accepts consensus sets that satisfy its configuration",
 """Whatever candidates are drawn and whatever the inlier metric and consensus metric return, the inliers of a candidate are exactly the other groups whose metric does not exceed the threshold, the consensus of a successful result (its candidate and its inliers) numbers at least the configured minimum, and the best consensus found is the one with the lowest consensus metric.
 The candidates, inliers and outliers partition the groups, the reported return code matches what happened, and the iteration and failure limits are respected.
 Fitting a model through it uses exactly the best consensus, and outputs that differ are not equal.""",
 ["inputs", "schedules", "configurations"], "every value of the metrics and every draw of candidates for up to 4 groups and 3 iterations",
 "Tests use a dataset with one planted outlier and a fixed seed.",
 "models/ransac.hpp models/ransac_gp.hpp utils/random_utils.hpp", [("ransac loop", "models/ransac.hpp"), ("GP strategy", "models/ransac_gp.hpp")])
prop("C12", "Parameters survive every set, get, pack and unpack unchanged",
 """Setting a parameter by name, by store, or as a packed vector of tunable values and reading it back returns what was set, changes no other parameter, and setting an unknown name is refused.
 Packing takes exactly the parameters that are not fixed, in the order of their names, and unpacking writes them back to the same ones; fixed parameters never change; values and bounds stay paired.
 Composite models and covariance functions expose the union of their parts' parameters and forward each to the part that owns it, and values outside bounds are reported invalid and clamped to the bound only where promised.""",
 ["inputs", "configurations"], "every parameter value and every choice of fixed or free priors for up to 4 parameters",
 "Tests set a few literals.",
 "core/parameters.hpp core/parameter_handling_mixin.hpp core/parameter_macros.hpp core/priors.hpp covariance_functions/covariance_function.hpp", [("tunable parameters", "core/parameters.hpp"), ("set_param", "core/parameter_handling_mixin.hpp")])
prop("C13", "Tuners stay within bounds and never return worse than they evaluated",
 """The greedy tuner returns a parameter set whose objective value is the lowest of those it evaluated (never worse than the start), respecting the bounds of every parameter and its iteration limit, whatever the objective returns; only tunable parameters change.
 The finite-difference gradient is the difference quotient of the objective at points inside the bounds, also for parameters sitting at a bound (where it is zero if descent would leave the bounds), and serial or threaded evaluation gives the same.
 The objective a model tuner minimises is the aggregate over datasets of the metric at the parameters proposed.""",
 ["inputs", "schedules"], "every objective value returned at each evaluation and every start point and bound for up to 2 parameters and 3 iterations",
 "Tests run one convex objective.",
 "tune/greedy_tuner.hpp tune/finite_difference.hpp tune/tune.hpp tune/tuning_metrics.hpp", [("greedy tuner", "tune/greedy_tuner.hpp"), ("compute_gradient", "tune/finite_difference.hpp")])
prop("C14", "Priors return the log density of their distribution within its support",
 """Each parameter prior's log density equals that of the named distribution with its parameters for every value in the support and is minus infinity outside of it; uniform and log-scale priors are normalised over their bounds.
 Bounds, fixedness and name reported by a prior describe the same distribution, equality compares type and parameters, and the prior likelihood of a parameter set is the sum over its parameters.""",
 ["inputs"], "every value and every valid prior parameter",
 "Tests only check that the priors can be constructed, serialised and named.",
 "core/priors.hpp core/parameters.hpp", [("log densities", "core/priors.hpp")])
prop("C15", "Distributions add, scale, transform, subset and compare like random variables",
 """Adding, subtracting, scaling and matrix-transforming joint and marginal distributions gives the mean and covariance of the corresponding sum, difference, multiple or linear map of independent (respectively the given) Gaussian variables; conversions between joint and marginal keep mean and variances.
 Subsetting takes exactly the named entries, in the order named, of mean and covariance; setting a subset writes exactly those entries, leaving the others; equality holds exactly when all entries agree; concatenation is block diagonal.""",
 ["inputs", "configurations"], "every mean and covariance value, scalar and matrix, every index list up to 3 entries",
 "Tests use random draws of one shape.",
 "core/distribution.hpp core/transformed_distribution.hpp core/concatenate.hpp indexing/subset.hpp", [("operators", "core/distribution.hpp"), ("transform", "core/transformed_distribution.hpp")])
prop("C16", "Dataset operations keep each feature with its own target and variance",
 """Constructing, subsetting, grouping, concatenating, de-duplicating and aligning datasets never separate a feature from its target value and variance.
 De-duplication leaves each distinct feature once, with the target of its last occurrence; alignment leaves two datasets holding exactly their common features in the same order; concatenation lists the first dataset's entries and then the second's.
 Datasets of mismatching sizes are refused.""",
 ["inputs", "configurations"], "every target value and every pattern of repeated or shared features among up to 4 entries",
 "Tests use fixed small vectors.",
 "core/dataset.hpp core/concatenate.hpp indexing/subset.hpp", [("align_datasets, deduplicate", "core/dataset.hpp")])
prop("C17", "Radial covariance functions are valid kernels with their defining formula",
 """Each radial covariance function is symmetric, equals its variance at zero distance, never exceeds the variance in magnitude, does not increase with distance, and equals its defining formula of the distance, variance and length scale.
 Distances are non-negative, symmetric and zero between equal points (angular, Euclidean and radial), a zero or degenerate length scale gives the documented degenerate value without dividing by zero, and a length scale derived from an increase in standard deviation gives that increase (closed-form kernels), the shortest or longest scale when the increase is out of reach or absent. Grids representing a kernel span the features evenly and are fine enough for the length scale.""",
 ["inputs"], "every distance, variance and length scale (exponential and trigonometric functions uninterpreted up to their order and sign properties)",
 "Tests evaluate a handful of distances and check one positive definite matrix.",
 "covariance_functions/radial.hpp covariance_functions/distance_metrics.hpp", [("radial kernels", "covariance_functions/radial.hpp")])
prop("C18", "Constant, polynomial and mean function terms evaluate to their definition",
 """Constant and polynomial covariance terms equal the sum over orders of variance times the products of powers of the two arguments; linear mean functions equal offset plus slope times the argument.
 Sums and products of mean functions are the sum and product of those of their terms that apply, and removing and adding a mean function from a set of observations are inverse.""",
 ["inputs"], "every argument and parameter value, orders up to 3",
 "Tests evaluate a few points.",
 "covariance_functions/polynomials.hpp covariance_functions/mean_function.hpp covariance_functions/nugget.hpp covariance_functions/noise.hpp", [("polynomial", "covariance_functions/polynomials.hpp"), ("mean functions", "covariance_functions/mean_function.hpp")])
prop("C19", "Prediction metrics equal their definitions",
 """Root mean square error, standard deviation, chi-squared cumulative probability inputs, negative log likelihood, variogram, energy and continuous ranked probability scores and the Wasserstein distance equal their definitions for every prediction and truth, treating the truth's variance as the definition says.
 They are invariant under permuting predictions and truth together, non-negative where the definition is, and zero for a perfect deterministic prediction where the definition is.""",
 ["inputs"], "every prediction, covariance and truth value, up to 3 entries",
 "Tests check relative orders of scores on random draws.",
 "evaluation/prediction_metrics.hpp evaluation/model_metrics.hpp stats/gaussian.hpp stats/chi_squared.hpp", [("metrics", "evaluation/prediction_metrics.hpp")])
prop("C20", "Serialising and loading any object returns an equal object",
 """Saving a model, fit, parameter store, prior, dataset, distribution, matrix, factorisation, variant or RANSAC result and loading it back (binary or portable) yields an object equal to the original, whose predictions are identical, for every content including empty ones and every vector length.
 Loading malformed data is refused rather than giving a wrong object.""",
 ["inputs", "configurations"], "every stored value (bit patterns symbolic) and container shapes up to 3 entries",
 "Tests round-trip a few random objects through text archives.",
 "cereal/eigen.hpp cereal/parameters.hpp cereal/priors.hpp cereal/dataset.hpp cereal/distribution.hpp cereal/variant.hpp cereal/representations.hpp cereal/gp.hpp cereal/serializable_ldlt.hpp cereal/block_utils.hpp cereal/fit_model.hpp cereal/model.hpp cereal/ransac.hpp", [("save and load functions", "cereal/eigen.hpp")])
prop("C21", "Compression wrappers are transparent and never lose or corrupt data",
 """Compressing and decompressing any content through the optional-compression helpers returns the content unchanged, and content that was not compressed passes through unchanged.
 Corrupt or truncated compressed input is refused, never silently returned as if it were the content.""",
 ["inputs", "fault_sequences"], "every content up to a few bytes and every result the compression library may return",
 "Tests compress one buffer successfully.",
 "utils/compress.hpp", [("compress helpers", "utils/compress.hpp")])
prop("C22", "Minimum spanning trees span and have minimal weight",
 """For every connected weighted graph the returned minimum (maximum) spanning tree is a subset of the graph's edges, connects every vertex, has no cycle, and its total weight is the least (greatest) among all spanning trees, for any weights including ties and negative ones, and any edge order.
 The forest of a disconnected graph spans each of its components with the least (greatest) total weight; loops and repeated edges never appear as cycles.""",
 ["inputs", "configurations"], "every edge weight, for every graph of 3 edges on 3 vertices and shapes of up to 5 edges on 4 vertices",
 "Tests use a few literal graphs.",
 "graph/minimum_spanning_tree.hpp", [("spanning tree", "graph/minimum_spanning_tree.hpp")])
prop("C23", "Chebyshev polynomials are the polynomials they name",
 """Evaluating Chebyshev polynomials of the first and second kind returns, at every location and for every degree, the value of the explicit polynomial; the basis matrices hold one column per degree with the same values; the identities between the two kinds hold, values of the first kind stay within [-1, 1], and a negative degree is refused.""",
 ["inputs"], "every location for degrees up to 9",
 "Tests sample a few degrees and points with tolerances.",
 "polynomial/chebyshev.hpp", [("Chebyshev evaluation", "polynomial/chebyshev.hpp")])
prop("C24", "Variants and numeric casts preserve the held value",
 """Converting containers to and from variants keeps each value and its alternative in order, extracting an alternative (from a vector or a dataset) returns exactly the elements holding it with their own targets, and setting one variant from another keeps the value and alternative without conversions. Numeric casts between sizes, indices and doubles keep the number or refuse it.""",
 ["inputs"], "every value of every alternative in containers up to 4 elements",
 "Tests sample a couple of variants.",
 "utils/variant_utils.hpp", [("variant helpers", "utils/variant_utils.hpp"), ("numeric casts", "details/typecast.hpp")])
prop("C25", "Random draws and samplers follow their definition for every generator output",
 """Sampling without replacement returns distinct elements of the population of the requested number for every generator output; a multivariate normal draw is the mean plus a square root of the covariance times standard normal draws, whose outer product is the covariance.
 The ensemble sampler proposes along the line through two walkers, keeps the log probability of each walker equal to that of its position, accepts exactly when the stated probability ratio exceeds the draw, and never moves to a position of zero probability.""",
 ["inputs", "histories"], "every generator output and every log probability for up to 3 walkers and dimensions",
 "Tests check sample statistics loosely under one seed.",
 "utils/random_utils.hpp samplers/ensemble.hpp samplers/initialization.hpp samplers/state.hpp", [("random utilities", "utils/random_utils.hpp"), ("ensemble sampler", "samplers/ensemble.hpp")])
prop("C26", "Statistical distribution functions follow their definition",
 """The incomplete gamma function and the chi-squared cumulative distribution function return probabilities, take their limits at both ends of the support (zero up to zero, one at infinity or for no degrees of freedom), refuse arguments off the domain with NaN, and agree with the closed form where there is one on both sides of the switch between continued fraction and quadrature.
 The 50-point Gauss-Legendre rule integrates every polynomial up to degree 99 exactly over every interval; the Gaussian density and log density are the definition; the uniform Kolmogorov-Smirnov statistic is the largest distance between the samples' distribution and the uniform one for every set of samples in any order.""",
 ["inputs"], "every sample, deviation, variance, coefficient and argument within stated ranges; the series themselves at fixed arguments",
 "Tests compare a few quantiles with tabulated values.",
 "stats/chi_squared.hpp stats/incomplete_gamma.hpp stats/gauss_legendre.hpp stats/gaussian.hpp stats/ks_test.hpp", [("incomplete gamma", "stats/incomplete_gamma.hpp")])
prop("C27", "Least squares, conditional Gaussian and null models give their closed form",
 """A least squares fit returns the coefficients minimising the (variance-weighted where given) squared residual, and linear regression predicts offset plus slope; the conditional Gaussian helper returns the exact conditional of a joint Gaussian for any prior and truth; the null model predicts its stated mean and variance at every feature.
 A fit reconstructed from a prediction at inducing features gives back that prediction there and the same predictions elsewhere.""",
 ["inputs"], "every target, variance and prior covariance value up to 3 entries",
 "Tests fit one line or one toy dataset.",
 "models/least_squares.hpp models/conditional_gaussian.hpp models/null_model.hpp models/gp.hpp", [("least squares", "models/least_squares.hpp"), ("conditional gaussian", "models/conditional_gaussian.hpp")])
prop("C28", "Map, vector and numeric utilities follow their set and sequence definitions",
 """Map unions, intersections and differences, key and value listings, look-ups with defaults and joins return exactly the elements their set definition names, each key with its own value and with the stated precedence.
 Vector helpers (evenly spaced ranges, concatenation, all/any, containment, block stacking) return exactly their element-wise definition for every input, including empty ones; the truncated solve of a positive semi-definite matrix leaves a residual only outside the kept eigenvectors' range and no part of the solution there. Duplicate keys of a strict join, unsorted key lists and blocks of different width are refused.""",
 ["inputs", "configurations"], "every key pattern and value for up to 4 elements",
 "Tests use literal maps and vectors.",
 "utils/map_utils.hpp utils/vector_utils.hpp utils/eigen_utils.hpp core/keys.hpp core/concatenate.hpp", [("map utilities", "utils/map_utils.hpp"), ("vector utilities", "utils/vector_utils.hpp")])
prop("C29", "CSV output lists every row and column with its own value",
 """Writing a dataset (with or without predictions, or several datasets) to CSV produces one header listing every column any row has, once each, and one line per entry in the order of the entries with the cells in the order of the header: each cell holds that entry's own feature, target, variance, prediction or metadata value and stays blank where the entry lacks the column, on any output stream, seekable or not.
 Feature maps built for output keep nested names distinct; matrices are written row by row; printing a distribution writes its entries to the given stream only.""",
 ["inputs"], "every value, column pattern and number of rows up to 3",
 "Tests compare one literal string.",
 "utils/csv_utils.hpp core/distribution.hpp", [("csv writer", "utils/csv_utils.hpp")])
prop("C30", "Sampler states are recorded in full and read back as they were",
 """The CSV writing callback writes one header (iteration, log probability, ensemble index, then every parameter of the model by name) and one line for every walker of every iteration it is given, with the walker's own index, log probability and parameter values in the columns of their names; fixed parameters keep their value.
 Reading such a file back gives the walkers of the last iteration only, in order, each parameter taken from the column of its name wherever that column stands, as a map by name or, given a parameter store, as the values of its tunable parameters in their order, put within their bounds; cells which are no numbers become NaN and files whose header or number of cells is wrong are refused.
 What a sampler reports to its callback is what it returns, and the maximum likelihood callback holds the largest log probability seen so far with the parameters of the walker that first reached it, reporting once per improvement.""",
 ["inputs", "histories"], "every parameter value and log probability (finite or minus infinity), every column order, up to 3 walkers, parameters and iterations",
 "The sampler tests only check that a file is produced for one model and that sampling moves; whether each number lands in its own column and comes back is not tested, nor compiled in the stock build.",
 "samplers/callbacks.hpp samplers/initialization.hpp samplers/ensemble.hpp utils/csv_utils.hpp core/parameters.hpp", [("csv callback", "samplers/callbacks.hpp"), ("reading states back", "samplers/initialization.hpp")])
prop("C31", "Call traces and printed reports state the values they name",
 """The call trace of a covariance function lists, in order and offset by its level, each function of the composition with its name, the operator of its parent and its own value at the features, or UNDEFINED where it is not defined for them; printing the trace shows those lines in aligned columns.
 Printed parameters, priors and parameter details name each parameter once with its own value, validity, prior and bounds; the text of a model, covariance or mean function adds the names of its parts. Printed datasets and RANSAC outputs list every entry, candidate, inlier and outlier with its own numbers and the return code.
 Tuner reports list every evaluation with the value tried and the objective there, mark exactly the improvements, end with the best value and parameters that are returned, and do not influence the result. The printed eigen directions are the requested number of eigen pairs of the matrix from the large or the small end, each with exactly the coefficients above the threshold, largest first, beside their own feature.""",
 ["inputs", "programs"], "every value printed and every threshold; sums and products of up to four covariance functions; up to 3 parameters, groups or entries; matrices of order up to 8",
 "Tests print to the console and check nothing, or only that it does not throw.",
 "covariance_functions/call_trace.hpp core/parameters.hpp core/dataset.hpp models/ransac.hpp models/gp.hpp linalg/print_eigen_directions.hpp tune/greedy_tuner.hpp tune/tune.hpp", [("call trace", "covariance_functions/call_trace.hpp"), ("eigen directions", "linalg/print_eigen_directions.hpp"), ("parameter text", "core/parameters.hpp")])

prop("C32", "Two objects are equal exactly when all their parts are",
 """Comparing distributions, datasets, parameters, models, fits, fitted models, factorisations, RANSAC outputs, linear combinations, edges or groups says equal exactly when every part which makes up the object is equal: mean and covariance; features, targets and metadata; value and prior; parameters, name and insights; features, covariance and information (and, for sparse fits, the triangular factor, permutation and rank); return code, best and every iteration.
 Comparison is symmetric, an object equals itself and its copies, unequal is the opposite of equal, and objects of different sizes, or an empty and a filled one, compare as different instead of aborting. Distributions which are nearly equal have the same size and close means and covariances.""",
 ["inputs"], "every value of the part which may differ, objects of 0 to 3 entries, every choice of the part which differs",
 "Tests use == to compare an object with the one it was copied or loaded from; a comparison which always said yes would pass them all.",
 "core/distribution.hpp core/dataset.hpp core/parameters.hpp core/model.hpp core/fit_model.hpp models/gp.hpp models/sparse_gp.hpp models/ransac.hpp models/least_squares.hpp models/null_model.hpp eigen/serializable_ldlt.hpp covariance_functions/representations.hpp linalg/block_symmetric.hpp", [("equality of models", "core/model.hpp"), ("equality of fits", "models/gp.hpp"), ("equality of distributions", "core/distribution.hpp"), ("equality of factorisations", "eigen/serializable_ldlt.hpp")])

NA = {}
exec(open(os.path.join(V, "tools", "na.py")).read()) if os.path.exists(os.path.join(V, "tools", "na.py")) else None
json.dumps(P)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    if glob.glob(os.path.join(V, "harness", p["id"] + "*.cpp")) and p["id"] not in NA:
        checks.append(dict(property=p["id"], quick_cmd="python3 run_check.py %s --tier quick" % p["id"], thorough_cmd="python3 run_check.py %s --tier thorough" % p["id"],
          technique="symbolic execution of the compiled LLVM IR with SMT (z3) verdicts, counterexamples replayed natively", level="other",
          level_note="Within the bounds given in the evidence, the solver shows each assertion for all values on every path, over exact real arithmetic (rounding is outside unless the harness says IEEE). Trusts clang's front end, the instrumenter and runtime in engine/, and z3; inconclusive queries are counted in the evidence and are not claimed."))
    else: na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
m = dict(version=1, setup_cmd="python3 run_check.py --setup", checks=checks, not_applicable=na, notes="See DESIGN.md. Known findings: known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
