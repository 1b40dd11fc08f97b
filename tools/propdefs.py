NOT_APPLICABLE = []
RM = "runtime monitoring: "
NOTE = " Assurance is limited to the seeded workloads actually run; the oracle code (numpy/scipy) and, where stated in the evidence, other properties are trusted."
PU = "preprocessing/_preproc_utilities.py"

prop("C01", "Location and scale estimates equal their definitions",
     "For every numeric matrix, each location and scale estimate used for centring and scaling (mean and standard deviation, optionally trimmed; median and MAD with any "
     "consistency factor; spatial median; k-step least trimmed squares location; tau scale of a single column) equals its published definition column by column, leaving out missing "
     "cells for mean, standard deviation, median and MAD. The estimates do not depend on the order of rows or columns, and mean, standard deviation, median and MAD are equivariant under "
     "rescaling and shifting of each column. Fewer than half of the cases cannot carry the median, MAD or the robust multivariate locations arbitrarily far away.",
     [I, CF], "every n x p matrix (ties, constant columns, missing cells, gross outliers, any units), every trimming fraction in [0,0.5)",
     "The test suite only fixes three regression outputs that pass through median and MAD on one data set; trimmed, tau, spatial-median and missing-data paths are not executed.",
     [PU, "preprocessing/robcent.py"], [("estimators", PU), ("scaler that selects them", "preprocessing/robcent.py")],
     ["fitted location and scale of the scaler", "return values of the estimator functions"],
     "Differential oracle: independent definitions written from the literature, plus metamorphic equivariance and breakdown monitors." + NOTE,
     RM + "differential oracle and metamorphic monitors on estimator outputs")

prop("C02", "Scaling uses the fitted location and scale, and can be undone",
     "A fitted scaler maps any data, including single new cases, to (data - fitted location) / fitted scale, with a zero scale treated as one and 'None' meaning no change, and fitting and transforming in one call, "
     "predicting and the one-pass function give the same numbers. Transforming back restores the original values for training and new data, whatever is predicted in between. A refit forgets earlier data, transforming never changes the fitted values, "
     "invalid trimming and use before fitting are rejected.",
     [I, CF, H], "every training matrix, every new matrix, every centre/scale pair given by name or as a function, every order of fit and transform calls",
     "No existing test calls transform on new data, inverse_transform or a refit of the scaler.",
     ["preprocessing/robcent.py", PU], [("scaler", "preprocessing/robcent.py"), ("cell-wise standardisation and zero-scale rule", PU)],
     ["transformed matrices, fitted location and scale before and after each call"],
     "Recomputation of every cell from the reported location and scale." + NOTE, RM + "cell-by-cell recomputation oracle over call histories")

prop("C03", "Generalised spatial sign pre-processing shrinks each case radially",
     "The generalised spatial sign transform returns each case minus the chosen centre multiplied by a non-negative factor that depends only on the case's distance to the centre and on the documented radial function "
     "(spatial sign, ball, shell, quadratic, winsor, linearly redescending, or a user supplied function) with its data-driven cut-offs. A case that lies at the centre stays there, the estimator and the one-pass function agree, and the "
     "generalised spatial sign covariance is the symmetric positive semidefinite average of the outer products of the transformed cases. The transform is equivariant under rotations and rescaling of centred data and under reordering of cases.",
     [I, CF], "every data matrix with more cases than variables, every centre, every radial function",
     "No existing test runs any of this code.",
     ["preprocessing/gsspp.py", "preprocessing/_gsspp_utils.py"], [("pre-processor", "preprocessing/gsspp.py"), ("radial functions", "preprocessing/_gsspp_utils.py")],
     ["transformed training data and covariance matrix"],
     "Differential oracle with independently written radial functions and cut-offs." + NOTE, RM + "differential oracle on transformed cases and equivariance monitors")

prop("C04", "Wrapping keeps the centre, bounds the tails and is applied cell by cell",
     "The wrapping transformation standardises each cell with the fitted column median and MAD, leaves cells within 1.5 scales of the centre unchanged, moves cells beyond 4 scales to the centre and smoothly bounds the ones in between by the published "
     "odd, continuous wrapping function, then returns them in original units. New data, single new cases and constant columns are handled with the fitted values, so that each output cell depends only on its own input cell and its column's fitted values.",
     [I, H], "every training and new matrix, including constant columns, gross cell-wise outliers, integers and single rows",
     "No existing test runs the wrapping code.",
     ["preprocessing/robcent.py", PU], [("wrapping function", PU), ("wrapper", "preprocessing/robcent.py")],
     ["fitted centre and scale, wrapped matrices"], "Closed-form oracle per cell." + NOTE, RM + "closed-form cell oracle")

prop("C05", "Moments and co-moments equal their textbook definitions",
     "Every product-moment statistic (moment of order 2 to 4, variance, standard deviation, skewness, kurtosis, covariance, co-moment, co-skewness, co-kurtosis, third-order co-moment, correlation, continuum association), with optional trimming, "
     "bias correction or median centring, equals its documented formula for every sample. Variance, covariance, correlation and skewness obey their symmetry, shift and scale laws, and the correlation lies in [-1,1]. A co-moment without a second vector of the "
     "same length is rejected.",
     [I, CF], "every pair of vectors, every mode, order, option, trimming fraction, bias correction and centre",
     "Existing tests check a handful of stored numbers on one data set; trimming, bias correction and most options are not exercised.",
     ["dicomo/dicomo.py", "dicomo/_dicomo_utils.py"], [("statistic dispatch", "dicomo/dicomo.py"), ("trimmed moments", "dicomo/_dicomo_utils.py")],
     ["returned statistic and stored statistic"], "Definitions recomputed independently; bias-corrected skewness and kurtosis also against scipy." + NOTE,
     RM + "differential oracle and metamorphic monitors on returned statistics")

prop("C06", "Energy statistics equal their definitions",
     "Distance variance, covariance, correlation, standard deviation and continuum, the martingale difference divergence, correlation and divergence matrix, and higher-order distance co-moments equal their definitions computed pair by pair, biased or unbiased, "
     "trimmed or median centred. The fast and the plain algorithm agree for every sample. Distance covariance is non-negative, symmetric in its arguments, invariant under rotation and translation, scales linearly, and distance correlation "
     "is at most one and equals one for linear relations.",
     [I, CF], "every pair of samples with one or several columns, every mode, bias correction, trimming, algorithm and metric",
     "Existing tests compare a few numbers on one data set with one algorithm.",
     ["dicomo/dicomo.py", "dicomo/_dicomo_utils.py"], [("distance statistics", "dicomo/_dicomo_utils.py"), ("dispatch and options", "dicomo/dicomo.py")],
     ["returned statistic"], "Pair-by-pair recomputation; two implementations in the package compared with each other." + NOTE,
     RM + "differential oracle and metamorphic monitors on returned statistics")

prop("C07", "Moment objects keep no history; the co-moment index is a weighted sum",
     "The value a moment object returns depends only on its current settings and the data and options of that call, never on earlier, possibly failing, calls; it is also the value stored, and neither the settings nor the data are changed. The co-moment analysis "
     "index equals the weighted sum of the co-moments up to its maximal degree, evaluated one by one with the given options, scaling and underlying statistic, and changed settings take effect at the next call.",
     [H, I, CF], "every sequence of evaluations on a shared object with any interleaving of settings, data, options and failing calls",
     "Tests evaluate each object once; sequences on a shared object, which is how projection pursuit uses them, are never compared with fresh objects.",
     ["dicomo/dicomo.py", "ppdire/capi.py"], [("statistic object", "dicomo/dicomo.py"), ("co-moment index", "ppdire/capi.py")],
     ["returned value, stored value, parameters and inputs after each call of a recorded history"], "Each step of a history is replayed on a fresh object." + NOTE,
     RM + "history monitor against fresh-object replay")

prop("C08", "Sparse PLS results satisfy the sparse NIPALS equations",
     "For every data set, sparsity, number of components, centring and scaling, the fitted sparse partial least squares model (weights, loadings, scores, inner coefficients, coefficients, intercept, fitted values, residuals, explained variance, selected variables) equals the "
     "sparse NIPALS solution: soft-thresholded normalised covariance weights, deflation by scores, and coefficients mapped back to original units. Eliminated variables have exactly zero coefficients, without sparsity the scores are orthogonal and span the Krylov space and a full-rank "
     "model equals least squares, and missing cells are left out of every sum. Predictions are linear in the reported coefficients and intercept, and scores of new data in the reported rotation.",
     [I, CF], "every tall or wide data set, with missing cells, ties or bad scaling; every sparsity in [0,1), number of components, centre, scale and column-name option",
     "Existing tests compare one stored coefficient vector of one data set.",
     ["sprm/snipls.py", "sprm/_m_support_functions.py"], [("sparse NIPALS", "sprm/snipls.py")],
     ["all public fitted results, predictions and transformed data"], "Independent reference implementation plus defining equations." + NOTE,
     RM + "differential oracle against an independent sparse NIPALS, normal-equation monitors")

prop("C09", "Sparse partial robust M regression is its reweighted fixed point",
     "For every data set and option (weight function, cut-offs, starting mode, centre, scale, sparsity, components, tolerance, iteration limit) the fitted robust model equals iteratively reweighted sparse PLS with case weights that are the product of a score-space and a residual weight, all in [0,1]. "
     "Reported coefficients (scaled and original), intercepts, fitted values, residuals, scores, loadings, rotation, explained variances, case weights, selected and kept variables, predictions and validation score follow from that solution in the documented units. A case of weight zero has no influence on the "
     "converged solution.",
     [I, CF], "every data set with or without vertical and leverage outliers, constant columns and ties; every option",
     "Existing tests compare stored coefficients of one data set for two settings.",
     ["sprm/sprm.py", "sprm/snipls.py", "sprm/_m_support_functions.py"], [("iteration", "sprm/sprm.py"), ("weights", "sprm/_m_support_functions.py"), ("inner model", "sprm/snipls.py")],
     ["all public fitted results, predictions, transformed data, weights of new cases"],
     "Independent implementation of the iteration; numerically chaotic or undecidable (rounding at a threshold) runs are skipped and counted." + NOTE,
     RM + "differential oracle against an independent reweighting iteration")

prop("C10", "Robust M regression is its reweighted least squares fixed point",
     "For every full-rank data set and option the robust M regression equals iteratively reweighted least squares on data centred and scaled as asked, with case weights in [0,1] that are the product of a leverage weight and a residual weight. Coefficients in scaled and original units, both intercepts, fitted values, "
     "residuals, weights and predictions follow from that solution, do not depend on the order of the cases, and change sign or units with the data; an exact linear relation is reproduced.",
     [I, CF], "every tall data set with or without vertical and leverage outliers, ties or bad scaling; every weight function, cut-off, centre, scale, tolerance and iteration limit",
     "Existing tests compare one stored coefficient vector.",
     ["sprm/rm.py", "sprm/_m_support_functions.py"], [("iteration", "sprm/rm.py"), ("weights", "sprm/_m_support_functions.py")],
     ["all public fitted results and predictions"], "Independent iteratively reweighted least squares; undecidable runs skipped and counted." + NOTE,
     RM + "differential oracle against an independent reweighting iteration, metamorphic monitors")

prop("C11", "Case weights and the robust loss follow the published weight functions",
     "The Huber, Hampel and Fair weights equal their closed forms at every non-negative distance including exactly at the cut-offs, lie in [0,1], decrease with distance, are continuous where the published function is and are applied element by element without changing their input. "
     "The robust cross-validation loss equals the chosen metric of the response and prediction weighted by the weights of the absolute residuals, for array and data-frame input, and the score table of a grid search built on it is reproduced by refitting.",
     [I, CF], "every distance vector, every ordered set of cut-offs, every response/prediction pair, metric and weight function",
     "Tests never evaluate the weight functions or the loss directly.",
     ["sprm/_m_support_functions.py", "cross_validation/_cv_support_functions.py"], [("weight functions", "sprm/_m_support_functions.py"), ("loss", "cross_validation/_cv_support_functions.py")],
     ["returned weights and losses, grid search tables"], "Closed forms, with distances placed at and within one rounding unit of every cut-off." + NOTE,
     RM + "closed-form oracle with boundary workloads")

prop("C12", "Gross outliers cannot carry robust estimates away",
     "Replacing up to 30% of the cases by arbitrarily gross outliers moves the median, spatial median, k-step location, MAD, wrapped data and generalised spatial sign covariance by no more than a fixed multiple of the clean spread. "
     "Up to 15% vertical outliers (or, with Hampel weights, bad leverage points) move the coefficients and predictions of the robust regressions by no more than a fixed multiple of the clean noise, those cases get small weights while clean cases keep theirs, and vertical outliers with zero weight have no influence at all.",
     [I, "fault_sequences"], "every clean sample, every subset of contaminated cases, outlier shape, direction and magnitude within the stated bounds",
     "Tests contain no contaminated data.",
     ["sprm/sprm.py", "sprm/rm.py", PU, "preprocessing/gsspp.py"], [("robust starting values and weights", "sprm/sprm.py"), ("robust estimators", PU)],
     ["estimates on contaminated versus clean part"], "Fault injection (planted outliers) with calibrated bounds." + NOTE, RM + "fault injection (outliers) with resistance bounds")

prop("C14", "Projection pursuit results all follow from the directions found",
     "For every projection index, optimiser, centring, scaling, whitening, trimming and regression option, the directions have unit length (in the space where they are sought) and the scores, loadings, rotation, explained variance, objective and criterion values, scaled and original coefficients, intercept, fitted values, residuals, predictions and "
     "transformed data are those that successive deflation along these directions defines, in the documented units. The scores are orthogonal, the reported location and scale are those of the data, and a user supplied index only ever sees projections of the pre-processed data together with the pre-processed response.",
     [I, CF], "every one- or two-block data set, every index (arithmetic, distance, co-moment, user supplied), number of components, SLSQP or grid optimiser, pre-processing and regression option",
     "Existing tests compare stored numbers for two settings on one data set.",
     ["ppdire/ppdire.py", "ppdire/_ppdire_utils.py"], [("deflation and regression", "ppdire/ppdire.py"), ("grid search", "ppdire/_ppdire_utils.py")],
     ["all public fitted results, predictions, and the trace of index evaluations"], "Everything recomputed from the reported directions; a recording index logs every evaluation." + NOTE,
     RM + "recomputation oracle plus trace monitor on index evaluations")

prop("C16", "Inverse-regression and moment bases are their kernel's leading eigenspace",
     "For SIR, SAVE, DR, PHD and IHT the reported basis spans the leading eigenspace of the published kernel matrix of that method (slices of equal counts or one per class), in the coordinates that centring, scaling or whitening define, normalised so that scaled scores have unit covariance. "
     "Scores, projection matrix, location, scale, regression on the scores (unless switched off) and predictions follow from that basis. The subspace does not depend on the order of cases, follows affine changes of scaled data, and is unchanged by increasing transforms of the response (sliced methods) or by its shift and scale (PHD, IHT).",
     [I, CF], "every tall full-rank data set, continuous, tied or class response, dimension up to the rank the method can determine, number of slices, centre, scaling, whitening and trimming",
     "Existing tests compare one stored basis per method on one data set with default options.",
     ["sudire/sudire.py", "sudire/_sudire_utils.py"], [("kernel matrices", "sudire/_sudire_utils.py"), ("estimator", "sudire/sudire.py")],
     ["basis, scores, projection matrix, regression, predictions"], "Independent eigen-solution; bases compared where the eigenvalue gap determines them." + NOTE,
     RM + "differential oracle (independent eigen-solution) and metamorphic monitors")

prop("C18", "New cases are treated one by one, consistently with the fit",
     "Every fitted predictor or transformer treats each new case on its own: its prediction, scores or scaled values do not depend on which other cases share the batch, on their order or number, on repetition or on the container. Applied to the training data it reproduces the stored fitted values, "
     "residuals and scores, and its coefficient of determination (weighted validation score included) is the textbook one. Predictions and scores are affine in the case.",
     [I, CF, H], "every fitted model, every batch of new cases including single cases, far outliers and repetitions",
     "Tests predict only the training data, in one batch.",
     ["sprm/sprm.py", "sprm/snipls.py", "sprm/rm.py", "ppdire/ppdire.py", "sudire/sudire.py", "preprocessing/robcent.py"],
     [("predict and transform of the robust regressions", "sprm/sprm.py"), ("predict and transform", "ppdire/ppdire.py"), ("predict and transform", "sudire/sudire.py"), ("transform", "preprocessing/robcent.py")],
     ["predictions, scores and scaled values of differently composed batches"], "Metamorphic comparison of batches with each other and with the stored fit." + NOTE,
     RM + "metamorphic monitor over batch compositions")

prop("C19", "Results depend on the numbers, not on their container",
     "The same numbers give the same results in every supported container: C- or Fortran-ordered, strided, reversed, read-only or integer arrays, data frames with any index and column labels or mixed numeric types, responses as vector, column, series or one-column frame with another index than the predictors. "
     "This holds for fits, predictions and transforms of every estimator and for the helper functions. Column names only label the selected variables.",
     [I, CF], "every estimator and setting, every pair of containers for predictors and response",
     "Each test uses one fixed container.",
     ["sprm/sprm.py", "sprm/snipls.py", "sprm/rm.py", "ppdire/ppdire.py", "sudire/sudire.py", "preprocessing/robcent.py", "preprocessing/gsspp.py", "dicomo/dicomo.py", "preprocessing/_preproc_utilities.py"],
     [("input conversion", "sprm/sprm.py"), ("input conversion", "ppdire/ppdire.py"), ("input conversion", "sudire/sudire.py"), ("input conversion", "dicomo/dicomo.py")],
     ["all public fitted results and outputs per container"], "Differential comparison of containers; runs that are sensitive to last-digit perturbations are skipped and counted." + NOTE,
     RM + "differential monitor across containers")

prop("C20", "The caller's data and option objects are never modified",
     "No fit, prediction, transform, scoring or helper call changes the arrays, data frames, series, option dictionaries or lists that the caller handed over, also when copying is switched off or the call fails, and read-only input is accepted. With the default copying, overwriting the training data after the fit does not change the fitted model or its "
     "predictions, and returned arrays do not share memory with the new data passed in.",
     [I, CF, H], "every estimator, helper function, setting and container",
     "Tests never look at their inputs again.",
     ["sprm/sprm.py", "sprm/snipls.py", "sprm/rm.py", "ppdire/ppdire.py", "sudire/sudire.py", "sudire/_sudire_utils.py", "preprocessing/_preproc_utilities.py", "preprocessing/robcent.py", "preprocessing/gsspp.py", "ipopt_temp/ipopt_wrapper.py"],
     [("copies of the input", "sprm/sprm.py"), ("copies of the input", "ppdire/ppdire.py"), ("option handling", "ipopt_temp/ipopt_wrapper.py")],
     ["content hashes of all caller-owned objects before and after each call, memory sharing"], "Content hashing around every call." + NOTE,
     RM + "write detection: content hashes and write-protected memory around calls")

prop("C21", "Estimators are functions of their settings and data",
     "A fit depends only on the current settings and the data of that call: after any history of fits on other data, failing fits, predictions, parameter changes, pickling, copying, cloning, or fits of other objects (also in parallel threads), results equal bit for bit those of a fresh object and nothing an earlier fit reported is left behind. Fitting never changes the settings, consumes or "
     "depends on the global random state, or shares state with another object. Predicting, transforming and scoring change nothing, and pickled or copied models give the same answers.",
     [H, SCH, CF], "every sequence of operations on every estimator, every interleaving of concurrent fits of distinct objects",
     "Tests fit each object once, in one thread.",
     ["sprm/sprm.py", "sprm/snipls.py", "sprm/rm.py", "ppdire/ppdire.py", "ppdire/capi.py", "sudire/sudire.py", "dicomo/dicomo.py", "preprocessing/robcent.py", "preprocessing/gsspp.py"],
     [("fit", "sprm/sprm.py"), ("fit", "ppdire/ppdire.py"), ("fit", "sudire/sudire.py"), ("fit", "dicomo/dicomo.py")],
     ["fitted results after recorded histories, parameters, random state, thread runs"], "Replay on fresh objects, bit for bit." + NOTE,
     RM + "history and concurrency monitor against fresh-object replay")

prop("C22", "Invalid input is refused, valid input at the edge accepted",
     "Settings outside their documented range (unordered or out-of-range cut-offs, sparsity, numbers of components, trimming, unknown modes, methods, weight functions, centres, scales, maximal degree, flags), disagreeing numbers of cases, a missing or empty second block, new data with another number of columns, use before fitting, "
     "unknown parameters, wrong model classes for plots and unsupported solver arguments all raise an exception instead of returning numbers. The nearest valid value is accepted, and the checks also apply to settings changed after construction.",
     [I, CF], "every estimator, every documented precondition",
     "Tests contain only valid calls.",
     ["sprm/sprm.py", "sprm/snipls.py", "sprm/rm.py", "ppdire/ppdire.py", "ppdire/capi.py", "sudire/sudire.py", "dicomo/dicomo.py", "preprocessing/robcent.py", "ipopt_temp/ipopt_wrapper.py", "plot/sprm_plot.py"],
     [("argument checks", "sprm/sprm.py"), ("argument checks", "ppdire/ppdire.py"), ("argument checks", "sudire/sudire.py"), ("argument checks", "dicomo/dicomo.py")],
     ["whether a call with one injected fault raises"], "Fault injection at the interface, with valid neighbours as controls." + NOTE,
     RM + "fault injection at the interface with accept/refuse oracle")

prop("C13", "Results follow a change of units, origin or order of the data",
     "Reordering cases or columns, shifting or reflecting columns, changing the units of columns (columnwise centres and scales) or of all data, and shifting, rescaling or reflecting the response leave the predictions of the regression and dimension reduction estimators unchanged once the change is undone. "
     "Fitted values, residuals, coefficients, intercept, case weights and scores change accordingly. Reflection of the response for the sparse robust regression, tau scales and optimiser-dependent starting points of projection pursuit are not claimed.",
     [I, CF], "every data set, every estimator and setting, every affine change or permutation of the stated kinds",
     "Tests use one data set in one order and one set of units.",
     ["sprm/sprm.py", "sprm/snipls.py", "sprm/rm.py", "ppdire/ppdire.py", "sudire/sudire.py", "sudire/_sudire_utils.py", PU],
     [("back-transformation to original units", "sprm/sprm.py"), ("back-transformation to original units", "ppdire/ppdire.py"), ("standardisation and back-transformation", "sudire/sudire.py")],
     ["predictions, fitted values, residuals, coefficients, weights and scores of the original and the changed data"],
     "Metamorphic comparison of two fits; runs that are sensitive to last-digit perturbations are skipped and counted." + NOTE, RM + "metamorphic monitor over changes of units and order")

prop("C15", "Projection pursuit directions are optimal for the chosen index",
     "Each successive direction attains, up to the optimiser's tolerance, the known optimum on the deflated data: covariance and correlation (SLSQP and IPOPT), variance and squared covariance (grid), the best angle on the grid for two columns for every unsigned or squared index, and a local optimum for the other indices on most data sets. "
     "Hence covariance reproduces partial least squares, correlation ordinary least squares and variance principal components, the first directions do not depend on how many are asked for, and the optimisers agree. Additional equality and inequality constraints are respected and the constrained optimum is found.",
     [I, CF], "every one- or two-block data set, index, optimiser and constraint of the stated kinds, scaled, unscaled or whitened",
     "Tests compare stored results of two settings; no test knows the optimum.",
     ["ppdire/ppdire.py", "ppdire/_ppdire_utils.py", "ppdire/capi.py", "ipopt_temp/ipopt_wrapper.py"], [("search for a direction and deflation", "ppdire/ppdire.py"), ("grid search and objective", "ppdire/_ppdire_utils.py"), ("solver interface", "ipopt_temp/ipopt_wrapper.py")],
     ["index value at the reported directions, reported objective, problem handed to the solver"],
     "Known optima and brute force; local optimisers are judged on most of several presentations of the data. The IPOPT solver itself is replaced by a stand-in." + NOTE, RM + "optimality oracle (closed-form optimum or brute force) on fitted directions")

prop("C17", "Distance-based reduction solves its stated problem; solver calls are faithful",
     "With distance covariance, martingale difference divergence or a user supplied objective the solver is handed a problem of the right size with the normalisation constraints, the user's start, constraints and arguments where given, and the resulting basis satisfies the normalisation, is not worse than neighbouring bases or its starting basis, "
     "recovers a strong single index, and scores, projection matrix, regression and predictions follow from it. The solver interface passes objective, gradient, constraints, bounds, arguments and options on unchanged for every derivative convention and returns the solver's solution and counts. Finite-difference derivatives agree with the true ones.",
     [I, CF], "every tall data set, one or two components, scaled or unscaled, every smooth problem, constraint, bound and option",
     "The solver is an optional dependency that is not installed, so no test reaches this code.",
     ["sudire/sudire.py", "sudire/_sudire_utils.py", "ipopt_temp/ipopt_wrapper.py", "ipopt_temp/jacobian.py"],
     [("optimisation stages", "sudire/sudire.py"), ("objectives", "sudire/_sudire_utils.py"), ("solver interface", "ipopt_temp/ipopt_wrapper.py"), ("finite differences", "ipopt_temp/jacobian.py")],
     ["recorded solver problems (start, constraints, options, evaluations), basis, scores, predictions, result object"],
     "The solver is replaced by a recording stand-in that solves with SLSQP; exact optima for quadratic objectives." + NOTE, RM + "trace monitor on solver problems plus optimality oracle")

prop("C25", "Structural dimension estimate is the bootstrap rule it documents",
     "The bootstrap estimate of the structural dimension fits the chosen method with the given settings on all cases and on the stated number of independent resamples of whole cases, drawn uniformly with replacement, for each dimension. The reported variability per dimension is the average spectral distance between the resampled and the original projection, lies in [0,1] "
     "and vanishes for the full space, and the reported dimension is the least variable proper one. A seeded run is reproducible, and strong one-dimensional structure is recognised.",
     [I, CF, H], "every tall data set, SIR, SAVE, DR or PHD, any settings, number of replications and random seed",
     "No test runs the bootstrap, and its output is random.",
     ["sudire/sudire.py"], [("bootstrap and estimator it resamples", "sudire/sudire.py")],
     ["every fit performed (data, settings, projection), reported variability and dimension"],
     "All fits recorded; the report is recomputed from the recorded trace." + NOTE, RM + "offline checker over the recorded trace of fits")

prop("C23", "The estimators are faithful components of scikit-learn workflows",
     "Inside pipelines (as transformer or final step), feature unions, column transformers, transformed targets, bagging, voting (of those that predict vectors), stacking, learning curves, cross validation and grid searches, serial or in worker processes, with arrays or data frames, every estimator gives exactly what the same fits and predictions done by hand with fresh objects give, fold by fold. "
     "Settings can be read, changed, nested and cloned without loss: get_params reports what was set, also with deep=True and through a pipeline, unknown names are refused, and numbers may be numpy numbers, as np.arange and np.linspace give them; regressors are recognised as such.",
     [I, CF, H], "every estimator, setting, data set, split and workflow of the stated kinds",
     "Tests contain no scikit-learn workflow apart from one commented grid search.",
     ["sprm/sprm.py", "sprm/snipls.py", "sprm/rm.py", "ppdire/ppdire.py", "ppdire/capi.py", "sudire/sudire.py", "preprocessing/robcent.py"],
     [("parameter handling", "ppdire/ppdire.py"), ("parameter handling", "sudire/sudire.py"), ("fit, predict, transform", "sprm/sprm.py"), ("fit and transform", "preprocessing/robcent.py")],
     ["predictions, scores, transformed data and score tables of workflows; parameters"],
     "Replay by hand with fresh objects; runs that are sensitive to last-digit perturbations are skipped and counted." + NOTE, RM + "differential monitor against fold-by-fold replay")

prop("C24", "Plots show the model's own numbers",
     "Every plot shows exactly one point or bar per case or variable at the position the fitted model, its predictions, scores and weights define, for training and new cases given in any container, with the colour and marker of the case's weight class (regular, moderate, harsh), the requested components, entity, weight mode, truncation, names, title and reference line, and the contour plot shows the cross-validation table. "
     "Drawing changes neither the model nor the data, and plots of the wrong model class, or of new cases when none are given, are refused.",
     [I, CF], "every fitted model of the three plottable classes, every plot and option",
     "No test draws a plot.",
     ["plot/sprm_plot.py", "plot/ppdire_plot.py", "plot/sudire_plot.py", "cross_validation/_cv_support_functions.py"],
     [("plots of robust models", "plot/sprm_plot.py"), ("plots", "plot/ppdire_plot.py"), ("plots", "plot/sudire_plot.py")],
     ["artists of the finished figure: positions, colours, markers, annotations, ticks, titles"],
     "Figures are drawn on an in-memory canvas and read back." + NOTE, RM + "trace monitor on drawn artists")

prop("C26", "An optional setting that is left out has its documented default",
     "For every class, fit method and function with optional settings, leaving any subset of them out gives bit for bit the result of spelling the documented defaults out, in every combination with the settings that are given; estimator settings may be given by position in the documented order; "
     "an omitted setting reads back as its default and setting a default explicitly changes nothing.",
     [I, CF], "every entry point, every subset of omitted settings combined with any values of the others, every data set",
     "Tests spell out one combination per estimator; a changed default, or a default that only applies together with another setting, passes them.",
     ["sprm/sprm.py", "sprm/snipls.py", "sprm/rm.py", "ppdire/ppdire.py", "ppdire/capi.py", "sudire/sudire.py", "dicomo/dicomo.py", "dicomo/_dicomo_utils.py", "preprocessing/robcent.py", "preprocessing/gsspp.py", "sprm/_m_support_functions.py", "ipopt_temp/ipopt_wrapper.py"],
     [("constructors and fit settings", "ppdire/ppdire.py"), ("constructors and fit settings", "sudire/sudire.py"), ("constructor", "sprm/sprm.py"), ("fit settings", "dicomo/dicomo.py")],
     ["results, parameters"],
     "Two runs of the same request, one spelled out, one abbreviated." + NOTE, RM + "differential monitor: spelled-out against abbreviated request")
