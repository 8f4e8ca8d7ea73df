"""Single source of /verif/properties.jsonl; run it to regenerate the file."""
import json
import os

B = "cyclic_boosting/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=[B + f for f in files],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


prop(
    "C01",
    "Predictions decompose exactly into reported per-feature contributions",
    "For every fitted estimator, the prediction of each row equals the inverse link of the base value (global mean or rescaled prior prediction) combined with the contributions that the estimator reports for every feature group, multiplied for the multiplicative models and added in the estimator's link space in general. "
    "The reported contribution of a feature group is the same for any two rows that have the same values in the columns of that group. "
    "Grouping the features into influence categories reports, per category, exactly the sum of the members' link-space contributions.",
    ["inputs", "configurations"],
    "all estimators of the family, feature sets with 1-D, multi-D and missing-containing features, weights, priors, and any rows to predict",
    "The tests predict on one integration data set and compare a mean error; no test recombines contributions, and the decomposition must hold per row for every model and input.",
    ["base.py", "price.py", "features.py", "link.py", "classification.py", "regression.py", "location.py"],
    [("prediction is accumulated feature by feature in link space", "base.py CBLinkPredictionsFactors, CyclicBoostingBase.predict/predict_extended"),
     ("contributions are read from the same per-bin factors", "base.py get_feature_contributions")],
    ["predict", "predict_proba", "predict_extended", "get_feature_contributions"],
)
prop(
    "C02",
    "Training-time predictions equal later predictions on the same rows",
    "The predictions that training produces for its own rows - the output column filled by fit_transform and the predictions handed to observers after the last iteration - equal what transform and predict return for the same rows afterwards.",
    ["inputs", "configurations"],
    "all estimators, aggregate on and off, smoothers, missing values, empty multi-dimensional bins, priors, weights, hierarchical features",
    "The in-training prediction is updated incrementally over features and iterations while predict recomputes it from the stored factors; agreement must hold for all data, tests never compare the two.",
    ["base.py", "price.py", "nbinom.py", "classification.py", "location.py", "features.py"],
    [("incremental update and removal of contributions", "base.py UpdateMixin / feature_iteration / remove_preds"),
     ("prepare_feature stores aggregated factors for prediction", "features.py Feature.prepare_feature")],
    ["fit_transform", "transform", "predict", "observer callbacks"],
)
prop(
    "C03",
    "A row's prediction does not depend on how the rows are presented",
    "The prediction (and contribution) of a row is the same whether it is predicted alone or in any batch, in any order, with duplicates, with any row labels, with any column order, with unrelated extra columns, with any integer or float dtype holding the same values, or as an array instead of a table.",
    ["inputs", "histories"],
    "all estimators and pipelines, random batches, permutations, subsets, label sets, dtypes and containers; several predict calls on one model",
    "Tests always predict the training table as a whole, in its original order.",
    ["base.py", "features.py", "utils.py", "binning/bin_number_transformer.py", "pipelines.py"],
    [("columns are selected by name or position per feature group", "utils.py get_X_column"),
     ("bins are computed with the bin layout learned in training", "features.py bind_data, utils.py multidim_binnos_to_lexicographic_binnos")],
    ["predict", "get_feature_contributions"],
)
prop(
    "C04",
    "Training does not depend on row order, labels, column order or container",
    "Training on the same observations with the rows permuted, other row labels, the columns reordered or renamed consistently, unrelated columns added, or the table given as an array yields the same predictions up to floating-point rounding. "
    "Leaving the feature groups out trains on every column except the weight and prior prediction columns.",
    ["inputs", "configurations"],
    "all estimators and smoother choices, random data sets and random re-presentations of them",
    "One fixed data set in one fixed order is all that the tests train on.",
    ["base.py", "features.py", "utils.py", "regression.py", "location.py", "classification.py", "generic_loss.py", "nbinom.py", "price.py"],
    [("all statistics are per-bin sums over rows", "regression.py, location.py, classification.py, GBSregression.py, generic_loss.py calc_parameters")],
    ["fit", "predict"],
)
prop(
    "C05",
    "Sample weights act like repeated and absent rows",
    "A sample weight of zero trains the same model as leaving the row out (the price model, whose exponent prior is averaged over rows, excepted), and a constant weight of one trains the same model as giving no weights. "
    "For the Poisson and negative-binomial regressors and the classifier an integer weight k trains the same model as repeating the row k times. "
    "Learning bins with a weight column of integers k equals learning them from rows repeated k times, zero meaning absent.",
    ["inputs", "configurations"],
    "all estimators that accept sample weights, integer weight vectors including zeros, with and without prior predictions, and the binning step with a weight column",
    "No test compares a weighted training with the equivalent unweighted one.",
    ["base.py", "regression.py", "classification.py", "location.py", "GBSregression.py", "generic_loss.py", "utils.py", "binning/ecdf_transformer.py"],
    [("weights multiply all per-bin sums, the global mean and the loss", "base.py _init_weights/_get_prior..., regression.py calc_parameters")],
    ["fit", "predict"],
)
prop(
    "C06",
    "Refitting, copying, cloning and pickling reproduce the same model",
    "Training is deterministic: fitting twice, fitting an object that was fitted before on other data, fitting a clone, and predicting with a deep copy or an unpickled model all give the same predictions, importances and contributions as one fresh fit. "
    "Predicting, explaining and transforming never change the outcome of later calls.",
    ["histories", "configurations", "inputs"],
    "random sequences of fit, predict, explain, transform, copy, clone and pickle over two different data sets and all estimators",
    "Each test fits each object exactly once.",
    ["base.py", "features.py", "price.py", "nbinom.py", "generic_loss.py", "pipelines.py", "binning/ecdf_transformer.py"],
    [("fit re-initialises features and learning state", "base.py _init_fit/_init_features, features.py")],
    ["fit", "predict", "get_feature_importances", "get_feature_contributions", "sklearn clone", "pickle"],
)
prop(
    "C07",
    "Data passed by the caller is never modified",
    "Fitting, predicting, transforming and explaining leave the caller's tables, arrays, weight and target vectors, feature property dictionaries, feature lists and smoother arguments exactly as they were; the only documented exceptions are the output column that a transformer adds and a binner explicitly created to work in place.",
    ["inputs", "histories", "configurations"],
    "all estimators, transformers, smoothers and pipelines; tables and arrays of several dtypes and memory layouts",
    "Tests do not look at their inputs after a call.",
    ["base.py", "nbinom.py", "binning/ecdf_transformer.py", "binning/bin_number_transformer.py", "smoothing/onedim.py", "smoothing/multidim.py", "quantile_matching.py"],
    [("copies are taken before values are written", "binning/*.transform, base.py, nbinom.py")],
    ["every public call's arguments"],
)
prop(
    "C08",
    "Predictions are finite and inside the documented range for any row",
    "For any feature values at prediction time, including missing, infinite, negative and never-seen ones, predictions are finite and lie in the documented range: non-negative for multiplicative regression, within [0, 1] for class probabilities with both columns summing to one and hard labels agreeing with them, within [0, 1] for the width model, non-negative for location regression of counts.",
    ["inputs", "configurations"],
    "all estimators and pipelines, adversarial training targets (all zero, single spike, constant, huge) and adversarial prediction rows",
    "Tests only predict rows they trained on, with well-behaved targets.",
    ["base.py", "classification.py", "nbinom.py", "location.py", "price.py", "regression.py", "generic_loss.py", "features.py"],
    [("non-finite factor predictions are replaced by neutral ones", "base.py _predict_factors/_pred_feature"), ("links map to the allowed range", "link.py")],
    ["predict", "predict_proba"],
)
prop(
    "C09",
    "Missing, invalid and never-seen feature values are treated as documented",
    "All representations of a missing value (NaN, infinities, negative bin numbers) give the same contribution. "
    "That contribution is learned from the training rows with missing values when the feature is declared to have missing values, is exactly neutral when the feature is declared as not to be learned from, and bins beyond the trained range, as well as never-seen bins of unordered and ordered features, contribute neutrally; rows with missing values in a not-learned feature train the other features as usual.",
    ["inputs", "configurations"],
    "1-D and multi-D features, all missing-value flags, any estimator, missing values in training only, prediction only, or both",
    "A single column of the integration data contains missing values and no test checks the contribution of one.",
    ["base.py", "features.py", "utils.py", "flags.py"],
    [("dedicated extra bin for missing values", "features.py n_bins, bind_data"), ("missing-not-learned resets the bin to neutral", "features.py / base.py")],
    ["get_feature_contributions", "predict"],
)
prop(
    "C10",
    "Multiplicative regression learns the documented posterior factors",
    "With smoothing switched off, training a Poisson or negative-binomial regressor yields exactly the model obtained by executing the documented algorithm independently: cyclic passes over the features in the given order, each bin factor being the median of its gamma posterior given the prediction of all other features, damped by the learning rate and the documented factor limits. "
    "A negative-binomial regressor with Poisson parameters equals the Poisson regressor.",
    ["inputs", "configurations"],
    "random targets, weights, priors, 1-D and multi-D features, missing values, learning rates, iteration limits, aggregate modes, variance parameters",
    "Tests compare one error number on one data set to three decimals.",
    ["regression.py", "base.py", "features.py", "learning_rate.py", "utils.py"],
    [("gamma posterior per bin", "regression.py _calc_factors / calc_parameters"), ("cyclic update", "base.py feature_iteration, update_factors, visit_factors")],
    ["fit", "predict", "get_feature_contributions"],
)
prop(
    "C11",
    "Classification learns the documented posterior odds",
    "With smoothing switched off, training the classifier yields exactly the model obtained by executing the documented algorithm independently, each bin contribution in logit space being the centre of the Gaussian matched to the beta posterior of that bin given the other features; the class label is one exactly when the predicted probability exceeds one half.",
    ["inputs", "configurations"],
    "random labels with any imbalance, weights, priors, missing values, multi-D features, learning rates, aggregate modes",
    "Tests compare one error number on one data set.",
    ["classification.py", "base.py", "link.py"],
    [("beta posterior per bin matched to a Gaussian in link space", "classification.py calc_parameters, base.py gaussian_matching_by_quantiles")],
    ["fit", "predict", "predict_proba"],
)
prop(
    "C12",
    "Additive and background-subtraction regression learn the documented sums",
    "With smoothing switched off, training the location regressors and the background-subtraction regressor yields exactly the model obtained by executing the documented algorithm independently: per bin the (weighted, prior-regularised) mean residual for the additive models, and the regularised signal ratio for background subtraction. "
    "The contributions of each feature of the location regressor are centred on zero over the training rows, and shifting all targets by a constant shifts all location predictions by that constant.",
    ["inputs", "configurations"],
    "random targets of any sign, weights, priors, missing values, multi-D features, regularisation strengths",
    "Tests compare one error number on one data set.",
    ["location.py", "GBSregression.py", "base.py", "link.py"],
    [("per-bin weighted means", "location.py calc_parameters, base.py calc_factors_generic"), ("centring", "location.py calibrate_to_weighted_mean")],
    ["fit", "predict"],
)
prop(
    "C13",
    "Width estimation selects the most likely dispersion",
    "For each bin of each feature, the negative-binomial width model moves the dispersion in link space to the value on its search grid that has the best documented likelihood for the rows of that bin, given the mean prediction column; the resulting predictions equal an independent execution of that search.",
    ["inputs", "configurations"],
    "random counts, mean predictions, features, step counts and iteration limits",
    "One data set with one error value is tested.",
    ["nbinom.py", "base.py"],
    [("grid search per bin", "nbinom.py CBNBinomC.calc_parameters, compute_2d_loss")],
    ["fit", "predict"],
)
prop(
    "C14",
    "The price model multiplies base demand by the learned elasticity term",
    "For the exponential price model the prediction of every row equals base demand times the exponential of (external value minus one) times the row's exponent, with the exponent being the prior exponent scaled by the product of the external features' contributions; at external value one the external features have no effect, and training equals an independent execution of the documented algorithm.",
    ["inputs", "configurations"],
    "random price ratios, prior exponents, standard and external feature groups (possibly the same), variance settings, missing external values",
    "One data set with one error value is tested.",
    ["price.py", "base.py", "features.py"],
    [("separate standard and external predictions", "price.py CBExternalPrediction..., _pred_feature")],
    ["fit", "predict", "get_feature_contributions"],
)
prop(
    "C15",
    "Quantile regression estimates the requested conditional quantile",
    "For multiplicative and additive quantile regression the base value is the requested (weighted) quantile of the training target, and in every training step the value learned for a bin minimises the pinball loss of the rows in that bin given the other features, as closely as a general numerical minimiser allows; the resulting model equals an independent execution with exact minimisation wherever the minimum is unique and reachable. "
    "Bins without rows or weight stay at the base value. "
    "Without smoothing, no iteration increases the in-sample pinball loss.",
    ["inputs", "configurations"],
    "random continuous and count targets, quantile levels, weights, features with empty bins and missing values",
    "Tests compare single pinball losses on one data set.",
    ["generic_loss.py", "utils.py", "base.py"],
    [("per-bin numerical minimisation", "generic_loss.py optimization/quantile_costs"), ("global quantile", "generic_loss.py quantile_global_scale, utils.py continuous_quantile_from_discrete_pdf")],
    ["fit", "predict"],
)
prop(
    "C16",
    "Custom loss functions are minimised bin by bin",
    "With a user supplied cost function, every training step of an estimator for custom losses moves each bin by the parameter (a factor, or a shift for the additive variant) that minimises that cost over the rows of the bin, so that quadratic cost gives means and pinball cost gives quantiles; the resulting model equals an independent execution with exact minimisation wherever the minimum is unique and reachable. "
    "The cost function is called with the rows' own targets and weights, and bins without rows - missing values included - stay neutral wherever they lie.",
    ["inputs", "configurations"],
    "families of cost functions, additive, multiplicative and classification variants, weights, multi-D features with empty bins",
    "Tests use one cost function per class on one data set.",
    ["generic_loss.py", "base.py"],
    [("minimisation over split bins", "generic_loss.py CBGenericLoss.calc_parameters/optimization")],
    ["fit", "predict"],
)
prop(
    "C17",
    "Training stops exactly when a documented stop criterion is met",
    "Without hierarchical feature groups, training runs at most the requested number of iterations and ends at the first iteration at which the iteration limit is reached, the factor change is small enough or the loss change is small enough, reports that reason and iteration count, and passes the current iteration and the limit to the learning-rate function for each feature. "
    "The losses and factor changes recorded per iteration are those of the predictions at that time, and a training whose loss keeps exceeding twice the initial loss ends with the documented convergence error, never with a model of such a loss.",
    ["histories", "configurations", "inputs"],
    "random thresholds, limits, learning-rate functions, estimators and data",
    "Tests leave the stop criteria at fixed values and look at the final error only.",
    ["base.py", "learning_rate.py", "features.py"],
    [("loop control", "base.py _fit_main, _check_stop_criteria, _check_convergence / loss accounting")],
    ["iteration count, stop reason, observers, learning rate callbacks"],
)
prop(
    "C18",
    "Observers are passive and report the true training state",
    "Attaching any observers does not change the trained model, each observer is notified once before the first and once after every iteration, and the plotting observer's recorded losses, factors, bin counts and in-sample histogram equal those recomputed from the training data and the predictions.",
    ["inputs", "histories", "configurations"],
    "all estimators with none, one or several observers, observing any iteration",
    "Tests attach observers only to draw plots.",
    ["observers.py", "base.py", "features.py", "utils.py"],
    [("observer callbacks", "base.py _call_observe_..., observers.py PlottingObserver")],
    ["observer state after fit", "predict"],
)
prop(
    "C19",
    "Relative feature importances are the normalised mean effect of each feature",
    "The reported importances of a fitted estimator contain one non-negative entry per feature group, sum to one unless no group has any effect, and are proportional to the mean absolute link-space contribution of each group over the training rows; a group whose contributions are all neutral has importance zero, and refitting reports the groups of the last fit only.",
    ["inputs", "configurations", "histories"],
    "all estimators, mixed 1-D, multi-D and external feature groups, missing values",
    "One test checks importances of one data set against constants.",
    ["base.py", "features.py"],
    [("mean absolute deviation per feature", "base.py set_feature_importances/get_feature_importances")],
    ["get_feature_importances"],
)
prop(
    "C20",
    "Bin boundaries follow the documented equal-statistics guarantees",
    "For a continuous feature the learned boundaries start at the minimum, end at the maximum, increase strictly from bin to bin, number at most the requested bins, and every bin holds at least its share of the total sample weight up to the documented tolerance while ending at the first value that completes the share; for a discrete feature there is exactly one bin per distinct training value. "
    "The stored cumulative probabilities equal the weighted fraction of training values at or below each boundary, and missing or zero-weight values have no influence.",
    ["inputs", "configurations"],
    "columns with ties, constant values, missing and infinite values, extreme magnitudes, integer and float dtypes, weights, requested bin numbers, per-column settings, tables and arrays",
    "Tests bin a handful of fixed columns.",
    ["binning/ecdf_transformer.py", "binning/_utils.py", "binning/_binary_search.py"],
    [("cdf reduction to n bins", "binning/ecdf_transformer.py reduce_cdf_and_boundaries_to_nbins, calculate_cdf_from_weighted_data")],
    ["bins_and_cdfs_ after fit", "get_feature_bin_boundaries"],
)
prop(
    "C21",
    "Bin numbers follow from the learned boundaries for every value",
    "A transformed continuous value gets the number of the first bin whose upper boundary is not below it, values outside the training range get the first or last bin, a discrete value gets the rank of the matching training value, and missing, infinite, declared magic and unseen discrete values get the missing marker. "
    "Columns without declared properties pass through unchanged, labels and shape of the table are preserved, and results are integers in the range given by the learned boundaries.",
    ["inputs", "configurations"],
    "arbitrary columns and values near boundaries, any dtype, empty tables, tables and arrays, in-place mode",
    "Tests transform a handful of fixed values.",
    ["binning/bin_number_transformer.py", "binning/_binary_search.py", "binning/_utils.py"],
    [("binary search", "binning/_binary_search.py ge_multi, eq_multi"), ("missing marker", "binning/bin_number_transformer.py")],
    ["transform"],
)
prop(
    "C22",
    "Empirical-CDF transform interpolates the training distribution",
    "The CDF transformer maps a continuous value to the linear interpolation of the training distribution function between learned boundaries (zero below, one above the training range), maps a seen discrete value to its weighted cumulative fraction, and maps missing, infinite and unseen discrete values to missing. "
    "The result is monotone in the value, lies in [0, 1], keeps the table's labels and shape and leaves other columns alone.",
    ["inputs", "configurations"],
    "arbitrary columns, weights, bin numbers, values inside, outside and exactly at boundaries, tables and arrays",
    "Tests transform a handful of fixed values.",
    ["binning/ecdf_transformer.py", "binning/_binary_search.py"],
    [("interpolating binary search", "binning/_binary_search.py le_interp_multi, eq_multi")],
    ["transform"],
)
prop(
    "C23",
    "Combined features number every combination of bins uniquely",
    "For a combined feature every combination of valid bin numbers gets its own number, numbers are ordered lexicographically and can be converted back to the combination, and a row with a missing, negative or out-of-range component gets the missing number. "
    "Creating interaction terms yields every combination of the named features with two up to the requested number of members exactly once, interaction features built from them are the corresponding bin numbers of each row, and selecting the k best terms returns k terms with the highest ANOVA scores.",
    ["inputs", "configurations"],
    "bin matrices of any width and range, missing values, tables and arrays, all feature lists and orders of interaction",
    "Tests check a few small fixed matrices.",
    ["utils.py", "features.py", "interaction_selection.py"],
    [("mixed radix numbering", "utils.py multidim_binnos_to_lexicographic_binnos, bin_steps, arange_multi"), ("combinations", "interaction_selection.py create_interactions")],
    ["bin numbering helpers", "interaction helpers"],
)
prop(
    "C24",
    "Feature property flags combine and are recognised consistently",
    "For every combination of feature property flags, each recogniser answers true exactly when all bits that its flag implies are present, independent of unrelated flags; contradictory combinations (e.g. continuous together with ordered or unordered) are rejected and all consistent ones accepted, the readable description lists exactly the contained flags, and looking up the property of a feature or of each member of a combined feature returns the declared value or the given default.",
    ["inputs", "configurations"],
    "all combinations of the public flags",
    "Tests look at a few combinations; the combination space is exponential.",
    ["flags.py", "binning/_utils.py", "features.py"],
    [("bit masks", "flags.py is_*_set, check_flags_consistency, flags_to_string, read_feature_property")],
    ["flags API"],
)
prop(
    "C25",
    "One-dimensional smoothers compute their documented estimate",
    "Each one-dimensional smoother reproduces its documented estimate on any bins: stored values for plain bin values, the least-squares fit for linear, polynomial and orthogonal-polynomial smoothing, prior-regularised values between raw value and prior, monotone weighted least squares for isotonic smoothing, periodic fits for seasonal smoothing, and weighted means. "
    "Positions between bins and outside the fitted range are treated as documented, predicting before fitting fails, refitting forgets the earlier data, and the arguments are left unchanged.",
    ["inputs", "configurations"],
    "random bin centres, values, weights, uncertainties, orders, window sizes, and prediction positions",
    "Tests use one or two fixed arrays per smoother.",
    ["smoothing/onedim.py", "smoothing/orthofit.py", "smoothing/extrapolate.py", "utils.py"],
    [("fit/predict of every smoother class", "smoothing/onedim.py")],
    ["smoother fit/predict"],
)
prop(
    "C26",
    "Multi-dimensional and meta smoothers compose their parts as documented",
    "Multi-dimensional bin smoothers return the stored or prior-regularised value for seen bin combinations and missing for unseen ones; group-by smoothing equals smoothing each group separately; neutralising smoothers remove exactly the one-dimensional marginal effect; normalisation, sectioning and regression-type wrappers return the wrapped smoother's result with exactly the documented shift, split, cut or extrapolation.",
    ["inputs", "configurations"],
    "random bin grids, values, weights, uncertainties, nested smoothers, prediction points in and out of the training range",
    "Tests use one or two fixed arrays per smoother.",
    ["smoothing/multidim.py", "smoothing/meta_smoother.py", "smoothing/extrapolate.py", "utils.py"],
    [("group-by and meta smoothers", "smoothing/multidim.py, smoothing/meta_smoother.py")],
    ["smoother fit/predict"],
)
prop(
    "C27",
    "Feature properties shape the learned contributions",
    "As long as the loss does not grow during training, the trained contributions over the bins of a one-dimensional feature follow its declared property: non-decreasing or non-increasing for increasing or decreasing features, a straight line for linear and one sine wave per period for seasonal features of additive and logistic models. "
    "For every estimator the model equals the one obtained by smoothing each feature with the documented method for its property (weighted mean, neighbours, orthogonal polynomial, isotonic, linear, seasonal; weighted mean or group-by smoothing for several dimensions), extended beyond the known bins as far as the property allows. "
    "An explicitly supplied smoother for a feature replaces the derived one.",
    ["inputs", "configurations"],
    "all property combinations, all estimators, random data, explicit smoothers",
    "Tests check the selected class names for a few flags, not what the model does.",
    ["common_smoothers.py", "smoothing/onedim.py", "smoothing/meta_smoother.py", "base.py", "features.py"],
    [("property to smoother mapping", "common_smoothers.py SmootherChoice*.choice_fct / _choose_smoother")],
    ["get_feature_contributions"],
)
prop(
    "C28",
    "Quantile-parameterised distributions honour their three quantiles and bounds",
    "For every valid symmetric-percentile triplet and bounds, each quantile-parameterised distribution (bounded, semi-bounded and the extended ones) returns the given values at the three given probabilities, its quantile function is the documented Johnson transform of the chosen base distribution, non-decreasing and within the bounds, and its cumulative distribution function is the inverse; exactly symmetric triplets are no exception. "
    "Arrays of triplets, evaluated for all combinations or element by element, give the same as single triplets, and decreasing triplets or unknown versions are rejected. "
    "The shape-modified logistic base distribution is symmetric, its density is non-negative and the derivative of its cumulative distribution, and scaling it puts the upper level at one.",
    ["inputs", "configurations"],
    "triplets of any scale, skewness and exact symmetry, bounds, tail probability, base distribution version and shape",
    "Tests check three or four fixed triplets; the formulas have special cases such as exact symmetry.",
    ["quantile_matching.py"],
    [("closed form parameters", "quantile_matching.py J_QPD_S, J_QPD_B, J_QPD_extended_*")],
    ["ppf", "cdf", "pdf"],
)
prop(
    "C29",
    "The quantile-triplet regressor chain keeps order and bounds",
    "For any training data within the bounds, the chain's low, median and high predictions satisfy lower bound < low < median < high (< upper bound) for every row. "
    "With component estimators that reproduce order statistics of their training targets, the predictions are those order statistics in the original scale: of all targets for the median, of the targets below the predicted median for the low and above it for the high quantile. "
    "The returned distribution takes exactly the three predicted values at the three probabilities, and only the semi-bounded and bounded modes are accepted.",
    ["inputs", "configurations"],
    "random targets, bounds (both semi-bounded and bounded, non-zero and negative), levels and estimators",
    "One data set is tested (and the test for one mode fails).",
    ["quantile_matching.py", "generic_loss.py"],
    [("transform between bounds", "quantile_matching.py QPD_RegressorChain, transform_from_bounds/...")],
    ["QPD_RegressorChain fit/predict"],
)
prop(
    "C30",
    "Fitting a distribution to quantiles recovers it",
    "Fitting a Gaussian, gamma or negative-binomial distribution to exact quantiles of such a distribution recovers its quantile function, cumulative distribution and moments; the three return modes describe one and the same distribution, the fitted functions are monotone, and unknown modes are rejected. "
    "Spline fitting passes through the given quantiles and reproduces cubic quantile functions. "
    "The tail shape fitted to a sample describes its empirical quantiles at least as well as the unmodified distribution and any close-by shape.",
    ["inputs", "configurations"],
    "random distribution parameters and quantile levels, all modes",
    "Tests use one parameter set per distribution.",
    ["quantile_matching.py"],
    [("curve fits", "quantile_matching.py quantile_fit_gaussian/gamma/nbinom/spline")],
    ["quantile_fit_*"],
)
prop(
    "C31",
    "Ready-made pipelines equal binning plus the estimator with the same settings",
    "Every ready-made pipeline gives the same predictions as fitting the bin transformer and then the corresponding estimator by hand with the same settings, and every argument accepted by a pipeline constructor reaches the step it belongs to.",
    ["configurations", "inputs"],
    "all pipeline constructors, arguments set to non-default values, random mixed-type data with missing values",
    "Tests construct pipelines with few arguments and compare one number.",
    ["pipelines.py", "base.py", "binning/bin_number_transformer.py"],
    [("argument forwarding", "pipelines.py pipeline_CB and wrappers")],
    ["pipeline fit/predict", "get_params"],
)
prop(
    "C32",
    "Hierarchical feature groups are learned first and kept",
    "With hierarchical feature groups, only these groups are learned in the first three iterations and all groups afterwards; with constant learning rate the state after three iterations equals training only the hierarchical groups for three iterations, and the final model with the contributions of all groups equals an independent execution of that training.",
    ["configurations", "histories", "inputs"],
    "all estimators, subsets of groups as hierarchical, iteration limits, aggregate modes",
    "One test compares one error number.",
    ["base.py", "features.py"],
    [("restricted feature loop in the first iterations", "base.py _fit_main / cyclic_boosting iteration")],
    ["observers", "predict", "get_feature_contributions"],
)
prop(
    "C33",
    "Statistical helpers equal their textbook definitions",
    "The weighted quantile, weighted mean, median and standard deviation per bin, linear binning, digitising, regularisation to a prior, one-dimensional neutralisation, normalisation and linear-regression helpers return their textbook values for every input, including ties, single values, empty bins, missing values and non-unit weights.",
    ["inputs"],
    "random arrays with ties, weights, missing values and degenerate sizes",
    "Tests use one fixed array per helper.",
    ["utils.py"],
    [("helper functions", "utils.py")],
    ["utils functions"],
)
prop(
    "C34",
    "Link functions invert each other and learning rates stay within bounds",
    "Each link function and its inverse cancel on the whole documented range and are strictly increasing, values outside the range are rejected, and every learning-rate schedule returns values in (0, 1] that never decrease with the iteration and reach one no later than the last iteration.",
    ["inputs", "configurations"],
    "all links on full floating-point ranges; all schedules over all iterations and limits",
    "Tests check few fixed points.",
    ["link.py", "learning_rate.py"],
    [("link functions", "link.py"), ("schedules", "learning_rate.py")],
    ["link API", "learning rate API"],
)
prop(
    "C35",
    "Analysis plots can be produced for every trained model without altering it",
    "For every estimator, feature set and observed iteration, the analysis report and the single plot functions complete and produce a page for each feature group plus the summary pages, without changing the model or the observer and without leaving open figures or changed global plot settings behind.",
    ["inputs", "configurations"],
    "all estimators, 1-D, 2-D and higher features, missing bins, single-bin features, binners given or not",
    "Plots are drawn for one data set, usually disabled.",
    ["plots/__init__.py", "plots/_1dplots.py", "plots/_2dplots.py", "plots/plot_utils.py", "observers.py"],
    [("report generation", "plots/__init__.py plot_analysis")],
    ["pdf written to a scratch directory"],
)
prop(
    "C36",
    "Invalid use is rejected instead of producing a model",
    "Training with targets outside the documented range or non-finite, with different lengths of data and target, with empty data, or without a declared feature, weight, prior, external or mean column, or with settings outside their documented values, raises an error, and so does using an untrained estimator, transformer or smoother, predicting without a needed column, and writing an output over an existing column. "
    "A rejected training leaves no object that predicts something new: a fresh object still refuses to predict, an already trained one does not change its predictions, and the object can be trained properly afterwards.",
    ["inputs", "configurations", "histories"],
    "all estimators and transformers, all kinds of invalid input injected into otherwise valid data",
    "Tests cover a few error paths of single classes.",
    ["base.py", "regression.py", "classification.py", "nbinom.py", "price.py", "binning/ecdf_transformer.py", "link.py", "quantile_matching.py"],
    [("validation", "base.py _check_len_data, _check_y, _check_fitted; *.py _check_y")],
    ["exceptions"],
)
prop(
    "C37",
    "Prior predictions set the base value up to a global scale",
    "With a prior prediction column, the base value of each row is the prior rescaled by one global constant in link space so that its level matches the training target, rows with an invalid prior fall back to the global level, and multiplying (multiplicative models) or shifting (additive models) the whole prior column by a constant changes nothing in the trained predictions. "
    "A constant prior trains the same model as no prior.",
    ["inputs", "configurations"],
    "all estimators that accept priors, random prior columns with missing and out-of-range entries, weights",
    "One test compares one error number with a prior column.",
    ["base.py", "regression.py", "location.py", "classification.py"],
    [("prior offset", "base.py _get_prior_predictions / _init_global_scale")],
    ["fit", "predict"],
)
prop(
    "C38",
    "Discrete probability transforms of the truth are uniform and consistent",
    "For any discrete predictive distribution, the smeared cumulative probability of an observed count lies between the cumulative probability just below and at the observation, and over observations drawn from that distribution the values are uniformly distributed.",
    ["inputs"],
    "random discrete distributions and observations",
    "Tests use one example.",
    ["utils.py"],
    [("smearing", "utils.py smear_discrete_cdftruth, smear_discrete_cdftruth_qpd")],
    ["utils functions"],
)

prop(
    "C39",
    "Settings changed after construction act like settings given at construction",
    "Changing any settings of an estimator or binning transformer with set_params, before or after a training, one by one or together, and then training gives the same predictions, contributions and importances as a new object constructed with those settings. Reading the settings with get_params returns the values that were set.",
    ["histories", "configurations"],
    "random pairs of configurations of every estimator (iterations, stopping thresholds, smoothers, learning rate, aggregation, properties, weight and prior columns, feature groups, hierarchical groups, distribution parameters), random order of changes, with or without a training or a copy in between",
    "Tests construct every object with its final settings; grid searches and pipelines change settings afterwards.",
    ["base.py", "price.py", "binning/bin_number_transformer.py", "binning/ecdf_transformer.py"],
    [("settings", "base.py CyclicBoostingBase.__init__, _init_fit"), ("price model", "price.py CBExponential")],
    ["fit/predict after set_params"],
)

prop(
    "C40",
    "The reported required columns are exactly those that training needs",
    "For every estimator, training on a table reduced to the columns it reports as required gives the same model as training on the full table, training without any one of them fails, and the report is the same before and after training.",
    ["inputs", "configurations"],
    "training problems for all estimators with weights, priors, external, exponent and mean columns and unrelated further columns",
    "Tests never compare the reported columns with what training reads.",
    ["base.py", "price.py", "nbinom.py"],
    [("report", "base.py required_columns and its overrides")],
    ["required_columns, fit"],
)

prop(
    "C41",
    "The listed feature estimators reproduce the reported contributions",
    "A trained model lists one estimator per declared feature group, and asked for any combination of trained bins it returns the link-space contribution that the model reports for it. Looking up a feature by its column, group or identifier with type returns that feature with its number and order of bins, unknown ones are refused, and inspecting changes no prediction. An untrained model lists none.",
    ["inputs", "configurations"],
    "training problems for all estimators, one- and multi-dimensional, standard and external, hierarchical and never-seen feature groups",
    "Tests look up features of one model without comparing their values with the contributions.",
    ["base.py", "features.py", "smoothing/onedim.py", "smoothing/multidim.py"],
    [("listing", "base.py get_subestimators_as_items"), ("lookup", "features.py FeatureList")],
    ["get_subestimators_as_items, features"],
)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [p for p in P if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
