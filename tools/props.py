prop(
    "V01",
    "Walk-forward splits never leak and tile the sample",
    "For any sample and any settings, every walk-forward test window starts right where the previous one ended, every training window ends exactly the purge size before its test window and has the requested length (or starts at the first observation when expanding), and all windows lie inside the sample. The last test window is cut short only when reduced test windows are requested, no further full window fits after the last split, and the announced number of splits is the number generated. This holds when windows are counted in observations and when they follow calendar periods with offsets, forward or backward date matching.",
    ["inputs", "configurations"],
    "all sample sizes, train/test/purge sizes, calendars, offsets and flags",
    "tests try a few hand-computed splits; leakage and off-by-one cases depend on how sizes, purge and calendars line up",
    [S + "model_selection/_walk_forward.py"],
    [("WalkForward.split", S + "model_selection/_walk_forward.py"), ("WalkForward.get_n_splits", S + "model_selection/_walk_forward.py")],
    "index arrays yielded by split and the value of get_n_splits",
)

prop(
    "V05",
    "Risk and performance measures equal their definitions",
    "For any sample of returns or drawdowns and any parameter, each measure function returns exactly its published definition: central and lower partial moments around the mean or the given target (a target of zero included), quantile and tail averages with the fractional tail weight, worst case, cumulative returns and drawdowns (compounded or not), entropic measure, Gini mean difference, ulcer index and effective number of assets. No measure modifies the sample it is given.",
    ["inputs"],
    "all sample sizes, all values, all parameters in their documented range",
    "tests compare a single 1,000-observation sample at default parameters; short samples, ties, integer tails and explicit targets are not sampled",
    [S + "measures/_measures.py"],
    [("measure functions", S + "measures/_measures.py")],
    "return values of the measure functions",
)

prop(
    "V02",
    "Combinatorial purged splits are complete and never leak",
    "For any sample and any fold, purge and embargo sizes, there is one split per choice of test folds; each split tests exactly the observations of its chosen folds (the last fold taking the remainder), trains on all other observations except those within the purge size before or after a tested block and within the embargo size after it, and training and test never overlap. The recombined test paths use every test fold of every split exactly once and each path covers the whole sample once.",
    ["inputs", "configurations"],
    "all sample sizes, fold counts, test fold counts, purge and embargo sizes",
    "tests look at one 12-observation sample; fold remainders and purge windows reaching past a fold depend on how the sizes line up",
    [S + "model_selection/_combinatorial.py"],
    [("CombinatorialPurgedCV.split", S + "model_selection/_combinatorial.py"), ("path recombination", S + "model_selection/_combinatorial.py")],
    "index arrays yielded by split, path ids and recombined paths",
)

prop(
    "V04",
    "A portfolio's returns are its weighted asset returns net of costs",
    "For any asset returns, weights, previous weights, costs and fees, every portfolio return is the weighted sum of that day's asset returns minus the cost of the absolute weight change from the previous weights minus the fees on the weights; scalar, per-asset and labelled inputs mean the same thing and a missing previous weight is zero. Expected return and variance from given asset moments, diversification, effective number of assets, non-zero assets, weight tables and risk contributions are the ones of these weights. Inputs are not modified.",
    ["inputs"],
    "all sizes, weights, costs, fees and assets labels",
    "tests use one data set with a few weight vectors; sign, alignment and cost conventions matter for every input",
    [S + "portfolio/_portfolio.py", S + "utils/tools.py"],
    [("Portfolio.__init__", S + "portfolio/_portfolio.py"), ("input_to_array", S + "utils/tools.py")],
    "attributes and methods of Portfolio",
)

prop(
    "V06",
    "Every portfolio measure is its definition on the portfolio returns",
    "For any returns and any settings (risk-free rate, minimum acceptable return, betas, annualisation factor, compounding), each performance, risk and ratio measure read from a portfolio equals its definition evaluated on that portfolio's returns or drawdowns with that portfolio's own settings. Annualised measures scale means and variances by the annualisation factor and deviations by its square root, ratios divide the excess mean by their own risk measure, and cumulative returns and drawdowns follow the compounding choice.",
    ["inputs", "configurations"],
    "all return series and all settings",
    "tests check a handful of measures at default settings on one series; the dispatch from a measure to function and settings is by name for some forty measures",
    [S + "portfolio/_base.py", S + "measures/_measures.py"],
    [("BasePortfolio measures", S + "portfolio/_base.py")],
    "measure attributes of a portfolio",
)

prop(
    "V07",
    "Portfolio measures always reflect the current settings",
    "After any change of a portfolio setting, every measure read from the portfolio equals the value a freshly built portfolio with these settings would give, no matter which measures were read before; a copy has the same measures and can be changed without affecting the original. Returns, observations and other structural inputs cannot be replaced on a finished portfolio.",
    ["histories", "inputs"],
    "all sequences of measure reads and setting changes, on any returns",
    "stale cached values appear only after a particular read-then-change history",
    [S + "portfolio/_base.py"],
    [("measure cache", S + "portfolio/_base.py")],
    "measure attributes of a portfolio",
)

prop(
    "V08",
    "Portfolio arithmetic acts on weights and keeps every setting",
    "Negating, taking absolute value, rounding, scaling, dividing, adding or subtracting portfolios gives the portfolio whose weights are the result of that operation on the weights, on the same assets with the same costs, fees and settings. Adding or subtracting portfolios that differ in assets, costs or settings is refused, and multi-period portfolios apply the operation period by period.",
    ["inputs", "configurations"],
    "all portfolios, weights, numbers and settings",
    "tests compare weights for one pair of portfolios; dropped settings or swapped operands show only with non-default values",
    [S + "portfolio/_portfolio.py", S + "portfolio/_multi_period_portfolio.py"],
    [("Portfolio operators", S + "portfolio/_portfolio.py"), ("MultiPeriodPortfolio operators", S + "portfolio/_multi_period_portfolio.py")],
    "weights, returns and settings of the result",
)

prop(
    "V09",
    "A multi-period portfolio is the concatenation of its periods",
    "After building, appending, replacing, removing or assigning periods, a multi-period portfolio's returns and observations are exactly those of its periods in order, its length is the number of periods and its measures are those of the current returns. When the order of observations is checked, a period starting at or before the end of the previous one is refused and leaves the portfolio unchanged; operations never alter lists or portfolios of others.",
    ["histories", "inputs"],
    "all sequences of operations on any periods",
    "tests build one portfolio from cross-validation; stale returns after an in-place change need a particular history",
    [S + "portfolio/_multi_period_portfolio.py"],
    [("MultiPeriodPortfolio", S + "portfolio/_multi_period_portfolio.py")],
    "returns, observations, length and measures of the portfolio",
)

prop(
    "V10",
    "Pareto dominance and ranking follow their definition",
    "One fitness dominates another exactly when it is at least as good everywhere and better somewhere, performance and ratio measures counting positively and risk measures negatively; comparison of portfolios is this dominance. Non-dominated sorting puts every element in exactly one front, each front being exactly the elements not dominated by any element outside the earlier fronts.",
    ["inputs"],
    "all fitness vectors, ties included, and all populations",
    "tests rank one random population; ties and chains of dominance need particular values",
    [S + "utils/sorting.py", S + "portfolio/_base.py", S + "population/_population.py"],
    [("dominate, non_denominated_sort", S + "utils/sorting.py"), ("fitness and comparison of portfolios", S + "portfolio/_base.py")],
    "results of the sorting functions and comparisons",
)

prop(
    "V11",
    "A population selects and aggregates its portfolios by measure",
    "A population holds only portfolios and list operations act as on a list, returning populations and leaving operands unchanged; filtering keeps exactly the portfolios matching every given name and tag, in order. Measure arrays, means, deviations, sorting, quantiles, minimum and maximum are those of the portfolios' measure values, and setting parameters applies them to every portfolio, rejects unknown ones and returns the population.",
    ["inputs", "histories"],
    "all populations, measures, names, tags and parameters",
    "tests use one population with distinct values; ties, mixed criteria and rejected updates are not sampled",
    [S + "population/_population.py"],
    [("Population", S + "population/_population.py")],
    "methods of Population",
)

prop(
    "V12",
    "Scorers rank portfolios with greater always better",
    "A scorer built from a measure gives, for any estimator and data, the measure of the predicted portfolio, positive for performance and ratio measures and negated for every risk measure unless the direction is given explicitly. A scorer built from a function gives the function of the prediction with its keyword arguments, negated only when smaller is declared better.",
    ["inputs", "configurations"],
    "all measures, all portfolios, all explicit directions",
    "tests try two measures; a wrong sign for one risk measure silently makes model selection pick the worst model",
    [S + "metrics/_scorer.py"],
    [("make_scorer", S + "metrics/_scorer.py")],
    "value returned by a scorer",
)

prop(
    "V16",
    "Fitted mean-risk weights satisfy every constraint asked for",
    "Whenever a mean-risk optimisation returns weights, they add up to the budget or lie within its range, respect every minimum and maximum weight, long and short limit, turnover limit, linear inequality and custom constraint, and reach the minimum return net of costs and fees. Every limit on a risk measure or on tracking error holds for the returned weights, whichever objective is optimised.",
    ["inputs", "configurations"],
    "all prior models, any number of assets and observations, all limits and the four objectives",
    "tests check a few constraints at one objective; a missing factor in the homogenised ratio problem shows only for that combination",
    [S + "optimization/convex/_mean_risk.py", S + "optimization/convex/_base.py"],
    [("MeanRisk.fit", S + "optimization/convex/_mean_risk.py"), ("constraints and risk expressions", S + "optimization/convex/_base.py")],
    "weights_ after fit",
)

prop(
    "V17",
    "Constraint equations mean what they say",
    "A linear equation over asset and group names turns into exactly the inequality or equality it states on the weights: every term with its coefficient and sign, a group standing for the assets it contains, whichever side it is written on, and a greater-than turned into a less-than. An unknown group only warns and leaves its constraint out, and cardinality equations bound the number of assets of the group.",
    ["inputs", "programs"],
    "all equations over all names, groups, coefficients, operators and sides",
    "tests parse a list of examples; signs, coefficients and sides combine in more ways than examples can cover",
    [S + "utils/equations.py", S + "utils/tools.py"],
    [("equations_to_matrix, group_cardinalities_to_matrix", S + "utils/equations.py")],
    "matrices returned for equations",
)

prop(
    "V28",
    "Convex optimisations optimise the objective they document",
    "The objective optimised by a mean-risk model is the documented combination of the expected return net of transaction costs and fees, the risk of the weights and the regularisation of the weights, minimised or maximised as its name says; reported values are those of the weights. No feasible portfolio does better at the objective, for any risk measure; risk budgeting gives every asset its budgeted share of risk and maximum diversification the largest diversification ratio.",
    ["inputs", "configurations"],
    "all prior models, objectives, risk measures, costs and regularisations",
    "tests compare weights with stored values for one data set; a cost or factor missing for one objective and risk measure is not seen",
    [S + "optimization/convex/_mean_risk.py", S + "optimization/convex/_base.py", S + "optimization/convex/_risk_budgeting.py", S + "optimization/convex/_maximum_diversification.py"],
    [("MeanRisk.fit", S + "optimization/convex/_mean_risk.py"), ("risk, cost and regularisation expressions", S + "optimization/convex/_base.py"), ("RiskBudgeting.fit", S + "optimization/convex/_risk_budgeting.py")],
    "weights_ and problem_values_ after fit",
)

prop(
    "V13",
    "Naive allocations give the documented weights",
    "For any returns, equal weighting gives every asset the same share of one, inverse volatility gives weights that add up to one and are proportional to the inverse of the estimated volatility of each asset, and random allocation gives non-negative weights that add up to one.",
    ["inputs"],
    "all returns, any number of assets, any estimated covariance",
    "tests fit one data set; the identity must hold for every covariance and number of assets",
    [S + "optimization/naive/_naive.py", S + "utils/stats.py"],
    [("EqualWeighted, InverseVolatility, Random", S + "optimization/naive/_naive.py")],
    "weights_ after fit",
)

prop(
    "V18",
    "Parameters given by asset name reach the right asset",
    "A parameter given as a mapping from asset names to values acts exactly as the array with each value at the position of its asset, whatever the order of the mapping and of the columns, missing assets getting the default. This holds for weight limits, costs, fees, previous weights, groups, views and implied volatilities; predicted portfolios carry the weight of each asset under its name, and row or column selections keep each asset's own data.",
    ["inputs", "configurations"],
    "all asset names, column orders, mappings and parameters",
    "tests use one order of columns; a value at the wrong position shows only for another order or a partial mapping",
    [S + "utils/tools.py", S + "optimization/_base.py", S + "optimization/convex/_base.py", S + "optimization/cluster/hierarchical/_base.py"],
    [("input_to_array, safe_indexing, safe_split, deduplicate_names", S + "utils/tools.py"), ("cleaning of inputs", S + "optimization/convex/_base.py")],
    "weights_ after fit, portfolios from predict, arrays returned by the helpers",
)

prop(
    "V19",
    "Pre-selection keeps exactly the assets its criterion selects",
    "Dropping assets of vanishing variance, with missing values, or expiring within the horizon keeps exactly the other assets; selecting the k best or worst keeps k assets of extreme measure; selecting the non-dominated keeps whole Pareto fronts. Dropping correlated assets leaves no pair of kept assets above the threshold and drops no asset that is not above it with a kept or dropped one; the transformed data are the kept columns, unchanged and in order.",
    ["inputs", "configurations"],
    "all returns, thresholds, horizons and measures",
    "tests use a handful of matrices; chains of correlated assets, negative correlations and ties are not sampled",
    [S + "pre_selection/"],
    [("DropCorrelated, DropZeroVariance, SelectKExtremes, SelectNonDominated, SelectComplete, SelectNonExpiring", S + "pre_selection/")],
    "support and output of the transformer",
)

prop(
    "V20",
    "Returns are the relative changes of consecutive prices",
    "Converting prices to returns gives, for each asset and factor and each pair of consecutive kept observations, the relative change of its price, or the logarithm of the ratio when asked. Missing prices are filled or dropped as documented: assets and observations are removed only for their own missing values and the given threshold, asset and factor returns stay aligned on the same observations, and the given prices are not modified.",
    ["inputs", "configurations"],
    "all prices with any pattern of missing values, thresholds and options",
    "tests use a few patterns of missing prices; alignment errors show only for others",
    [S + "preprocessing/_returns.py"],
    [("prices_to_returns", S + "preprocessing/_returns.py")],
    "data returned by prices_to_returns",
)

prop(
    "V21",
    "Prior models combine their parts as documented",
    "An empirical prior holds the estimated expected returns and covariance and the given returns, or those of the log-normal law at the horizon; a factor model holds the factor moments carried through the loadings, plus the variance of the residuals; Black-Litterman holds the Bayesian posterior of the views weighted by their confidence; synthetic data hold the prior of the sample drawn. Inputs are not modified and inconsistent parameters are refused.",
    ["inputs", "configurations"],
    "all returns, moments, loadings, views, confidences and horizons",
    "tests compare with stored numbers on one data set; the combination must hold for every moment and view",
    [S + "prior/_empirical.py", S + "prior/_factor_model.py", S + "prior/_black_litterman.py", S + "prior/_synthetic_data.py"],
    [("EmpiricalPrior.fit", S + "prior/_empirical.py"), ("FactorModel.fit", S + "prior/_factor_model.py"), ("BlackLitterman.fit", S + "prior/_black_litterman.py"), ("SyntheticData.fit", S + "prior/_synthetic_data.py")],
    "prior model after fit",
)

prop(
    "V22",
    "Moment estimators compute the moment they are named after",
    "Expected returns and covariances are, for any returns and window, the documented estimator of the last observations only: sample, exponentially weighted, shrunk, equilibrium, Gerber, denoised, detoned or scaled to implied volatilities. The covariance is a symmetric matrix with one row per asset, a vanishing variance is refused, and with the nearest option it is positive definite.",
    ["inputs", "configurations"],
    "all returns, any number of assets and observations, all windows and parameters",
    "tests compare with stored numbers on one data set",
    [S + "moments/"],
    [("expected returns", S + "moments/expected_returns/"), ("covariances", S + "moments/covariance/")],
    "mu_ and covariance_ after fit",
)

prop(
    "V23",
    "Distances between assets follow their correlation",
    "For every codependence and options, the codependence is a symmetric matrix and the distance is the documented function of it: zero exactly for perfectly dependent assets, growing as dependence falls, blind to sign when absolute and powered when asked. Distances are symmetric, non-negative and zero on the diagonal.",
    ["inputs", "configurations"],
    "all returns, codependence measures, powers and options",
    "tests compare with stored numbers on one data set",
    [S + "distance/_distance.py"],
    [("PearsonDistance, CovarianceDistance, KendallDistance, SpearmanDistance, DistanceCorrelation, MutualInformation", S + "distance/_distance.py")],
    "codependence_ and distance_ after fit",
)

prop(
    "V24",
    "Matrix and weight utilities satisfy their definition",
    "Converting a covariance to a correlation and back is the identity; the nearest covariance is positive definite and leaves a positive definite matrix unchanged; adjusting weights to bounds returns weights that add up to one, respect the bounds and are the closest in relative deviation. The commutation matrix transposes vectorised matrices.",
    ["inputs"],
    "all matrices, weights and bounds",
    "tests use a few matrices and random bounds",
    [S + "utils/stats.py"],
    [("cov_to_corr, corr_to_cov, cov_nearest, minimize_relative_weight_deviation, commutation_matrix", S + "utils/stats.py")],
    "values returned by the utilities",
)

prop(
    "V14",
    "Hierarchical allocations spend the budget within the bounds",
    "Hierarchical risk parity and hierarchical equal risk contribution return weights that add up to one and respect every minimum and maximum weight, for any tree, any risks and any bounds that some weights satisfy; other bounds are refused. Without bounds each branch of the tree gets the share of its parent given by the risk of the other branch, for every supported risk measure, with costs and fees included in the risk.",
    ["inputs", "configurations"],
    "all returns, trees, risk measures, costs and weight bounds",
    "tests use one data set and a few bounds; a split that leaves the bounds of one branch shows only for particular trees and bounds",
    [S + "optimization/cluster/hierarchical/_hrp.py", S + "optimization/cluster/hierarchical/_herc.py", S + "optimization/cluster/hierarchical/_base.py", S + "utils/stats.py", S + "utils/tools.py"],
    [("HierarchicalRiskParity.fit and its split factor", S + "optimization/cluster/hierarchical/_hrp.py"), ("HierarchicalEqualRiskContribution.fit", S + "optimization/cluster/hierarchical/_herc.py"), ("risk of a branch, bounds", S + "optimization/cluster/hierarchical/_base.py")],
    "weights_ after fit",
)

prop(
    "V25",
    "Fitting changes neither data nor parameters and can be repeated",
    "Fitting or predicting with any estimator leaves the given data, the parameters (arrays, lists and mappings included) and the given sub-estimators exactly as they were, whether the fit succeeds or not. A second fit forgets the first: an estimator already fitted on other data gives the same result as a fresh one.",
    ["inputs", "histories", "configurations"],
    "all estimators, data, parameters and sequences of fits",
    "tests fit once and look at the result; a parameter modified in place shows only when it is used again",
    [S + "optimization/", S + "prior/", S + "moments/", S + "pre_selection/", S + "distance/", S + "uncertainty_set/", S + "distribution/"],
    [("MeanRisk.fit", S + "optimization/convex/_mean_risk.py"), ("RiskBudgeting.fit", S + "optimization/convex/_risk_budgeting.py"), ("BlackLitterman.fit", S + "prior/_black_litterman.py"), ("ImpliedCovariance.fit", S + "moments/covariance/_implied_covariance.py")],
    "data, parameters and results after fit",
)

prop(
    "V03",
    "Cross-validated predictions only use the training observations",
    "Each part of a cross-validated prediction comes from a model fitted on the training observations and assets of its split only, with the factors and fit parameters of the same observations and assets, and predicts exactly the test observations of the split. Every test observation appears once per path in the order of the data, for any splitting scheme, and test sets that overlap are refused.",
    ["inputs", "configurations"],
    "all returns, factors, fit parameters, splitting schemes and assets selected",
    "tests compare a few schemes on one data set; a leak of one observation or a parameter left unaligned leaves the numbers plausible",
    [S + "model_selection/_validation.py", S + "utils/tools.py"],
    [("cross_val_predict", S + "model_selection/_validation.py"), ("fit_and_predict, fit_single_estimator, safe_split", S + "utils/tools.py")],
    "portfolios of the prediction and data seen by the models",
)

prop(
    "V15",
    "Composed allocations combine the weights of their parts",
    "The weights of a nested clusters or stacking optimisation are the weights of the inner models combined with those of the final model, an asset alone in its cluster taking the whole weight of the cluster. Inner models see the assets of their cluster only and the final model sees the returns of the inner models, out of sample when cross-validated, with the factors of the same observations; models can be read, replaced and tuned by name.",
    ["inputs", "configurations"],
    "all returns, factors, clusters, models and cross-validations",
    "tests compare with stored weights on one data set and one clustering",
    [S + "optimization/cluster/_nco.py", S + "optimization/ensemble/_stacking.py", S + "optimization/ensemble/_base.py"],
    [("NestedClustersOptimization.fit", S + "optimization/cluster/_nco.py"), ("StackingOptimization.fit", S + "optimization/ensemble/_stacking.py"), ("named models", S + "optimization/ensemble/_base.py")],
    "weights_ after fit and the data given to each model",
)

prop(
    "V27",
    "Uncertainty sets measure estimation error and bound the worst case",
    "The uncertainty set of expected returns or covariances is the ellipsoid of the confidence level asked for around the prior, shaped by the covariance of the estimation error, by formula or over resampled histories made of blocks of consecutive observations of the returns. A robust optimisation optimises the worst expected return or variance of the set.",
    ["inputs", "configurations"],
    "all returns, confidence levels, block sizes, seeds and objectives, any number of assets",
    "tests compare with stored numbers on one data set",
    [S + "uncertainty_set/", S + "utils/bootstrap.py", S + "optimization/convex/_base.py", S + "optimization/convex/_mean_risk.py"],
    [("EmpiricalMuUncertaintySet, EmpiricalCovarianceUncertaintySet", S + "uncertainty_set/_empirical.py"), ("BootstrapMuUncertaintySet, BootstrapCovarianceUncertaintySet", S + "uncertainty_set/_bootstrap.py"), ("stationary_bootstrap", S + "utils/bootstrap.py"), ("worst case return and variance", S + "optimization/convex/_base.py")],
    "uncertainty_set_ after fit and the weights of robust optimisations",
)

prop(
    "V26",
    "The functions of a distribution agree with each other",
    "For every copula, rotation and parameter, the conditional probability and the density are the derivatives of the documented cumulative distribution, sampling inverts the conditional probability, and the tail dependences are its limits. Fitting gives the rank correlation of the data or the most likely parameters, the selected candidate has the lowest criterion, and samples of univariate, bivariate and vine models follow the model and the conditions given.",
    ["inputs", "configurations"],
    "all points, parameters, rotations, margins and candidates",
    "tests compare with stored numbers at a few points; a rotation or margin swapped shows only for one combination",
    [S + "distribution/"],
    [("copulas", S + "distribution/copula/"), ("univariate distributions", S + "distribution/univariate/"), ("VineCopula", S + "distribution/multivariate/_vine_copula.py")],
    "cdf, partial_derivative, inverse_partial_derivative, score_samples, sample, fitted parameters",
)
