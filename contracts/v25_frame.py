"""V25: fitting changes neither the data nor the parameters, and can be repeated."""

import copy
import warnings

import numpy as np
import pandas as pd
import sklearn.base as skb
from sklearn.model_selection import KFold

from contracts._convex import GivenPrior, prior
from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from skfolio import PerfMeasure, RiskMeasure
from skfolio import cluster as cl
from skfolio import distance as di
from skfolio import distribution as ds
from skfolio import moments as mo
from skfolio import optimization as op
from skfolio import pre_selection as ps
from skfolio import prior as pr
from skfolio import uncertainty_set as us
from skfolio.model_selection import CombinatorialPurgedCV
from skfolio.optimization import ObjectiveFunction


# ------------------------------------------------ deductive frame conditions
def _same(cx, m, params):
    for k, v in params.items():
        same_ = bool(np.array_equal(getattr(m, k), v.real)) if cx.run else cx.get(m, k) is v
        cx.ensures("parameters are the ones given", tm.TRUE if same_ else tm.FALSE)


def _dims(cx):
    return cx.dim("n_observations", 2, bnd=(2,), run=(5, 9)), cx.dim("n_assets", 2, bnd=(2,), run=(2, 3))


def _settings(cx, n):
    d = dict(transaction_costs=cx.array("transaction_costs", (n,), lo=0, run=(0, 0.001)), management_fees=cx.array("management_fees", (n,), lo=0, run=(0, 0.001)), previous_weights=cx.array("previous_weights", (n,), run=(0, 0.6)), min_weights=cx.array("min_weights", (n,), lo=0, run=(0.0, 0.1)), max_weights=cx.array("max_weights", (n,), run=(0.6, 1.0)))
    cx.requires(tm.forall(n, lambda i: tm.lt(d["min_weights"].get(i), d["max_weights"].get(i))))
    return d


def _mean_risk(o):
    @contract("V25", f"inputs of mean-risk optimisation, {o.name.lower().replace('_', ' ')}", ["skfolio.optimization.MeanRisk.fit"], runs=5, bnd=False)
    def c(cx):
        T, n = _dims(cx)
        d = _settings(cx, n)
        p, X, mu, S = prior(cx, T, n)
        m = cx.new(op.MeanRisk, objective_function=o, prior_estimator=p, **d)
        k, _ = cx.attempt(cx.bound(m, "fit"), X)
        cx.unmodified(X, mu, *d.values())
        _same(cx, m, d)


for _o in ObjectiveFunction:
    _mean_risk(_o)


@contract("V25", "inputs of risk budgeting", ["skfolio.optimization.RiskBudgeting.fit"], runs=5, bnd=False)
def risk_budgeting(cx):
    T, n = _dims(cx)
    d = _settings(cx, n)
    d["risk_budget"] = cx.array("risk_budget", (n,), lo=0, run=(0, 1))
    p, X, mu, S = prior(cx, T, n)
    m = cx.new(op.RiskBudgeting, prior_estimator=p, **d)
    cx.attempt(cx.bound(m, "fit"), X)
    cx.unmodified(X, mu, *d.values())
    _same(cx, m, d)


# ------------------------------------------------ every estimator, bounded
def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, skb.BaseEstimator) or type(a).__module__.startswith(("skfolio.", "sklearn.")):
        return same(vars(a), vars(b)) if hasattr(a, "__dict__") and not isinstance(a, type) else a == b
    if callable(a):
        return True
    return a == b or (a != a and b != b)


def close(a, b):
    """results of two fits"""
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        return a.shape == b.shape and bool(np.allclose(a, b, atol=1e-7, equal_nan=True))
    if isinstance(a, float):
        return bool(np.isclose(a, b, atol=1e-7, equal_nan=True))
    if isinstance(a, dict):
        return list(a) == list(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return True


RESULTS = ("weights_", "mu_", "covariance_", "codependence_", "distance_", "labels_", "n_clusters_", "to_keep_", "loc_", "scale_", "rho_", "theta_", "dof_", "a_", "b_", "implied_vol", "picking_matrix_", "views_")


def result(m):
    r = {k: getattr(m, k) for k in RESULTS if k in vars(m)}
    if "prior_model_" in vars(m):
        r["prior"] = [m.prior_model_.mu, m.prior_model_.covariance, m.prior_model_.returns]
    if "uncertainty_set_" in vars(m):
        r["set"] = [float(m.uncertainty_set_.k), m.uncertainty_set_.sigma]
    return r


def _estimators(n, T, rng, X):
    names = list(X.columns)
    vol = pd.DataFrame(rng.uniform(0.1, 0.4, (T, n)), columns=names, index=X.index)
    w = lambda lo, hi: rng.uniform(lo, hi, n)
    hi = lambda: w(0.6, 1.0)
    mr = lambda **k: op.MeanRisk(min_weights=w(0, 0.1), max_weights=hi(), transaction_costs=w(0, 1e-3), management_fees=dict(zip(names, w(0, 1e-3))), previous_weights=w(0, 0.5), **k)
    groups = {a: ["g0" if i % 2 else "g1"] for i, a in enumerate(names)}
    O = ObjectiveFunction
    base = dict(
        mean_risk=[mr, lambda: mr(objective_function=O.MAXIMIZE_RATIO, groups=groups, linear_constraints=["g0 <= 0.9"]), lambda: mr(objective_function=O.MAXIMIZE_UTILITY, risk_measure=RiskMeasure.CVAR), lambda: op.MeanRisk(mu_uncertainty_set_estimator=us.EmpiricalMuUncertaintySet(), objective_function=O.MAXIMIZE_RETURN, max_variance=1.0), lambda: op.MeanRisk(covariance_uncertainty_set_estimator=us.EmpiricalCovarianceUncertaintySet())],
        other_convex=[lambda: op.RiskBudgeting(risk_budget=w(0.1, 1)), lambda: op.RiskBudgeting(risk_budget=dict(zip(names, w(0.1, 1)))), lambda: op.MaximumDiversification(max_weights=hi()), lambda: op.DistributionallyRobustCVaR(wasserstein_ball_radius=0.01, max_weights=hi())],
        hierarchical=[lambda: op.HierarchicalRiskParity(min_weights=w(0, 0.1), max_weights=dict(zip(names, hi())), transaction_costs=w(0, 1e-3), previous_weights=w(0, 0.5)), lambda: op.HierarchicalEqualRiskContribution(risk_measure=RiskMeasure.CVAR, min_weights=w(0, 0.1), max_weights=hi()), lambda: op.HierarchicalRiskParity(distance_estimator=di.KendallDistance(), hierarchical_clustering_estimator=cl.HierarchicalClustering(linkage_method=cl.LinkageMethod.COMPLETE), prior_estimator=pr.EmpiricalPrior(mu_estimator=mo.EWMu()))],
        composed=[lambda: op.NestedClustersOptimization(inner_estimator=op.InverseVolatility(), outer_estimator=op.EqualWeighted(), clustering_estimator=cl.HierarchicalClustering(max_clusters=2), n_jobs=1), lambda: op.StackingOptimization(estimators=[("a", op.InverseVolatility()), ("b", op.EqualWeighted())], final_estimator=op.InverseVolatility(), n_jobs=1), lambda: op.InverseVolatility(prior_estimator=pr.EmpiricalPrior(covariance_estimator=mo.EWCovariance())), op.EqualWeighted, lambda: op.NestedClustersOptimization(inner_estimator=op.InverseVolatility(), outer_estimator=op.InverseVolatility(), cv=KFold(3), n_jobs=1), lambda: op.StackingOptimization(estimators=[("a", op.InverseVolatility()), ("b", op.EqualWeighted())], final_estimator=op.InverseVolatility(), cv=KFold(3), n_jobs=1), lambda: op.StackingOptimization(estimators=[("a", op.InverseVolatility()), ("b", op.EqualWeighted())], final_estimator=op.InverseVolatility(), cv=CombinatorialPurgedCV(n_folds=4, n_test_folds=2), n_jobs=1)],
        moments=[mo.EmpiricalMu, mo.EWMu, mo.ShrunkMu, mo.EquilibriumMu, lambda: mo.EquilibriumMu(weights=w(0.1, 1), covariance_estimator=mo.EWCovariance()), mo.EmpiricalCovariance, mo.EWCovariance, mo.GerberCovariance, mo.LedoitWolf, mo.OAS, mo.ShrunkCovariance, mo.DenoiseCovariance, lambda: mo.DetoneCovariance(covariance_estimator=mo.EWCovariance())],
        implied=[lambda: (mo.ImpliedCovariance(window_size=5, annualized_factor=252, prior_covariance_estimator=mo.EmpiricalCovariance()), dict(implied_vol=vol)), lambda: (mo.ImpliedCovariance(volatility_risk_premium_adj=w(0.8, 1.2)), dict(implied_vol=vol))],
        priors=[lambda: pr.EmpiricalPrior(is_log_normal=True, investment_horizon=5, mu_estimator=mo.EWMu(), covariance_estimator=mo.EWCovariance()), lambda: pr.BlackLitterman(views=[f"{names[0]} == 0.01", f"{names[1]} - {names[0]} == 0.02"], view_confidences=rng.choice([0.0, 0.5, 1.0], 2)), lambda: pr.BlackLitterman(views=["g0 - g1 == 0.01"], groups=groups, view_confidences=[0.3]), lambda: (pr.FactorModel(), dict(y=pd.DataFrame(X.to_numpy() @ rng.uniform(-1, 1, (n, 2)), index=X.index, columns=["f", "g"])))],
        selection=[lambda: ps.DropCorrelated(threshold=0.2), ps.DropZeroVariance, lambda: ps.SelectKExtremes(k=2), ps.SelectNonDominated, ps.SelectComplete],
        distances=[di.PearsonDistance, di.KendallDistance, di.SpearmanDistance, di.DistanceCorrelation, di.MutualInformation, lambda: di.CovarianceDistance(covariance_estimator=mo.GerberCovariance())],
        sets=[us.EmpiricalMuUncertaintySet, us.EmpiricalCovarianceUncertaintySet, lambda: us.BootstrapMuUncertaintySet(n_bootstrap_samples=20, seed=1), lambda: us.BootstrapCovarianceUncertaintySet(n_bootstrap_samples=20, seed=1, prior_estimator=pr.EmpiricalPrior())],
        distributions=[lambda: (ds.Gaussian(), 1), lambda: (ds.StudentT(), 1), lambda: (ds.JohnsonSU(), 1), lambda: (ds.NormalInverseGaussian(), 1), lambda: (ds.GaussianCopula(), 2), lambda: (ds.StudentTCopula(), 2), lambda: (ds.ClaytonCopula(), 2), lambda: (ds.GumbelCopula(), 2), lambda: (ds.JoeCopula(), 2), lambda: (ds.IndependentCopula(), 2)],
    )
    return base


TARGETS = dict(
    mean_risk=["skfolio.optimization.MeanRisk.fit"],
    other_convex=[f"skfolio.optimization.{k}.fit" for k in ("RiskBudgeting", "MaximumDiversification", "DistributionallyRobustCVaR")],
    hierarchical=[f"skfolio.optimization.{k}.fit" for k in ("HierarchicalRiskParity", "HierarchicalEqualRiskContribution")],
    composed=[f"skfolio.optimization.{k}.fit" for k in ("NestedClustersOptimization", "StackingOptimization", "InverseVolatility", "EqualWeighted")],
    moments=[f"skfolio.moments.{k}.fit" for k in ("EmpiricalMu", "EWMu", "ShrunkMu", "EquilibriumMu", "EmpiricalCovariance", "EWCovariance", "GerberCovariance", "LedoitWolf", "OAS", "ShrunkCovariance", "DenoiseCovariance", "DetoneCovariance")],
    implied=["skfolio.moments.ImpliedCovariance.fit"],
    priors=[f"skfolio.prior.{k}.fit" for k in ("EmpiricalPrior", "BlackLitterman", "FactorModel")],
    selection=[f"skfolio.pre_selection.{k}.fit" for k in ("DropCorrelated", "DropZeroVariance", "SelectKExtremes", "SelectNonDominated", "SelectComplete")],
    distances=[f"skfolio.distance.{k}.fit" for k in ("PearsonDistance", "KendallDistance", "SpearmanDistance", "DistanceCorrelation", "MutualInformation", "CovarianceDistance")],
    sets=[f"skfolio.uncertainty_set.{k}.fit" for k in ("EmpiricalMuUncertaintySet", "EmpiricalCovarianceUncertaintySet", "BootstrapMuUncertaintySet", "BootstrapCovarianceUncertaintySet")],
    distributions=[f"skfolio.distribution.{k}.fit" for k in ("Gaussian", "StudentT", "JohnsonSU", "NormalInverseGaussian", "GaussianCopula", "StudentTCopula", "ClaytonCopula", "GumbelCopula", "JoeCopula")],
)


def _family(f, runs):
    @contract("V25", f"{f.replace('_', ' ')}: data, parameters and second fit", TARGETS[f], sym=False, bnd=False, runs=runs)
    def c(cx):
        n, T = cx.dim("n_assets", 3, run=(3, 5)), cx.dim("n_observations", 30, run=(30, 40))
        seed = int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6)))))
        rng = np.random.default_rng(seed)
        scale = cx.choice("scale", [0.01, 0.05])
        X = pd.DataFrame(rng.normal(0.001, scale, (T, n)) @ (np.eye(n) + 0.4), columns=[f"a{i}" for i in rng.permutation(int(n))], index=pd.date_range("2020-01-01", periods=int(T)))
        fs = _estimators(int(n), int(T), rng, X)[f]
        m = fs[cx.choice("estimator", list(range(len(fs))))]()
        m, kw = m if isinstance(m, tuple) else (m, {})
        if isinstance(kw, int):
            d, kw = kw, {}
            X = X.iloc[:, :d]
            if d == 2:
                X = (X.rank() - 0.5) / T
        if "portfolio_params" in m.get_params(deep=False) and m.portfolio_params is None and seed % 2:
            m.set_params(portfolio_params=[dict(annualized_factor=12), dict(name="n", tag="t"), dict(fitness_measures=[PerfMeasure.MEAN])][seed % 3])
        before, data, extra = copy.deepcopy(m), X.copy(), copy.deepcopy(kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                m.fit(X, **kw)
            except Exception:
                cx.ensures("the data are not modified", X.equals(data) and same(kw, extra))
                cx.ensures("the parameters are not modified", same(m.get_params(deep=False), before.get_params(deep=False)))
                return
            cx.ensures("the data are not modified", X.equals(data) and same(kw, extra))
            cx.ensures("the parameters are not modified", same(m.get_params(deep=False), before.get_params(deep=False)))
            r = copy.deepcopy(result(m))
            if hasattr(m, "fit_predict") and "weights_" in vars(m):
                m.predict(X)
                cx.ensures("the data are not modified", X.equals(data) and same(kw, extra))
                cx.ensures("the parameters are not modified", same(m.get_params(deep=False), before.get_params(deep=False)))
                cx.ensures("predicting does not change the fit", close(result(m), r))
            other = pd.DataFrame(X.to_numpy()[::-1] * 0.5, columns=X.columns, index=X.index) if f != "distributions" else X.iloc[: T // 2]
            again = skb.clone(before)
            try:
                again.fit(other, **kw)
            except Exception:
                pass
            again.fit(X, **kw)
            cx.ensures("a second fit forgets the first", close(result(again), r))


for _f, _n in dict(mean_risk=25, other_convex=16, hierarchical=16, composed=20, moments=50, implied=15, priors=25, selection=20, distances=20, sets=12, distributions=40).items():
    _family(_f, _n)
