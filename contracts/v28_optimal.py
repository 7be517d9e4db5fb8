"""V28: convex optimisations minimise or maximise what they document."""

import numpy as np

from contracts._convex import GivenPrior, prior
from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from skfolio import RiskMeasure, measures
from skfolio.optimization import MaximumDiversification, MeanRisk, ObjectiveFunction, RiskBudgeting
from skfolio.prior import PriorModel

FIT = ["skfolio.optimization.MeanRisk.fit"]
OBJ = list(ObjectiveFunction)
TIGHT = [RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION, RiskMeasure.SEMI_VARIANCE, RiskMeasure.SEMI_DEVIATION, RiskMeasure.MEAN_ABSOLUTE_DEVIATION, RiskMeasure.FIRST_LOWER_PARTIAL_MOMENT, RiskMeasure.WORST_REALIZATION]
ALL = TIGHT + [RiskMeasure.CVAR, RiskMeasure.EVAR, RiskMeasure.MAX_DRAWDOWN, RiskMeasure.AVERAGE_DRAWDOWN, RiskMeasure.CDAR, RiskMeasure.EDAR, RiskMeasure.ULCER_INDEX, RiskMeasure.GINI_MEAN_DIFFERENCE]


def dot(a, w, n):
    return tm.bigsum(n, lambda i: a.get(i) * w.get(i))


def at(a, i):
    return a.get(i) if hasattr(a, "get") else const(a)


def _value(cx, m, name):
    d = cx.get(m, "problem_values_")
    return const(d.d[name]) if not cx.run else const(float(m.problem_values_[name]))


def _settings(cx, n):
    """costs, fees and regularisation"""
    c, f, p = cx.array("transaction_costs", (n,), lo=0, run=(0, 0.001)), cx.array("management_fees", (n,), lo=0, run=(0, 0.001)), cx.array("previous_weights", (n,), run=(0, 0.6))
    for a in (c, f):
        cx.requires(tm.exists(n, lambda i: tm.lt(0, a.get(i))))
    l1, l2 = cx.real("l1_coef", 0, strict=True, run=(0.001, 0.01)), cx.real("l2_coef", 0, strict=True, run=(0.001, 0.01))
    lo, hi = cx.array("min_weights", (n,), run=(-0.3, 0.0)), cx.array("max_weights", (n,), run=(0.5, 1.0))
    cx.requires(tm.forall(n, lambda i: tm.lt(lo.get(i), hi.get(i))))
    return c, f, p, l1, l2, dict(transaction_costs=c, management_fees=f, previous_weights=p, l1_coef=l1, l2_coef=l2, min_weights=lo, max_weights=hi)


def _fit(cx, m, X):
    if cx.run:
        import cvxpy as cp

        try:
            m.fit(X.real.copy())
        except cp.SolverError:
            raise Discard() from None
    else:
        cx.method(m, "fit", X)
    return cx.arr(cx.get(m, "weights_"))


def _net(n, mu, w, c, f, p):
    return tm.bigsum(n, lambda i: mu.get(i) * w.get(i) - tm.absval(c.get(i) * (p.get(i) - w.get(i))) - f.get(i) * w.get(i))


@contract("V28", "objective and reported values", FIT, tol=1e-4)
def objective(cx):
    n = cx.dim("n_assets", 2, run=(2, 4), bnd=(2,))
    T = cx.dim("n_observations", 2, run=(5, 8), bnd=(2,))
    pr, X, mu, S = prior(cx, T, n)
    o = cx.choice("objective", OBJ[:3])
    risk_measure = cx.choice("risk_measure", TIGHT)
    c, f, p, l1, l2, kw = _settings(cx, n)
    a = cx.real("risk_aversion", 0, strict=True, run=(0.5, 3))
    m = cx.new(MeanRisk, objective_function=o, risk_measure=risk_measure, prior_estimator=pr, risk_aversion=a, **kw)
    w = _fit(cx, m, X)
    ret, risk, reg, obj = [_value(cx, m, k) for k in ("expected_return", "risk", "regularization", "objective")]
    cx.ensures("expected return is net of costs and fees", tm.eq(ret, _net(n, mu, w, c, f, p)))
    cx.ensures("regularisation is that of the weights", tm.eq(reg, l1 * tm.bigsum(n, lambda i: tm.absval(w.get(i))) + l2 * tm.bigsum(n, lambda i: w.get(i) * w.get(i))))
    if o == ObjectiveFunction.MINIMIZE_RISK:
        want = risk + reg
    elif o == ObjectiveFunction.MAXIMIZE_RETURN:
        want = ret - reg
    else:
        want = ret - a * risk - reg
    cx.ensures("the objective combines return, risk and regularisation", tm.eq(obj, want))
    if not cx.run:
        q = cx.it.cvx_problems[-1]
        cx.ensures("risk is minimised, return and utility are maximised", (q.objective.sense == "min") == (o == ObjectiveFunction.MINIMIZE_RISK))


@contract("V28", "risk is at least that of the weights", FIT, tol=1e-3)
def risk_bound(cx):
    n = cx.dim("n_assets", 2, run=(2, 4), bnd=(2,))
    T = cx.dim("n_observations", 2, run=(5, 8), bnd=(2,))
    pr, X, mu, S = prior(cx, T, n)
    rm = cx.choice("risk_measure", TIGHT)
    m = cx.new(MeanRisk, objective_function=ObjectiveFunction.MINIMIZE_RISK, risk_measure=rm, prior_estimator=pr)
    w = _fit(cx, m, X)
    risk = _value(cx, m, "risk")
    r = lambda t: tm.bigsum(n, lambda i: X.get(t, i) * w.get(i))
    mw = dot(mu, w, n)
    down = cx.define("downside", T, lambda t: tm.pos(mw - r(t)))
    square = tm.bigsum(T, lambda t: tm.power(down(t), 2)) / (const(T) - 1)
    if cx.run:
        from pyvc.values import from_numpy

        S = from_numpy(m.prior_estimator_.prior_model_.covariance)
    var = tm.bigsum(n, lambda i: tm.bigsum(n, lambda j: w.get(i) * S.get(i, j) * w.get(j)))
    le = tm.eq if cx.run else tm.le  # the solver makes the bound tight
    if rm == RiskMeasure.VARIANCE:
        ok = le(var, risk)
    elif rm == RiskMeasure.STANDARD_DEVIATION:
        ok = tm.and_(le(var, risk * risk), tm.le(0, risk))
    elif rm == RiskMeasure.SEMI_VARIANCE:
        ok = le(square, risk)
    elif rm == RiskMeasure.SEMI_DEVIATION:
        ok = tm.and_(le(square, risk * risk), tm.le(0, risk))
    elif rm == RiskMeasure.MEAN_ABSOLUTE_DEVIATION:
        ok = le(2 * tm.bigsum(T, down) / const(T), risk)
    elif rm == RiskMeasure.FIRST_LOWER_PARTIAL_MOMENT:
        ok = le(tm.bigsum(T, down) / const(T), risk)
    elif cx.run:
        ok = tm.eq(const(max(float(tm.numval(-r(t))) for t in range(int(tm.numval(const(T)))))), risk)
    else:
        ok = tm.forall(T, lambda t: tm.le(-r(t), risk))
    cx.ensures("the reported risk covers the risk of the weights", ok)


# ------------------------------------------------------------- optimality, runs
def _evar(losses):
    """entropic value at risk at 95%, the worst loss when the tail is below one observation"""
    from scipy.optimize import minimize_scalar
    from scipy.special import logsumexp

    f = lambda u: np.exp(u) * (logsumexp(losses / np.exp(u)) - np.log(len(losses) * 0.05))
    return minimize_scalar(f, bounds=(-14, 4), method="bounded", options=dict(xatol=1e-9)).fun


def _risk(rm, X, mu, S, w):
    r = X @ w
    if rm == RiskMeasure.VARIANCE:
        return w @ S @ w
    if rm == RiskMeasure.STANDARD_DEVIATION:
        return np.sqrt(w @ S @ w)
    if rm == RiskMeasure.EVAR:
        return _evar(-r)
    f = getattr(measures, rm.value)
    if rm in (RiskMeasure.MAX_DRAWDOWN, RiskMeasure.AVERAGE_DRAWDOWN, RiskMeasure.CDAR, RiskMeasure.EDAR, RiskMeasure.ULCER_INDEX):
        wealth = np.cumsum(r)
        d = wealth - np.maximum(np.maximum.accumulate(wealth), 0)  # from the highest wealth, the initial one included
        return _evar(-d) if rm == RiskMeasure.EDAR else f(d)
    return f(r)


def _neighbours(w, lo, hi, rng):
    n = len(w)
    for eps in (0.1, 0.01, 0.001):
        for i in range(n):
            for j in range(n):
                if i != j:
                    v = w.copy()
                    v[i] += eps
                    v[j] -= eps
                    if np.all(v >= lo) and np.all(v <= hi):
                        yield v
    for _ in range(20):
        v = w + rng.uniform(-0.2, 0.2, n)
        v += (w.sum() - v.sum()) / n
        if np.all(v >= lo) and np.all(v <= hi):
            yield v


def _concrete(cx):
    n = int(tm.numval(const(cx.dim("n_assets", 2, run=(2, 4)))))
    T = int(tm.numval(const(cx.dim("n_observations", 8, run=(22, 40)))))
    X = cx.array("returns", (T, n), run=(-0.05, 0.06), distinct=True).real
    mu, S = X.mean(axis=0), np.cov(X.T) + 1e-6 * np.eye(n)
    return n, X, mu, S, GivenPrior(model=PriorModel(mu=mu, covariance=S, returns=X))


def _solve(m, X):
    import cvxpy as cp

    try:
        m.fit(X)
    except cp.SolverError:
        raise Discard() from None
    return m.weights_


def _optimal(rm, o):
    @contract("V28", f"optimality, {o.value.replace('_', ' ')}, {rm.value.replace('_', ' ')}", FIT, sym=False, bnd=False, runs=6 if rm in TIGHT else 3)
    def c(cx):
        n, X, mu, S, pr = _concrete(cx)
        a = float(tm.numval(const(cx.real("risk_aversion", 0, run=(0.5, 4)))))
        rf = float(tm.numval(const(cx.real("risk_free_rate", run=(-0.002, 0.0)))))
        if o == ObjectiveFunction.MAXIMIZE_RATIO and mu.max() - rf < 1e-3:
            raise Discard()
        m = MeanRisk(objective_function=o, risk_measure=rm, prior_estimator=pr, risk_aversion=a, min_weights=-0.2, max_weights=0.9, risk_free_rate=rf)
        w = _solve(m, X)

        def loss(v):
            k = _risk(rm, X, mu, S, v)
            if rm == RiskMeasure.FIRST_LOWER_PARTIAL_MOMENT:
                k = np.maximum(mu @ v + rf - X @ v, 0).mean()  # below the mean and the risk-free rate
            if o == ObjectiveFunction.MINIMIZE_RISK:
                return k
            if o == ObjectiveFunction.MAXIMIZE_UTILITY:
                return a * k - mu @ v
            if rm in (RiskMeasure.VARIANCE, RiskMeasure.SEMI_VARIANCE):
                k = np.sqrt(k)
            return -(mu @ v - rf) / k

        if o == ObjectiveFunction.MAXIMIZE_RATIO and (loss(w) > -1e-2 or not np.isfinite(loss(w))):
            raise Discard()
        best = loss(w)
        slack = 2e-4 * (abs(best) + (1e-3 if o != ObjectiveFunction.MAXIMIZE_RATIO else 0.1))
        worse = [v for v in _neighbours(w, -0.2, 0.9, cx.r.np) if loss(v) < best - slack]
        cx.ensures("no neighbouring portfolio is better", not worse)


for _rm in ALL:
    for _o in (ObjectiveFunction.MINIMIZE_RISK, ObjectiveFunction.MAXIMIZE_UTILITY, ObjectiveFunction.MAXIMIZE_RATIO):
        _optimal(_rm, _o)


# ------------------------------------------------ risk budgeting, diversification
def _budget(rm):
    @contract("V28", f"risk budgeting, {rm.value.replace('_', ' ')}", ["skfolio.optimization.RiskBudgeting.fit"], sym=False, bnd=False, runs=8)
    def c(cx):
        n, X, mu, S, pr = _concrete(cx)
        b = cx.array("risk_budget", (n,), lo=0, run=(0.1, 2.0)).real if cx.choice("budget", ["equal", "given"]) == "given" else None
        w = _solve(RiskBudgeting(risk_measure=rm, risk_budget=None if b is None else b.copy(), prior_estimator=pr), X)
        b = np.ones(n) if b is None else b
        h = 1e-5
        d = np.array([(_risk(rm, X, mu, S, w + h * e) - _risk(rm, X, mu, S, w - h * e)) / (2 * h) for e in np.eye(n)])
        share = w * d / np.sum(w * d)
        cx.ensures("weights are positive and sum to one", bool(np.all(w > 0) and abs(w.sum() - 1) < 1e-6))
        cx.ensures("every asset contributes its budget to the risk", bool(np.allclose(share, b / b.sum(), atol=2e-2)))


for _rm in (RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION, RiskMeasure.SEMI_DEVIATION, RiskMeasure.SEMI_VARIANCE):
    _budget(_rm)


@contract("V28", "maximum diversification", ["skfolio.optimization.MaximumDiversification.fit"], sym=False, bnd=False, runs=12)
def diversification(cx):
    n, X, mu, S, pr = _concrete(cx)
    w = _solve(MaximumDiversification(prior_estimator=pr, min_weights=-0.2, max_weights=0.9), X)
    ratio = lambda v: v @ np.sqrt(np.diag(S)) / np.sqrt(v @ S @ v)
    best = ratio(w)
    cx.ensures("no neighbouring portfolio diversifies more", not [v for v in _neighbours(w, -0.2, 0.9, cx.r.np) if ratio(v) > best * (1 + 1e-4)])


@contract("V28", "objective with costs and regularisation", FIT, sym=False, bnd=False, runs=12)
def costs(cx):
    n, X, mu, S, pr = _concrete(cx)
    o = cx.choice("objective", OBJ)
    a = float(tm.numval(const(cx.real("risk_aversion", 0, run=(0.5, 4)))))
    c, f, p = (cx.array(k, (n,), lo=0, run=r).real for k, r in (("transaction_costs", (0, 0.004)), ("management_fees", (0, 0.004)), ("previous_weights", (0, 0.5))))
    l1, l2 = (0.0, 0.0) if o == ObjectiveFunction.MAXIMIZE_RATIO else (float(tm.numval(const(cx.real(k, 0, run=(0, 0.01))))) for k in ("l1_coef", "l2_coef"))
    if mu.max() < 6e-3:
        raise Discard()
    w = _solve(MeanRisk(objective_function=o, prior_estimator=pr, risk_aversion=a, min_weights=-0.2, max_weights=0.9, transaction_costs=c, management_fees=f, previous_weights=p, l1_coef=l1, l2_coef=l2), X)

    def loss(v):
        ret = mu @ v - np.abs(v - p) @ c - f @ v
        risk, reg = v @ S @ v, l1 * np.abs(v).sum() + l2 * v @ v
        if o == ObjectiveFunction.MAXIMIZE_RATIO:
            return -ret / np.sqrt(risk)
        return {"minimize_risk": risk, "maximize_return": -ret, "maximize_utility": a * risk - ret}[o.value] + reg

    best = loss(w)
    slack = 2e-4 * (abs(best) + (1e-3 if o != ObjectiveFunction.MAXIMIZE_RATIO else 0.1))
    cx.ensures("no neighbouring portfolio is better", not [v for v in _neighbours(w, -0.2, 0.9, cx.r.np) if loss(v) < best - slack])
