"""V21: prior models combine their parts as documented."""

import warnings

import numpy as np
import pandas as pd
import sklearn.base as skb

from contracts._convex import GivenPrior
from contracts._moments import GivenCovariance, GivenMu, given
from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from pyvc.values import SArr, SList, SObj, from_numpy
from skfolio import prior as sp
from skfolio.moments import EmpiricalCovariance, EmpiricalMu
from skfolio.prior import BaseLoadingMatrix, PriorModel
from skfolio.utils.equations import equations_to_matrix
from skfolio.utils.stats import cov_nearest

P = "skfolio.prior."


def pair(n, m, f):
    return tm.forall(n, lambda i: tm.forall(m, lambda j: f(i, j)))


def _model(cx, m):
    p = cx.get(m, "prior_model_")
    return (cx.arr(cx.get(p, k)) for k in ("mu", "covariance", "returns"))


def _dims(cx):
    return cx.dim("n_assets", 1, bnd=(2,), run=(2, 4)), cx.dim("n_observations", 2, bnd=(2,), run=(3, 8))


@contract("V21", "empirical prior", [P + "EmpiricalPrior.fit"])
def empirical(cx):
    n, T = _dims(cx)
    X = cx.array("returns", (T, n))
    mu, S = cx.array("mu", (n,)), cx.array("covariance", (n, n))
    m = cx.new(sp.EmpiricalPrior, mu_estimator=given(cx, mu, GivenMu), covariance_estimator=given(cx, S))
    cx.method(m, "fit", X)
    a, b, r = _model(cx, m)
    cx.ensures("expected returns of the estimator", tm.forall(n, lambda i: tm.eq(a.get(i), mu.get(i))))
    cx.ensures("covariance of the estimator", pair(n, n, lambda i, j: tm.eq(b.get(i, j), S.get(i, j))))
    cx.ensures("returns given", pair(T, n, lambda i, j: tm.eq(r.get(i, j), X.get(i, j))))
    cx.unmodified(X)


def _log_normal(cx, net):
    n, T = cx.dim("n_assets", 2, bnd=(2,), run=(2, 4)), cx.dim("n_observations", 3, bnd=(3,), run=(3, 8))
    X = cx.array("returns", (T, n), lo=-0.5, run=(-0.1, 0.1), distinct=True)
    h = cx.real("investment_horizon", 0, strict=True, run=(1, 12))
    if not cx.run:
        # the covariance of the logarithmic returns has positive variances
        cx.callee(cov_nearest, lambda it, cov, **k: cov)
    m = cx.new(sp.EmpiricalPrior, is_log_normal=True, investment_horizon=h)
    st, _ = cx.attempt(cx.bound(m, "fit"), X)
    if st == "raise":
        return
    a, b, r = _model(cx, m)
    z = lambda t, i: tm.log(X.get(t, i) + 1)
    mean = lambda i: tm.bigsum(T, lambda t: z(t, i)) / const(T)
    cov = lambda i, j: tm.bigsum(T, lambda t: (z(t, i) - mean(i)) * (z(t, j) - mean(j))) / (const(T) - 1)
    H = const(h)
    growth = lambda i: tm.exp(H * mean(i) + H * cov(i, i) / 2)
    if net:
        cx.ensures("expected linear return over the horizon", tm.forall(n, lambda i: tm.eq(a.get(i), growth(i) - 1)))
        return
    cx.ensures("expected returns are those of the log-normal law, up to a constant", pair(n, n, lambda i, j: tm.eq(a.get(i) - a.get(j), growth(i) - growth(j))))
    cx.ensures("covariance of the log-normal law over the horizon", pair(n, n, lambda i, j: tm.eq(b.get(i, j), growth(i) * growth(j) * (tm.exp(H * cov(i, j)) - 1))))
    cx.ensures("returns given", pair(T, n, lambda i, j: tm.eq(r.get(i, j), X.get(i, j))))
    cx.unmodified(X)


@contract("V21", "log-normal prior", [P + "EmpiricalPrior.fit"])
def log_normal(cx):
    _log_normal(cx, False)


@contract("V21", "log-normal prior, linear returns", [P + "EmpiricalPrior.fit"])
def log_normal_net(cx):
    _log_normal(cx, True)


class GivenLoadings(BaseLoadingMatrix):
    """loading matrix estimator with a given result"""

    def __init__(self, loadings=None, intercepts=None):
        self.loadings, self.intercepts = loadings, intercepts

    def fit(self, X, y):
        self.loading_matrix_, self.intercepts_ = self.loadings, self.intercepts
        return self


@contract("V21", "factor model", [P + "FactorModel.fit"])
def factor(cx):
    n, T = _dims(cx)
    k = cx.dim("n_factors", 1, bnd=(1, 2), run=(1, 3))
    X, y = cx.array("returns", (T, n)), cx.array("factors", (T, k))
    B, c = cx.array("loadings", (n, k), run=(-1, 1)), cx.array("intercepts", (n,))
    fm, Z = cx.array("factor_mu", (k,)), cx.array("factor_covariance", (k, k), run=(-0.5, 0.5))
    R = cx.dim("n_factor_returns", 1, bnd=(2,), run=(3, 6))
    F = cx.array("factor_returns", (R, k))
    residual = cx.bool("residual_variance")
    if cx.run:
        Z = from_numpy(Z.real @ Z.real.T + 0.1 * np.eye(int(k)))
        real = np.array([[float(tm.numval(Z.get(i, j))) for j in range(int(k))] for i in range(int(k))])
        prior = GivenPrior(model=PriorModel(mu=fm.real.copy(), covariance=real, returns=F.real.copy()))
        load = GivenLoadings(loadings=B.real.copy(), intercepts=c.real.copy())
    else:
        prior = SObj(GivenPrior, dict(model=SObj(PriorModel, dict(mu=fm, covariance=Z, returns=F, cholesky=None))))
        load = SObj(GivenLoadings, dict(loadings=B, intercepts=c))
        cx.callee(cov_nearest, lambda it, cov, **kw: cov)
    m = cx.new(sp.FactorModel, factor_prior_estimator=prior, loading_matrix_estimator=load, residual_variance=residual)
    cx.method(m, "fit", X, y)
    mu, S, r = _model(cx, m)
    cx.ensures("expected returns are loadings times factor returns plus intercepts", tm.forall(n, lambda i: tm.eq(mu.get(i), tm.bigsum(k, lambda f: B.get(i, f) * fm.get(f)) + c.get(i))))
    cx.ensures("returns are those of the factors through the loadings", tm.and_(tm.eq(r.shape[0], R), pair(R, n, lambda t, i: tm.eq(r.get(t, i), tm.bigsum(k, lambda f: B.get(i, f) * F.get(t, f)) + c.get(i)))))
    err = lambda t, i: X.get(t, i) - tm.bigsum(k, lambda f: B.get(i, f) * y.get(t, f)) - c.get(i)
    mean = lambda i: tm.bigsum(T, lambda t: err(t, i)) / const(T)
    var = lambda i: tm.bigsum(T, lambda t: tm.power(err(t, i) - mean(i), 2)) / (const(T) - 1)
    sys = lambda i, j: tm.bigsum(k, lambda f: tm.bigsum(k, lambda g: B.get(i, f) * Z.get(f, g) * B.get(j, g)))
    want = (lambda i, j: sys(i, j) + tm.ite(tm.eq(i, j), var(i), 0)) if residual else sys
    if cx.run and not residual:
        return  # singular: replaced by its nearest positive definite matrix
    cx.ensures("covariance of the factors through the loadings plus that of the residuals", pair(n, n, lambda i, j: tm.eq(S.get(i, j), want(i, j))))
    cx.unmodified(X, y)


@contract("V21", "factor of the factor covariance", [P + "FactorModel.fit"], sym=False, bnd=False, runs=30)
def cholesky(cx):
    n, k, T = cx.dim("n_assets", 2, run=(2, 5)), cx.dim("n_factors", 1, run=(1, 3)), cx.dim("n_observations", 12, run=(12, 20))
    y = cx.array("factors", (T, k), distinct=True).real
    X = y @ cx.array("loadings", (k, n), run=(-1, 1)).real + 0.3 * cx.array("noise", (T, n), distinct=True).real
    residual = cx.bool("residual_variance")
    from sklearn.linear_model import LinearRegression

    m = sp.FactorModel(loading_matrix_estimator=sp.LoadingMatrixRegression(linear_regressor=LinearRegression(fit_intercept=True)), residual_variance=residual).fit(X, y)
    p = m.prior_model_
    cx.ensures("the factor multiplied by its transpose is the covariance", bool(np.allclose(p.cholesky @ p.cholesky.T, p.covariance, atol=1e-6)))
    A = np.column_stack([np.ones(int(T)), y])
    b = np.linalg.lstsq(A, X, rcond=None)[0]
    cx.ensures("loadings and intercepts of each asset on the factors", bool(np.allclose(m.loading_matrix_estimator_.loading_matrix_, b[1:].T) and np.allclose(m.loading_matrix_estimator_.intercepts_, b[0])))
    S = b[1:].T @ np.cov(y.T).reshape(int(k), int(k)) @ b[1:] + (np.diag(np.var(X - A @ b, axis=0, ddof=1)) if residual else 0)
    cx.ensures("covariance", bool(np.allclose(p.covariance, S, atol=1e-6)))
    cx.ensures("expected returns", bool(np.allclose(p.mu, y.mean(axis=0) @ b[1:] + b[0])))


def _solve(cx, A, B):
    if not cx.run:
        return cx.arr(cx.call(np.linalg.solve, A, B))
    num = lambda M: np.array([float(tm.numval(M.get(*i))) for i in np.ndindex(*map(int, M.shape))]).reshape([int(d) for d in M.shape])
    try:
        return from_numpy(np.linalg.solve(num(A), num(B)))
    except np.linalg.LinAlgError:
        raise Discard() from None


@contract("V21", "Black-Litterman", [P + "BlackLitterman.fit"], tol=1e-5)
def black_litterman(cx):
    n, T, K = *_dims(cx), cx.dim("n_views", 1, bnd=(1, 2), run=(1, 2))
    X, mu = cx.array("returns", (T, n)), cx.array("mu", (n,))
    S = cx.array("covariance", (n, n), run=(-0.5, 0.5))
    A, v = cx.array("picking", (K, n), run=(0.1, 1)), cx.array("views", (K,))
    tau, rf = cx.real("tau", 0, strict=True, run=(0.05, 1)), cx.real("risk_free_rate", run=(-0.01, 0.01))
    c = cx.array("view_confidences", (K,), lo=0, hi=1, strict=True, run=(0.1, 0.9)) if cx.bool("given_confidences") else None
    if cx.run:
        real = S.real @ S.real.T + 0.1 * np.eye(int(n))
        S = from_numpy(real)
        names = [f"a{i}" for i in range(int(n))]
        f = lambda x: f"{float(x):.8f}"
        vs = [" + ".join(f"{f(A.real[p, i])} * {names[i]}" for i in range(int(n))) + f" == {f(v.real[p])}" for p in range(int(K))]
        prior = GivenPrior(model=PriorModel(mu=mu.real.copy(), covariance=real.copy(), returns=X.real.copy()))
        m = sp.BlackLitterman(views=vs, prior_estimator=prior, tau=float(tm.numval(const(tau))), view_confidences=None if c is None else c.real.copy(), risk_free_rate=float(tm.numval(const(rf))))
        m.fit(pd.DataFrame(X.real.copy(), columns=names))
    else:
        prior = SObj(GivenPrior, dict(model=SObj(PriorModel, dict(mu=mu, covariance=S, returns=X, cholesky=None))))
        cx.callee(equations_to_matrix, lambda it, *a, **k: SList([A, v, SList([]), SList([])], is_tuple=True))  # see V17
        m = cx.new(sp.BlackLitterman, views=["a == 0"], groups=cx.array("groups", (1, n), "U"), prior_estimator=prior, tau=tau, view_confidences=c, risk_free_rate=rf)
        cx.method(m, "fit", X)
    a, b, r = _model(cx, m)
    t = const(tau)
    SP = lambda i, p: tm.bigsum(n, lambda j: S.get(i, j) * A.get(p, j))
    doubt = (lambda p: 1 / tm.ite(tm.eq(c.get(p), 0), const(1e-16), c.get(p)) - 1) if c is not None else (lambda p: const(1))
    own = lambda p: tm.bigsum(n, lambda j: tm.bigsum(n, lambda i: t * doubt(p) * A.get(p, i) * S.get(i, j)) * A.get(p, j))
    M = SArr((K, K), lambda p, q: tm.bigsum(n, lambda i: A.get(p, i) * tm.bigsum(n, lambda j: t * S.get(i, j) * A.get(q, j))) + tm.ind(tm.eq(p, q)) * own(p))
    gap = SArr((K,), lambda p: v.get(p) - tm.bigsum(n, lambda i: A.get(p, i) * mu.get(i)))
    V = SArr((n, K), lambda i, p: t * SP(i, p))
    x = _solve(cx, M, gap)
    Y = _solve(cx, M, SArr((K, n), lambda p, i: V.get(i, p)))
    cx.ensures("expected returns move by the views, weighted by confidence", tm.forall(n, lambda i: tm.eq(a.get(i), mu.get(i) + tm.bigsum(K, lambda p: V.get(i, p) * x.get(p)) + const(rf))))
    cx.ensures("covariance of the posterior", pair(n, n, lambda i, j: tm.eq(b.get(i, j), (1 + t) * S.get(i, j) - tm.bigsum(K, lambda p: V.get(i, p) * Y.get(p, j)))))
    cx.ensures("returns of the prior", pair(T, n, lambda i, j: tm.eq(r.get(i, j), X.get(i, j))))
    cx.unmodified(X, mu, *([c] if c is not None else []))


@contract("V21", "views by name", [P + "BlackLitterman.fit"], sym=False, bnd=False, runs=50)
def views(cx):
    n, T = cx.dim("n_assets", 3, run=(3, 5)), cx.dim("n_observations", 8, run=(8, 15))
    X = pd.DataFrame(cx.array("returns", (T, n), distinct=True).real, columns=[f"a{i}" for i in range(n)])
    Z = cx.array("factor", (n, n), run=(-0.3, 0.3), distinct=True).real
    S, mu = Z @ Z.T + 0.05 * np.eye(n), cx.array("mu", (n,)).real
    tau, rf = (float(tm.numval(const(cx.real(k, 0, run=r)))) for k, r in (("tau", (0.02, 1)), ("risk_free_rate", (0, 0.01))))
    x = cx.array("levels", (3,), run=(-0.01, 0.02)).real
    vs = [f"a0 == {x[0]:.4f}", f"a1 - a2 == {x[1]:.4f}", f"0.5 * a0 + 0.5 * a2 - a1 == {x[2]:.4f}"]
    A = np.zeros((3, n))
    A[0, 0], A[1, 1], A[1, 2], A[2, 0], A[2, 2], A[2, 1] = 1, 1, -1, 0.5, 0.5, -1
    k = cx.choice("n_views", [1, 2, 3])
    vs, A, Q = vs[:k], A[:k], np.round(x[:k], 4)
    c = cx.array("view_confidences", (k,), lo=0, hi=1, run=(0, 1)).real if cx.bool("given") else None
    keep = None if c is None else c.copy()
    p = sp.BlackLitterman(views=vs, tau=tau, risk_free_rate=rf, view_confidences=c, prior_estimator=GivenPrior(model=PriorModel(mu=mu, covariance=S, returns=X.to_numpy()))).fit(X).prior_model_
    if c is not None:
        cx.ensures("the confidences given are not modified", bool(np.array_equal(c, keep)))
        use = c > 1e-6
        sure = c > 1 - 1e-6
        if sure.any():
            cx.ensures("a certain view holds for the posterior", bool(np.allclose((A @ (p.mu - rf))[sure], Q[sure], atol=1e-6)))
            return
    else:
        use = np.ones(k, dtype=bool)
    A, Q = A[use], Q[use]
    om = np.diag(A @ S @ A.T) * tau * (1 if c is None else (1 / c[use] - 1))
    if not len(A):
        cx.ensures("views without confidence change nothing", bool(np.allclose(p.mu, mu + rf, atol=1e-6)))
        return
    prec = np.linalg.inv(tau * S)
    post = np.linalg.inv(prec + A.T @ np.diag(1 / om) @ A)
    cx.ensures("Bayesian posterior of the expected returns", bool(np.allclose(p.mu, post @ (prec @ mu + A.T @ (Q / om)) + rf, atol=1e-6)))
    cx.ensures("Bayesian posterior of the covariance", bool(np.allclose(p.covariance, S + post, atol=1e-6)))


class Sampler(skb.BaseEstimator):
    """distribution that repeats the data it was fitted on"""

    def __init__(self, flat=False):
        self.flat = flat

    def fit(self, X, y=None, weights=None):
        self.X, self.weights = np.array(X), weights
        return self

    def sample(self, n_samples, shift=0.0):
        r = np.resize(self.X, (n_samples, self.X.shape[1])) + shift
        if self.flat:
            r[:, 0] = 0.01
        return r


@contract("V21", "synthetic data", [P + "SyntheticData.fit"], sym=False, bnd=False, runs=30)
def synthetic(cx):
    import sklearn as sk

    n, T = cx.dim("n_assets", 2, run=(2, 4)), cx.dim("n_observations", 6, run=(6, 12))
    X = cx.array("returns", (T, n), distinct=True).real
    k, shift, flat = cx.choice("n_samples", [5, 20]), cx.choice("shift", [None, 0.5]), cx.bool("flat")
    m = sp.SyntheticData(distribution_estimator=Sampler(flat), n_samples=k, sample_args=None if shift is None else dict(shift=shift)).fit(X)
    R = np.resize(X, (k, n)) + (shift or 0)
    if flat:
        R[:, 0] = 0.01
    p = m.prior_model_
    cx.ensures("the prior is that of the sample", bool(p.returns.shape == R.shape and np.allclose(p.returns, R, atol=2e-5) and np.allclose(p.mu, p.returns.mean(axis=0)) and np.allclose(p.covariance, np.cov(p.returns.T), atol=1e-8)))
    with sk.config_context(enable_metadata_routing=True):
        w = np.arange(T)
        m = sp.SyntheticData(distribution_estimator=Sampler().set_fit_request(weights=True), n_samples=5).fit(X, weights=w)
        cx.ensures("fit parameters reach the distribution", m.distribution_estimator_.weights is not None and bool(np.array_equal(m.distribution_estimator_.weights, w)))


@contract("V21", "refused priors", [P + "EmpiricalPrior.fit", P + "BlackLitterman.fit"], sym=False, bnd=False, runs=20)
def refused(cx):
    X = pd.DataFrame(cx.array("returns", (6, 3), distinct=True).real, columns=["a", "b", "c"])
    m = cx.choice("model", [sp.EmpiricalPrior(investment_horizon=10), sp.EmpiricalPrior(is_log_normal=True), sp.BlackLitterman(views=["a <= 0.1"]), sp.BlackLitterman(views=["a == 0.1"], view_confidences=[1.2]), sp.BlackLitterman(views=["a == 0.1"], view_confidences=[-0.2]), sp.BlackLitterman(views=["z == 0.1"]), sp.SyntheticData(distribution_estimator=EmpiricalMu())])
    try:
        m.fit(X)
        ok = False
    except Exception:
        ok = True
    cx.ensures("inconsistent parameters are refused", ok)
