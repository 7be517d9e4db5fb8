"""V27: uncertainty sets measure estimation error and robust optimisations protect against it."""

import numpy as np
import scipy.linalg
import scipy.stats as st

from contracts._convex import GivenPrior, prior
from contracts.v28_optimal import _fit, _neighbours, _net, _settings, _solve, _value, dot
from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from pyvc.values import SArr, SObj, from_numpy
from skfolio import uncertainty_set as us
from skfolio.optimization import MeanRisk, ObjectiveFunction
from skfolio.prior import PriorModel
from skfolio.uncertainty_set import UncertaintySet
from skfolio.utils.bootstrap import stationary_bootstrap

U = "skfolio.uncertainty_set."


def _quantile(q, df):
    v = [tm.numval(const(x)) for x in (q, df)]
    if None not in v:
        return const(float(st.chi2.ppf(float(v[0]), float(v[1]))))
    return tm.app("chi2ppf", (const(q), const(df)), "R")


def _model(cx):
    if not cx.run:
        cx.it.models[st.chi2.ppf] = lambda it, q, df: _quantile(q, df)


def _prior(cx, T, n):
    X, mu, S = cx.array("returns", (T, n), run=(-0.05, 0.05)), cx.array("mu", (n,), run=(-0.01, 0.03)), cx.array("covariance", (n, n), run=(-0.01, 0.01))
    if cx.run:
        R = (S.real + S.real.T) / 2
        return GivenPrior(model=PriorModel(mu=mu.real.copy(), covariance=R, returns=X.real.copy())), X, mu, from_numpy(R.copy())
    half = S
    S = SArr((n, n), lambda i, j: (half.get(i, j) + half.get(j, i)) / 2)
    return SObj(GivenPrior, dict(model=SObj(PriorModel, dict(mu=mu, covariance=S, returns=X, cholesky=None)))), X, mu, S


def _set(cx, cls, X, **kw):
    m = cx.new(cls, **kw)
    cx.method(m, "fit", X)
    s = cx.get(m, "uncertainty_set_")
    return const(cx.get(s, "k")), cx.arr(cx.get(s, "sigma"))


def _radius(cx, k, q, df):
    cx.ensures("the radius covers the confidence level", tm.and_(tm.le(0, k), tm.eq(k, tm.sqrt(_quantile(q, df)))))


def _level(cx):
    return cx.real("confidence_level", 0, 1, strict=True, run=(0.5, 0.99))


@contract("V27", "error of expected returns", [U + "EmpiricalMuUncertaintySet.fit"], tol=1e-8)
def empirical_mu(cx):
    _model(cx)
    n, T = cx.dim("n_assets", 1, run=(1, 4)), cx.dim("n_observations", 1, run=(2, 6))
    p, X, mu, S = _prior(cx, T, n)
    q, d = _level(cx), cx.bool("diagonal")
    k, s = _set(cx, us.EmpiricalMuUncertaintySet, X, prior_estimator=p, confidence_level=q, diagonal=d)
    _radius(cx, k, q, n)
    cx.ensures("shape", tm.and_(tm.eq(const(s.shape[0]), const(n)), tm.eq(const(s.shape[1]), const(n))))
    cx.ensures("error is the covariance of the mean", tm.forall(n, lambda i: tm.forall(n, lambda j: tm.eq(s.get(i, j), (tm.ite(tm.eq(i, j), S.get(i, j), const(0)) if d else S.get(i, j)) / const(T)))))
    cx.unmodified(X, mu)


@contract("V27", "error of covariances", [U + "EmpiricalCovarianceUncertaintySet.fit", "skfolio.utils.stats.commutation_matrix"], bound="up to 3 assets", tol=1e-8)
def empirical_covariance(cx):
    _model(cx)
    n, T = cx.choice("n_assets", [1, 2, 3]), cx.dim("n_observations", 1, run=(2, 6))
    p, X, mu, S = _prior(cx, T, n)
    q, d = _level(cx), cx.bool("diagonal")
    k, s = _set(cx, us.EmpiricalCovarianceUncertaintySet, X, prior_estimator=p, confidence_level=q, diagonal=d)
    _radius(cx, k, q, n * n)
    c = lambda i, j: S.get(i, j) if i == j or not d else const(0)
    cx.ensures("shape", tm.and_(tm.eq(const(s.shape[0]), const(n * n)), tm.eq(const(s.shape[1]), const(n * n))))
    for i in range(n):
        for j in range(n):
            for a in range(n):
                for b in range(n):
                    want = (c(i, i) * c(j, j) + c(i, j) * c(j, i)) / const(T) if (i, j) == (a, b) else const(0)
                    cx.ensures("error is the variance of every covariance", tm.eq(s.get(j * n + i, b * n + a), want))
    cx.unmodified(X, mu)


def _samples(cx, X, T, n, B, block, seed):
    """samples: any observations of the returns"""
    if cx.run:
        return from_numpy(stationary_bootstrap(X.real, n_bootstrap_samples=int(B), block_size=block, seed=seed))
    f = cx.it.m.fresh_fn("sampled", "I")
    cx.it.m.assume(tm.forall(B, lambda b: tm.forall(T, lambda t: tm.and_(tm.le(0, f(b, t)), tm.lt(f(b, t), const(T))))))
    out = SArr((B, T, n), lambda b, t, i: X.get(f(b, t), i))

    def model(it, returns, n_bootstrap_samples, block_size=None, seed_=None, **k):
        R = cx.arr(returns)
        cx.ensures("the returns of the prior are sampled", tm.and_(tm.eq(const(R.shape[0]), const(T)), tm.eq(const(R.shape[1]), const(n)), tm.forall(T, lambda t: tm.forall(n, lambda i: tm.eq(R.get(t, i), X.get(t, i)))), tm.eq(const(n_bootstrap_samples), const(B))))
        cx.ensures("with the block size and seed given", block_size == block and k.get("seed", seed_) == seed)
        return out

    cx.callee(stationary_bootstrap, model)
    return out


def _mean(B, f):
    return tm.bigsum(B, f) / const(B)


@contract("V27", "bootstrapped error of expected returns", [U + "BootstrapMuUncertaintySet.fit"], tol=1e-8)
def bootstrap_mu(cx):
    _model(cx)
    n, T, B = cx.dim("n_assets", 1, run=(1, 4)), cx.dim("n_observations", 10, run=(10, 14)), cx.dim("n_samples", 2, run=(2, 6))
    p, X, mu, S = _prior(cx, T, n)
    q, d = _level(cx), cx.bool("diagonal")
    block, seed = cx.choice("sampling", [(None, 0), (3, 7)])
    Z = _samples(cx, X, T, n, B, block, seed)
    k, s = _set(cx, us.BootstrapMuUncertaintySet, X, prior_estimator=p, confidence_level=q, diagonal=d, n_bootstrap_samples=B, block_size=block, seed=seed)
    _radius(cx, k, q, n)
    e = lambda b, i: _mean(T, lambda t: Z.get(b, t, i))
    g = lambda b, i: e(b, i) - _mean(B, lambda a: e(a, i))
    c = lambda i, j: tm.bigsum(B, lambda b: g(b, i) * g(b, j)) / (const(B) - 1)
    cx.ensures("shape", tm.and_(tm.eq(const(s.shape[0]), const(n)), tm.eq(const(s.shape[1]), const(n))))
    cx.ensures("error is the covariance of the sampled means", tm.forall(n, lambda i: tm.forall(n, lambda j: tm.eq(s.get(i, j), tm.ite(tm.eq(i, j), c(i, j), const(0)) if d else c(i, j)))))
    cx.unmodified(X, mu)


@contract("V27", "bootstrapped error of covariances", [U + "BootstrapCovarianceUncertaintySet.fit"], sym=False, bnd=False, runs=30, tol=1e-8)
def bootstrap_covariance(cx):
    _model(cx)
    n, T, B = cx.choice("n_assets", [1, 2]), cx.dim("n_observations", 10, run=(10, 14)), cx.dim("n_samples", 2, run=(2, 6))
    p, X, mu, S = _prior(cx, T, n)
    q, d = _level(cx), cx.bool("diagonal")
    block, seed = 3, cx.choice("seed", [0, 7])
    Z = _samples(cx, X, T, n, B, block, seed)
    k, s = _set(cx, us.BootstrapCovarianceUncertaintySet, X, prior_estimator=p, confidence_level=q, diagonal=d, n_bootstrap_samples=B, block_size=block, seed=seed)
    _radius(cx, k, q, n * n)
    m = lambda b, i: _mean(T, lambda t: Z.get(b, t, i))
    v = lambda b, i, j: tm.bigsum(T, lambda t: (Z.get(b, t, i) - m(b, i)) * (Z.get(b, t, j) - m(b, j))) / (const(T) - 1)
    g = lambda b, i, j: v(b, i, j) - _mean(B, lambda a: v(a, i, j))
    cx.ensures("shape", tm.and_(tm.eq(const(s.shape[0]), const(n * n)), tm.eq(const(s.shape[1]), const(n * n))))
    for i in range(n):
        for j in range(n):
            for a in range(n):
                for b in range(n):
                    want = tm.bigsum(B, lambda z: g(z, i, j) * g(z, a, b)) / (const(B) - 1) if not d or (i, j) == (a, b) else const(0)
                    cx.ensures("error is the covariance of the sampled covariances", tm.eq(s.get(j * n + i, b * n + a), want))
    cx.unmodified(X, mu)


# ------------------------------------------------------------------ bootstrap
@contract("V27", "samples are blocks of consecutive observations", ["skfolio.utils.bootstrap.stationary_bootstrap"], sym=False, bnd=False, runs=40)
def blocks(cx):
    T, n, B = int(cx.dim("n_observations", 9, run=(9, 20))), int(cx.dim("n_assets", 1, run=(1, 3))), int(cx.dim("n_samples", 1, run=(1, 30)))
    X = cx.array("returns", (T, n)).real + np.arange(T)[:, None]  # distinct rows
    size = cx.choice("block_size", [None, 1, 1.5, 4, 1e9])
    seed = cx.choice("seed", [0, 1, 5])
    Z = stationary_bootstrap(X.copy(), n_bootstrap_samples=B, block_size=size, seed=seed)
    cx.ensures("one sample of the same size each", Z.shape == (B, T, n))
    pos = {tuple(r): i for i, r in enumerate(X)}
    ix = np.array([[pos.get(tuple(r), -1) for r in z] for z in Z])
    cx.ensures("observations are sampled whole", bool(np.all(ix >= 0)))
    follow = (ix[:, 1:] - ix[:, :-1]) % T == 1
    if size == 1e9:
        cx.ensures("a long block runs on, from the end to the start", bool(follow.all()))
    if size in (1, 1.5, 4) and follow.size > 200:
        rate = 1 - 1 / size + 1 / size / T
        cx.ensures("blocks have the length asked for on average", abs(follow.mean() - rate) < 5 * np.sqrt(0.25 / follow.size))
    cx.ensures("same seed, same samples", np.array_equal(Z, stationary_bootstrap(X.copy(), n_bootstrap_samples=B, block_size=size, seed=seed)))
    if size != 1e9 and B > 5:
        cx.ensures("other seed, other samples", not np.array_equal(Z, stationary_bootstrap(X.copy(), n_bootstrap_samples=B, block_size=size, seed=seed + 1)))


# -------------------------------------------------------- robust optimisation
class GivenMuSet(us.BaseMuUncertaintySet):
    def __init__(self, given=None, prior_estimator=None):
        self.given, self.prior_estimator = given, prior_estimator

    def fit(self, X, y=None, **fit_params):
        self.uncertainty_set_ = self.given
        return self


class GivenCovarianceSet(us.BaseCovarianceUncertaintySet):
    def __init__(self, given=None, prior_estimator=None):
        self.given, self.prior_estimator = given, prior_estimator

    def fit(self, X, y=None, **fit_params):
        self.uncertainty_set_ = self.given
        return self


FIT = ["skfolio.optimization.MeanRisk.fit"]


@contract("V27", "expected return of the worst case", FIT, tol=1e-4)
def worst_return(cx):
    n, T = cx.dim("n_assets", 2, run=(2, 4), bnd=(2,)), cx.dim("n_observations", 2, run=(5, 8), bnd=(2,))
    pr, X, mu, S = prior(cx, T, n)
    o = cx.choice("objective", list(ObjectiveFunction)[:3])
    c, f, p, l1, l2, kw = _settings(cx, n)
    a, r = cx.real("risk_aversion", 0, strict=True, run=(0.5, 3)), cx.real("radius", 0, run=(0.1, 2))
    Z = cx.array("root_of_error", (n, n), run=(-0.01, 0.01))
    if cx.run:
        M = Z.real.T @ Z.real + 1e-8 * np.eye(int(n))
        Z = from_numpy(np.linalg.cholesky(M).T.copy())
        e = GivenMuSet(given=UncertaintySet(k=float(tm.numval(const(r))), sigma=M))
    else:
        M = SArr((n, n), lambda i, j: tm.bigsum(n, lambda k: Z.get(k, i) * Z.get(k, j)))
        e = SObj(GivenMuSet, dict(prior_estimator=None, given=SObj(UncertaintySet, dict(k=r, sigma=M))))

        def root(it, A):
            A = cx.arr(A)
            cx.ensures("root of the error", tm.forall(n, lambda i: tm.forall(n, lambda j: tm.eq(A.get(i, j), M.get(i, j)))))
            return Z

        cx.it.models[scipy.linalg.sqrtm] = root
    m = cx.new(MeanRisk, objective_function=o, prior_estimator=pr, risk_aversion=a, mu_uncertainty_set_estimator=e, **kw)
    w = _fit(cx, m, X)
    ret, risk, reg, obj = [_value(cx, m, k) for k in ("expected_return", "risk", "regularization", "objective")]
    error = r * tm.sqrt(tm.bigsum(n, lambda k: tm.power(tm.bigsum(n, lambda i: Z.get(k, i) * w.get(i)), 2)))
    cx.ensures("expected return is that of the worst case of the set", tm.eq(ret, _net(n, mu, w, c, f, p) - error))
    want = {"minimize_risk": risk + reg, "maximize_return": ret - reg, "maximize_utility": ret - a * risk - reg}[o.value]
    cx.ensures("the objective uses the worst case", tm.eq(obj, want))


def _given(cx):
    n = int(cx.dim("n_assets", 2, run=(2, 4)))
    rng = np.random.default_rng(int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6))))))
    X = rng.normal(0.002, 0.02, (40, n))
    mu, S = np.abs(X.mean(axis=0)) + 2e-3, np.cov(X.T) + 1e-5 * np.eye(n)
    return n, rng, X, mu, S, GivenPrior(model=PriorModel(mu=mu, covariance=S, returns=X))


def _better(cx, w, loss, ratio=False):
    best = loss(w)
    slack = 5e-4 * (abs(best) + (0.1 if ratio else 1e-4))
    cx.ensures("no neighbouring portfolio has a better worst case", not [v for v in _neighbours(w, 0.0, 1.0, cx.r.np) if loss(v) < best - slack])


@contract("V27", "optimality of the worst case", FIT, sym=False, bnd=False, runs=24)
def optimal_mu(cx):
    n, rng, X, mu, S, pr = _given(cx)
    Z = rng.normal(0, 1e-3, (n, n))
    E, k = Z @ Z.T + 1e-8 * np.eye(n), rng.uniform(0.2, 1.0)
    o = cx.choice("objective", list(ObjectiveFunction)[1:])
    w = _solve(MeanRisk(objective_function=o, prior_estimator=pr, risk_aversion=2.0, mu_uncertainty_set_estimator=GivenMuSet(given=UncertaintySet(k=k, sigma=E))), X)
    ret = lambda v: mu @ v - k * np.sqrt(v @ E @ v)
    if ret(w) < 5e-4:
        raise Discard()
    loss = dict(maximize_return=lambda v: -ret(v), maximize_utility=lambda v: 2 * v @ S @ v - ret(v), maximize_ratio=lambda v: -ret(v) / np.sqrt(v @ S @ v))[o.value]
    _better(cx, w, loss, o == ObjectiveFunction.MAXIMIZE_RATIO)


@contract("V27", "optimality of the worst variance", FIT, sym=False, bnd=False, runs=16)
def optimal_variance(cx):
    n, rng, X, mu, S, pr = _given(cx)
    E, k = np.diag(np.outer(np.diag(S), np.diag(S)).ravel()) * rng.uniform(0.5, 1, (n * n,))[:, None], rng.uniform(0.05, 0.2)
    E = np.diag(np.diag(E))
    o = cx.choice("objective", [ObjectiveFunction.MINIMIZE_RISK, ObjectiveFunction.MAXIMIZE_UTILITY])
    m = MeanRisk(objective_function=o, prior_estimator=pr, risk_aversion=2.0, covariance_uncertainty_set_estimator=GivenCovarianceSet(given=UncertaintySet(k=k, sigma=E)))
    w = _solve(m, X)

    def risk(v):
        z = np.outer(v, v).ravel(order="F")
        return v @ S @ v + k * np.sqrt(z @ E @ z)

    cx.ensures("reported risk is the worst variance of the set", bool(np.isclose(m.problem_values_["risk"], risk(w), rtol=1e-2, atol=1e-7)))
    _better(cx, w, dict(minimize_risk=risk, maximize_utility=lambda v: 2 * risk(v) - mu @ v)[o.value])
