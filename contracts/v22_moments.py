"""V22: moment estimators follow their definition."""

import numpy as np

from contracts._moments import given
from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from skfolio import moments as mo
from skfolio.exceptions import NonPositiveVarianceError
from skfolio.moments import ShrunkMuMethods

M = "skfolio.moments."


def pair(n, f):
    return tm.forall(n, lambda i: tm.forall(n, lambda j: f(i, j)))


def _data(cx, lo=2, distinct=False, assets=2):
    n, T = cx.dim("n_assets", assets, bnd=(2,), run=(assets, 5)), cx.dim("n_observations", lo, bnd=(lo, lo + 1), run=(lo + 1, 12))
    return n, T, cx.array("returns", (T, n), distinct=distinct)


def _window(cx, T):
    """(parameter, first observation used)"""
    if not cx.bool("windowed"):
        return None, const(0)
    if cx.mode == "BND":
        w = cx.choice("window_size", [2, 9])
    else:
        w = cx.int("window_size", 2, None, run=(2, 14))
    return w, tm.pos(const(T) - const(w))


def _mean(X, s, T, i):
    return tm.bigsum(const(T) - s, lambda t: X.get(s + t, i)) / (const(T) - s)


@contract("V22", "empirical expected returns", [M + "EmpiricalMu.fit"])
def empirical_mu(cx):
    n, T, X = _data(cx)
    w, s = _window(cx, T)
    m = cx.new(mo.EmpiricalMu, window_size=w)
    cx.method(m, "fit", X)
    mu = cx.arr(cx.get(m, "mu_"))
    cx.ensures("mean of the last observations", tm.forall(n, lambda i: tm.eq(mu.get(i), _mean(X, s, T, i))))
    cx.unmodified(X)


@contract("V22", "empirical covariance", [M + "EmpiricalCovariance.fit"])
def empirical_covariance(cx):
    n, T, X = _data(cx, 3, distinct=True, assets=1)
    w, s = _window(cx, T)
    ddof = cx.choice("ddof", [0, 1])
    cov = lambda i, j: tm.bigsum(const(T) - s, lambda t: (X.get(s + t, i) - _mean(X, s, T, i)) * (X.get(s + t, j) - _mean(X, s, T, j))) / (const(T) - s - ddof)
    m = cx.new(mo.EmpiricalCovariance, window_size=w, ddof=ddof, nearest=False)
    k, r = cx.attempt(cx.bound(m, "fit"), X)
    tiny = tm.exists(n, lambda i: tm.lt(cov(i, i), 1e-15))
    if k == "raise":
        cx.ensures("refused only for a vanishing variance", tiny)
        return
    S = cx.arr(cx.get(m, "covariance_"))
    cx.ensures("sample covariance of the last observations", pair(n, lambda i, j: tm.eq(S.get(i, j), cov(i, j))))
    cx.ensures("a vanishing variance is refused", tm.not_(tiny))
    cx.unmodified(X)


@contract("V22", "equilibrium expected returns", [M + "EquilibriumMu.fit"])
def equilibrium(cx):
    n, T, X = _data(cx)
    S = cx.array("covariance", (n, n), run=(-1, 1))
    a = cx.real("risk_aversion", run=(0.5, 3))
    w = cx.array("weights", (n,), run=(0, 1)) if cx.bool("given_weights") else None
    m = cx.new(mo.EquilibriumMu, risk_aversion=a, weights=w, covariance_estimator=given(cx, S))
    cx.method(m, "fit", X)
    mu = cx.arr(cx.get(m, "mu_"))
    wt = (lambda j: w.get(j)) if w is not None else (lambda j: 1 / const(n))
    cx.ensures("returns implied by the weights", tm.forall(n, lambda i: tm.eq(mu.get(i), const(a) * tm.bigsum(n, lambda j: S.get(i, j) * wt(j)))))
    cx.unmodified(X, S, *([w] if w is not None else []))


def _shrunk(method):
    @contract("V22", f"shrunk expected returns, {method.value.replace('_', ' ')}", [M + "ShrunkMu.fit"], tol=1e-5)
    def c(cx):
        n, T, X = _data(cx, 3, distinct=True)
        Z = cx.array("factor", (n, n), run=(-0.3, 0.3), distinct=True)
        if cx.run:
            from pyvc.values import from_numpy

            real = Z.real @ Z.real.T + 0.01 * np.eye(n)
            S = from_numpy(real)
            S.real, S.origin = real, "covariance"
            inv, eig = np.linalg.inv(real), np.linalg.eigvalsh(real)
            inv, top, tr = from_numpy(inv), const(float(eig.max())), const(float(eig.sum()))
            if n == T:
                raise Discard()
        else:
            S = Z
            inv = None
        vol = cx.bool("vol_weighted_target")
        m = cx.new(mo.ShrunkMu, covariance_estimator=given(cx, S), vol_weighted_target=vol, method=method)
        cx.method(m, "fit", X)
        mu, target = cx.arr(cx.get(m, "mu_")), cx.arr(cx.get(m, "mu_target_"))
        alpha, beta = cx.num(cx.get(m, "alpha_")), cx.num(cx.get(m, "beta_"))
        if not cx.run:
            inv = cx.arr(cx.call(np.linalg.inv, S)) if vol or method != ShrunkMuMethods.JAMES_STEIN else None
            eig = cx.arr(cx.call(np.linalg.eigvals, S))
            top, tr = cx.num(cx.call(np.max, eig)), tm.bigsum(n, eig.get)
        mean = lambda i: tm.bigsum(T, lambda t: X.get(t, i)) / const(T)
        if vol:
            want = tm.bigsum(n, lambda i: tm.bigsum(n, lambda j: inv.get(i, j)) * mean(i)) / tm.bigsum(n, lambda i: tm.bigsum(n, lambda j: inv.get(i, j)))
        else:
            want = tm.bigsum(n, mean) / const(n)
        cx.ensures("target is the mean or the volatility weighted mean", tm.forall(n, lambda i: tm.eq(target.get(i), want)))
        cx.ensures("expected returns are shrunk towards the target", tm.forall(n, lambda i: tm.eq(mu.get(i), alpha * mean(i) + beta * target.get(i))))
        N, O = const(n), const(T)
        gap = lambda i: mean(i) - target.get(i)
        form = lambda a, b: tm.bigsum(n, lambda i: tm.bigsum(n, lambda j: a(i) * inv.get(i, j) * b(j)))
        if method == ShrunkMuMethods.JAMES_STEIN:
            cx.requires(tm.lt(0, tm.bigsum(n, lambda i: gap(i) * gap(i))))
            cx.ensures("James-Stein intensity", tm.and_(tm.eq(beta, (tr - 2 * top) / tm.bigsum(n, lambda i: gap(i) * gap(i)) / O), tm.eq(alpha, 1 - beta)))
        elif method == ShrunkMuMethods.BAYES_STEIN:
            cx.ensures("Bayes-Stein intensity", tm.and_(tm.eq(beta, (N + 2) / (O * form(gap, gap) + N + 2)), tm.eq(alpha, 1 - beta)))
        else:
            u, v, w = form(mean, mean), form(mean, target.get), form(target.get, target.get)
            cx.ensures("Bodnar-Okhrin intensities", tm.and_(tm.eq(alpha, ((u - N / (O - N)) * w - v * v) / (u * w - v * v)), tm.eq(beta, (1 - alpha) * v / u)))
        cx.unmodified(X)


for _m in ShrunkMuMethods:
    _shrunk(_m)


@contract("V22", "Gerber covariance", [M + "GerberCovariance.fit"])
def gerber(cx):
    n, T, X = _data(cx, 3, distinct=True)
    c = cx.real("threshold", 0, 1, strict=True, run=(0.05, 0.95))
    psd = cx.bool("psd_variant")
    w, s = _window(cx, T)
    N = const(T) - s
    var = lambda i: tm.bigsum(N, lambda t: tm.power(X.get(s + t, i) - _mean(X, s, T, i), 2)) / N
    sd = lambda i: tm.sqrt(var(i))
    m = cx.new(mo.GerberCovariance, threshold=c, psd_variant=psd, window_size=w, nearest=False)
    k, r = cx.attempt(cx.bound(m, "fit"), X)
    if k == "raise":
        cx.ensures("refused only for a vanishing variance", isinstance(r, NonPositiveVarianceError) if cx.run else True)
        return
    S = cx.arr(cx.get(m, "covariance_"))
    up = lambda t, i: tm.ind(tm.le(const(c) * sd(i), X.get(s + t, i)))
    dn = lambda t, i: tm.ind(tm.le(X.get(s + t, i), -(const(c) * sd(i))))
    flat = lambda t, i: tm.ind(tm.and_(tm.lt(X.get(s + t, i), const(c) * sd(i)), tm.lt(-(const(c) * sd(i)), X.get(s + t, i))))
    cnt = lambda f, g, i, j: tm.bigsum(N, lambda t: f(t, i) * g(t, j))
    h = lambda i, j: cnt(up, up, i, j) + cnt(dn, dn, i, j) - cnt(up, dn, i, j) - cnt(dn, up, i, j)
    if psd:
        corr = lambda i, j: h(i, j) / (N - cnt(flat, flat, i, j))
    else:
        corr = lambda i, j: h(i, j) / (tm.sqrt(h(i, i)) * tm.sqrt(h(j, j)))
    cx.ensures("Gerber statistic times the deviations", pair(n, lambda i, j: tm.eq(S.get(i, j), corr(i, j) * sd(i) * sd(j))))
    cx.unmodified(X)


# ----------------------------------------------------------------- concrete runs
def _ok(cx, S, T=1e-10):
    cx.ensures("the covariance is symmetric", bool(np.allclose(S, S.T)))
    cx.ensures("the covariance is positive semi-definite", bool(np.linalg.eigvalsh(S).min() > -T))


@contract("V22", "exponentially weighted moments", [M + "EWMu.fit", M + "EWCovariance.fit"], sym=False, bnd=False, runs=60)
def ew(cx):
    n, T = cx.dim("n_assets", 2, run=(2, 4)), cx.dim("n_observations", 3, run=(3, 12))
    X = cx.array("returns", (T, n), distinct=True).real
    a = float(tm.numval(const(cx.real("alpha", 0, 1, strict=True, run=(0.05, 0.95)))))
    win = cx.choice("window_size", [None, 3, 6])
    mu = mo.EWMu(alpha=a, window_size=win).fit(X).mu_
    S = mo.EWCovariance(alpha=a, window_size=win, nearest=False).fit(X).covariance_
    Y = X if win is None else X[-win:]
    w = (1 - a) ** np.arange(len(Y))[::-1]
    w = w / w.sum()
    mean = w @ Y
    cov = (Y - mean).T @ ((Y - mean) * w[:, None]) / (1 - (w**2).sum())
    cx.ensures("exponentially weighted mean, the last observation weighing most", bool(np.allclose(mu, mean)))
    cx.ensures("exponentially weighted covariance", bool(np.allclose(S, cov)))


@contract("V22", "nearest covariance of every estimator", [M + k + ".fit" for k in ("EmpiricalCovariance", "EWCovariance", "GerberCovariance", "DenoiseCovariance", "DetoneCovariance", "LedoitWolf", "OAS", "ShrunkCovariance")], sym=False, bnd=False, runs=80)
def nearest(cx):
    n, T = cx.dim("n_assets", 2, run=(2, 7)), cx.dim("n_observations", 3, run=(4, 12))
    X = cx.array("returns", (T, n), distinct=True).real
    keep = X.copy()
    inner = cx.choice("inner", [None, mo.LedoitWolf()])
    plain = {
        "empirical": lambda **k: mo.EmpiricalCovariance(**k),
        "ew": lambda **k: mo.EWCovariance(**k),
        "gerber": lambda **k: mo.GerberCovariance(**k),
        "gerber non psd": lambda **k: mo.GerberCovariance(psd_variant=False, **k),
        "denoise": lambda **k: mo.DenoiseCovariance(covariance_estimator=inner, **k),
        "detone": lambda **k: mo.DetoneCovariance(covariance_estimator=inner, **k),
        "ledoit wolf": lambda **k: mo.LedoitWolf(**k),
        "oas": lambda **k: mo.OAS(**k),
        "shrunk": lambda **k: mo.ShrunkCovariance(shrinkage=0.3, **k),
    }
    which = cx.choice("estimator", list(plain))
    if np.linalg.matrix_rank(X - X.mean(axis=0)) < 2:
        raise Discard()
    try:
        raw = plain[which](nearest=False).fit(X).covariance_
        if not np.all(np.isfinite(raw)):
            raise Discard()
        S = plain[which](nearest=True, higham=False).fit(X).covariance_
    except (NonPositiveVarianceError, ValueError):
        if which == "denoise" and T <= n + 1:
            raise Discard() from None  # the density of eigenvalues needs more observations than assets
        if np.isfinite(mo.EmpiricalCovariance().fit(X).covariance_).all() and which not in ("gerber", "gerber non psd", "detone"):
            raise
        raise Discard() from None
    _ok(cx, S)
    cx.ensures("the nearest covariance keeps the variances", bool(np.allclose(np.diag(S), np.diag(raw))))
    if np.linalg.eigvalsh(raw).min() > 1e-9:
        cx.ensures("a positive definite covariance is kept", bool(np.allclose(S, raw)))
    if which in ("denoise", "detone"):
        base = (inner or mo.EmpiricalCovariance()).fit(X).covariance_
        cx.ensures("denoising and detoning keep the variances", bool(np.allclose(np.diag(S), np.diag(base))))
    import sklearn.covariance as skc

    ref = {"ledoit wolf": skc.LedoitWolf, "oas": skc.OAS, "shrunk": lambda: skc.ShrunkCovariance(shrinkage=0.3)}.get(which)
    if ref is not None:
        cx.ensures("the shrinkage estimate of scikit-learn", bool(np.allclose(raw, ref().fit(X).covariance_)))
    cx.ensures("the returns are not modified", bool(np.array_equal(X, keep)))


@contract("V22", "detoned correlation", [M + "DetoneCovariance.fit"], sym=False, bnd=False, runs=30)
def detone(cx):
    n, T = cx.dim("n_assets", 3, run=(3, 6)), cx.dim("n_observations", 8, run=(10, 20))
    X = cx.array("returns", (T, n), distinct=True).real
    k = cx.choice("n_markets", [1, 2])
    C = np.corrcoef(X.T)
    v, e = np.linalg.eigh(C)
    if np.diff(v).min() < 1e-3:
        raise Discard()
    rest = sum(v[i] * np.outer(e[:, i], e[:, i]) for i in range(n - k))
    d = np.sqrt(np.diag(rest))
    if d.min() < 1e-3:
        raise Discard()
    s = X.std(axis=0, ddof=1)
    S = mo.DetoneCovariance(n_markets=k, nearest=False).fit(X).covariance_
    cx.ensures("the largest components are removed, the others kept", bool(np.allclose(S, rest / np.outer(d, d) * np.outer(s, s))))


@contract("V22", "denoised correlation", [M + "DenoiseCovariance.fit"], sym=False, bnd=False, runs=20)
def denoise(cx):
    n, T = cx.dim("n_assets", 3, run=(3, 6)), cx.dim("n_observations", 8, run=(10, 30))
    X = cx.array("returns", (T, n), distinct=True).real
    C = np.corrcoef(X.T)
    v, e = np.linalg.eigh(C)
    S = mo.DenoiseCovariance(nearest=False).fit(X).covariance_
    s = np.sqrt(np.diag(S))
    cx.ensures("the variances are kept", bool(np.allclose(s, X.std(axis=0, ddof=1))))
    R = S / np.outer(s, s)

    def shrunk(k):
        u = v.copy()
        if k < n:
            u[: n - k] = u[: n - k].mean()
        r = (e * u) @ e.T
        d = np.sqrt(np.diag(r))
        return r / np.outer(d, d)

    cx.ensures("the smallest eigenvalues are replaced by their mean", any(np.allclose(R, shrunk(k), atol=1e-8) for k in range(n + 1)))


@contract("V22", "implied covariance", [M + "ImpliedCovariance.fit"], sym=False, bnd=False, runs=40)
def implied(cx):
    n, T = cx.dim("n_assets", 2, run=(2, 4)), cx.dim("n_observations", 60, run=(90, 105))
    X = cx.array("returns", (T, n), run=(-0.02, 0.02), distinct=True).real
    V = cx.array("implied_vol", (T, n), lo=0, strict=True, run=(0.1, 0.4), distinct=True).real
    how = cx.choice("how", ["premium", "premium per asset", "regression", "negative"])
    keep, keepX = V.copy(), X.copy()
    if how == "negative":
        V[3, 1] = -0.1
        try:
            mo.ImpliedCovariance(window_size=10).fit(X, implied_vol=V)
        except ValueError:
            cx.ensures("negative volatilities are refused", True)
            return
        cx.ensures("negative volatilities are refused", False)
    adj = {"premium": 1.2, "premium per asset": np.linspace(1.1, 1.3, n), "regression": None}[how]
    m = mo.ImpliedCovariance(volatility_risk_premium_adj=adj, window_size=10, nearest=False).fit(X, implied_vol=V)
    S = m.covariance_
    cx.ensures("the volatilities given are not modified", bool(np.array_equal(V, keep) and np.array_equal(X, keepX)))
    R = np.corrcoef(X.T)
    s = np.sqrt(np.diag(S))
    cx.ensures("correlations are those of the returns", bool(np.allclose(S, R * np.outer(s, s))))
    cx.ensures("deviations are the predicted volatilities", bool(np.allclose(s, m.pred_realised_vols_)))
    if adj is not None:
        cx.ensures("the last implied volatilities, de-annualised and adjusted", bool(np.allclose(s, V[-1] / np.sqrt(252) / adj)))
    else:
        for i in range(n):
            ends = list(range(T, 0, -10))[::-1]
            ends = [b for b in ends if b - 10 >= 0]
            rv = np.array([np.std(X[b - 10 : b, i], ddof=1) for b in ends])
            iv = np.array([V[b - 1, i] for b in ends]) / np.sqrt(252)
            A = np.column_stack([np.ones(len(ends) - 1), np.log(rv[:-1]), np.log(iv[:-1])])
            b, *_ = np.linalg.lstsq(A, np.log(rv[1:]), rcond=None)
            want = np.exp(b @ [1, np.log(rv[-1]), np.log(iv[-1])])
            cx.ensures("the volatility regressed on past and implied volatilities", bool(np.isclose(s[i], want, rtol=1e-4)))
