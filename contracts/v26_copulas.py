"""V26: copulas are distributions of which the functions agree."""

import numpy as np
import scipy.special as sp
import scipy.stats as st

from pyvc import terms as tm
from pyvc.contract import Discard, contract
from pyvc.terms import const
from pyvc.values import SArr, SObj, from_numpy
from skfolio import distribution as ds
from skfolio.distribution import CopulaRotation

D = "skfolio.distribution."
CLASSES = dict(clayton=ds.ClaytonCopula, gumbel=ds.GumbelCopula, joe=ds.JoeCopula)
LOW = dict(clayton=0, gumbel=1, joe=1)
ROT = list(CopulaRotation)


def targets(*fs, classes=CLASSES.values()):
    return [f"{D}{c.__name__}.{f}" for c in classes for f in fs]


def fitted(cx, name, theta, rotation):
    c = CLASSES[name]
    if cx.run:
        m = c()
        m.theta_, m.rotation_, m.n_features_in_ = float(tm.numval(const(theta))), rotation, 2
        return m
    return SObj(c, dict(theta_=theta, rotation_=rotation, n_features_in_=2, itau=True, kendall_tau=None, tolerance=1e-4, random_state=None))


def _points(cx, name, rotation):
    """points given by the logarithms of what the rotated copula takes powers of"""
    n = cx.dim("n_points", 1, run=(1, 4))
    if cx.run:
        X = cx.array("points", (n, 2), lo=0, run=(0.03, 0.97))
        if X.real.min() < 0.01 or X.real.max() > 0.99:
            raise Discard()
        return n, X
    tm.POSITIVE.add("minus_log")
    Y = cx.array("minus_log", (n, 2), lo=0, strict=True)
    a, b = lambda t: tm.exp(-Y.get(t, 0)), lambda t: tm.exp(-Y.get(t, 1))
    if name == "joe":
        a, b = (lambda t, f=a: 1 - f(t)), (lambda t, f=b: 1 - f(t))
    u, v = {0: (a, b), 1: (lambda t: 1 - b(t), a), 2: (lambda t: 1 - a(t), lambda t: 1 - b(t)), 3: (b, lambda t: 1 - a(t))}[ROT.index(rotation)]
    X = SArr((n, 2), lambda t, i: u(t) if i == 0 else v(t) if i == 1 else tm.ite(tm.eq(i, 0), u(t), v(t)))
    e = const(1e-9)
    cx.requires(tm.forall(n, lambda t: tm.and_(*[tm.and_(tm.le(e, X.get(t, i)), tm.le(X.get(t, i), 1 - e)) for i in (0, 1)])))
    return n, X


def _theta(cx, name):
    return cx.real("theta", LOW[name], strict=True, run=(LOW[name] + 0.1, LOW[name] + 4))


def base_cdf(name, u, v, th):
    if name == "clayton":
        return tm.rpow(tm.rpow(u, -th) + tm.rpow(v, -th) - 1, -1 / th)
    if name == "gumbel":
        return tm.exp(-tm.rpow(tm.rpow(-tm.log(u), th) + tm.rpow(-tm.log(v), th), 1 / th))
    a, b = tm.rpow(1 - u, th), tm.rpow(1 - v, th)
    return 1 - tm.rpow(a + b - a * b, 1 / th)


def rotated(name, r, u, v, th):
    """the cdf rotated by r"""
    c = lambda a, b: base_cdf(name, a, b, th)
    return {0: lambda: c(u, v), 1: lambda: v - c(v, 1 - u), 2: lambda: u + v - 1 + c(1 - u, 1 - v), 3: lambda: u - c(1 - v, u)}[ROT.index(r)]()


@contract("V26", "cumulative distribution", targets("cdf"), tol=1e-9)
def cdf(cx):
    name, r = cx.choice("copula", list(CLASSES)), cx.choice("rotation", ROT)
    n, X = _points(cx, name, r)
    th = _theta(cx, name)
    C = cx.arr(cx.method(fitted(cx, name, th, r), "cdf", X))
    cx.ensures("cdf is the documented one, rotated", tm.forall(n, lambda t: tm.eq(C.get(t), rotated(name, r, X.get(t, 0), X.get(t, 1), th))))


@contract("V26", "partial derivative", targets("partial_derivative"), tol=1e-6)
def partial(cx):
    name, r, first = cx.choice("copula", list(CLASSES)), cx.choice("rotation", ROT), cx.bool("first_margin")
    n, X = _points(cx, name, r)
    th = _theta(cx, name)
    P = cx.arr(cx.method(fitted(cx, name, th, r), "partial_derivative", X, first_margin=first))

    def want(t):
        u, v = tm.var("u", "R"), tm.var("v", "R")
        d = tm.diff(rotated(name, r, u, v, const(th)), u if first else v)
        return tm.subst(d, {"u": const(X.get(t, 0)), "v": const(X.get(t, 1))})

    cx.ensures("it is the derivative of the cdf", tm.forall(n, lambda t: tm.eq(P.get(t), want(t))))


@contract("V26", "density", targets("score_samples"), tol=1e-5)
def density(cx):
    name, r = cx.choice("copula", list(CLASSES)), cx.choice("rotation", ROT)
    n, X = _points(cx, name, r)
    th = _theta(cx, name)
    if name == "gumbel" and not cx.run:  # lemma: a norm is at least one of its components, which is at least 1e-9
        Y = [lambda t: tm.app("minus_log", (t, 0), "R"), lambda t: tm.app("minus_log", (t, 1), "R")]
        cx.requires(tm.forall(n, lambda t: tm.le(const(1e-10), tm.rpow(tm.rpow(Y[0](t), th) + tm.rpow(Y[1](t), th), 1 / th))))
    L = cx.arr(cx.method(fitted(cx, name, th, r), "score_samples", X))

    def want(t):
        u, v = tm.var("u", "R"), tm.var("v", "R")
        d = tm.diff(tm.diff(rotated(name, r, u, v, const(th)), u), v)
        return tm.subst(d, {"u": const(X.get(t, 0)), "v": const(X.get(t, 1))})

    cx.ensures("it is the logarithm of the mixed derivative of the cdf", tm.forall(n, lambda t: tm.eq(tm.exp(L.get(t)), want(t))))


# ------------------------------------------------------------ inverses
@contract("V26", "sampling inverts the partial derivative", targets("inverse_partial_derivative", classes=[ds.ClaytonCopula]), tol=1e-6)
def clayton_inverse(cx):
    r, first = cx.choice("rotation", ROT), cx.bool("first_margin")
    n, X = _points(cx, "clayton", r)
    th = _theta(cx, "clayton")
    Z = cx.arr(cx.method(fitted(cx, "clayton", th, r), "inverse_partial_derivative", X, first_margin=first))
    h = lambda x, y: tm.rpow(y, -1 - th) * tm.rpow(tm.rpow(x, -th) + tm.rpow(y, -th) - 1, -1 - 1 / th)  # derivative of the cdf in y
    p = 1 if first else 0  # column of the probability

    def back(t):
        u, v = const(X.get(t, 0)), const(X.get(t, 1))
        u, v = (u, const(Z.get(t))) if first else (const(Z.get(t)), v)
        k = ROT.index(r)
        if first:
            return [lambda: h(v, u), lambda: h(v, 1 - u), lambda: 1 - h(1 - v, 1 - u), lambda: 1 - h(1 - v, u)][k]()
        return [lambda: h(u, v), lambda: 1 - h(1 - u, v), lambda: 1 - h(1 - u, 1 - v), lambda: h(u, 1 - v)][k]()

    cx.ensures("the conditional probability of the result is the one given", tm.forall(n, lambda t: tm.eq(back(t), X.get(t, p))))


SPECIAL = {"ndtr": sp.ndtr, "ndtri": sp.ndtri, "stdtr": sp.stdtr, "stdtrit": sp.stdtrit}
OPPOSITE = {"ndtr": "ndtri", "ndtri": "ndtr", "stdtr": "stdtrit", "stdtrit": "stdtr"}


def special(name, *a):
    """distribution functions and their inverses"""
    a = [const(x) for x in a]
    v = [tm.numval(x) if x.fv or tm.atoms_of(x, lambda y: y.op == "app") else tm.evaluate(x) for x in a]
    if None not in v:
        return const(float(SPECIAL[name](*[float(x) for x in v])))
    x = a[-1]
    if x.op == "app" and x.args[0] == OPPOSITE[name] and all(p is q for p, q in zip(x.args[1:-1], a[:-1])):
        return x.args[-1]
    return tm.app(name, tuple(a), "R")


def _special(cx):
    if not cx.run:
        from pyvc.npmodel import elementwise

        for k, f in SPECIAL.items():
            cx.it.models[f] = lambda it, *a, k=k: elementwise(it, lambda *x: special(k, *x), *a)


def _elliptic(cx, c):
    _special(cx)
    n = cx.dim("n_points", 1, run=(1, 4))
    X = cx.array("points", (n, 2), run=(0.03, 0.97))
    e = const(1e-9 if not cx.run else 1e-2)
    cx.requires(tm.forall(n, lambda t: tm.and_(*[tm.and_(tm.le(e, X.get(t, i)), tm.le(X.get(t, i), 1 - e)) for i in (0, 1)])))
    rho, dof = cx.real("rho", -1, 1, strict=True, run=(-0.9, 0.9)), cx.real("dof", 2, strict=True, run=(2.1, 20))
    if cx.run:
        m = c()
        m.rho_, m.dof_, m.n_features_in_ = float(tm.numval(const(rho))), float(tm.numval(const(dof))), 2
    else:
        m = SObj(c, dict(rho_=rho, dof_=dof, n_features_in_=2, itau=True, kendall_tau=None, tolerance=1e-4, random_state=None))
    return m, n, X, const(rho), const(dof)


def conditional(c, x, y, rho, dof):
    """probability of at most x given y"""
    if c is ds.GaussianCopula:
        return special("ndtr", (special("ndtri", x) - rho * special("ndtri", y)) / tm.sqrt(1 - rho * rho))
    a, b = special("stdtrit", dof, x), special("stdtrit", dof, y)
    return special("stdtr", dof + 1, (a - rho * b) / tm.sqrt((1 - rho * rho) * (dof + b * b) / (dof + 1)))


for _c in (ds.GaussianCopula, ds.StudentTCopula):

    @contract("V26", f"conditional probability, {_c.__name__}", targets("partial_derivative", classes=[_c]), tol=1e-6)
    def _conditional(cx, c=_c):
        first = cx.bool("first_margin")
        m, n, X, rho, dof = _elliptic(cx, c)
        P = cx.arr(cx.method(m, "partial_derivative", X, first_margin=first))
        k = 1 if first else 0
        cx.ensures("it is the conditional probability of one margin given the other", tm.forall(n, lambda t: tm.eq(P.get(t), conditional(c, X.get(t, k), X.get(t, 1 - k), rho, dof))))

    @contract("V26", f"sampling, {_c.__name__}", targets("inverse_partial_derivative", classes=[_c]), tol=1e-6)
    def _sampling(cx, c=_c):
        first = cx.bool("first_margin")
        m, n, X, rho, dof = _elliptic(cx, c)
        Z = cx.arr(cx.method(m, "inverse_partial_derivative", X, first_margin=first))
        k = 1 if first else 0
        if cx.run and not all(1e-6 < float(tm.numval(const(Z.get(t)))) < 1 - 1e-6 for t in range(int(n))):
            raise Discard()
        cx.ensures("the conditional probability of the result is the one given", tm.forall(n, lambda t: tm.eq(conditional(c, Z.get(t), X.get(t, 1 - k), rho, dof), X.get(t, k))))


# ------------------------------------------------- all copulas, bounded
ALL = [ds.GaussianCopula, ds.StudentTCopula, ds.ClaytonCopula, ds.GumbelCopula, ds.JoeCopula, ds.IndependentCopula]


def _any(cx, classes=ALL):
    c = cx.choice("copula", list(range(len(classes))))
    m = classes[c]()
    m.n_features_in_ = 2
    x = float(tm.numval(const(cx.real("strength", 0, run=(0.05, 0.7)))))
    if hasattr(m, "itau"):
        m.theta_, m.rotation_ = dict(ClaytonCopula=2 * x / (1 - x)).get(classes[c].__name__, 1 / (1 - x)), ROT[cx.choice("rotation", [0, 1, 2, 3])]
        m.rho_, m.dof_ = float(np.sin(np.pi * x / 2)) * cx.choice("sign", [-1, 1]), 2.5 + 10 * x
        if not hasattr(CLASSES, m.__class__.__name__):
            for a in (("rho_", "dof_") if classes[c] in CLASSES.values() else ("theta_", "rotation_")):
                delattr(m, a)
    return m


def grid(k, lo=0.02):
    g = np.linspace(lo, 1 - lo, k)
    return np.array([(a, b) for a in g for b in g])


@contract("V26", "functions of every copula agree", targets("cdf", "partial_derivative", "inverse_partial_derivative", "score_samples", classes=ALL), sym=False, bnd=False, runs=40)
def agree(cx):
    m = _any(cx)
    X, h = grid(9, 0.06), 1e-4
    slow = isinstance(m, (ds.StudentTCopula, ds.GaussianCopula))
    C = m.cdf(X)
    tol = 5e-3 if slow else 1e-6
    cx.ensures("a cdf between the bounds of any copula", bool(np.all(C >= np.maximum(X.sum(axis=1) - 1, 0) - tol) and np.all(C <= X.min(axis=1) + tol)))
    edge = np.array([[u, 1.0] for u in (0.1, 0.5, 0.9)] + [[1.0, u] for u in (0.1, 0.5, 0.9)])
    cx.ensures("margins are uniform", bool(np.allclose(m.cdf(edge), edge.min(axis=1), atol=max(tol, 1e-4))))
    for first in (False, True):
        k = 0 if first else 1
        P = m.partial_derivative(X, first_margin=first)
        e = np.eye(2)[k] * h
        if not slow:
            cx.ensures("the partial derivative is that of the cdf", bool(np.allclose(P, (m.cdf(X + e) - m.cdf(X - e)) / (2 * h), atol=1e-4)))
        cx.ensures("it is a probability", bool(np.all(P >= 0) and np.all(P <= 1)))
        o = np.eye(2)[1 - k] * h
        dens = (m.partial_derivative(X + o, first_margin=first) - m.partial_derivative(X - o, first_margin=first)) / (2 * h)
        cx.ensures("the density is that of the conditional probability", bool(np.allclose(np.exp(m.score_samples(X)), dens, rtol=2e-3, atol=2e-3)))
        q = X.copy()
        q[:, 1 - k] = m.inverse_partial_derivative(X, first_margin=first)
        ok = (q > 1e-6).all(axis=1) & (q < 1 - 1e-6).all(axis=1)
        cx.ensures("the inverse is the inverse", bool(np.allclose(m.partial_derivative(np.clip(q, 0, 1), first_margin=first)[ok], X[ok, 1 - k], atol=1e-4)))
    if slow:
        g = (np.arange(400) + 0.5) / 400
        a, b = X[int(len(X) // 3)]
        mass = np.mean(m.partial_derivative(np.column_stack([np.full(400, a), g * b]))) * b
        cx.ensures("the cdf is the integral of the conditional probability", bool(abs(mass - m.cdf(np.array([[a, b]]))[0]) < 8e-3))


@contract("V26", "tail dependence of every copula", [f"{D}{c.__name__}.{k}" for c in ALL for k in ("lower_tail_dependence", "upper_tail_dependence")] + targets("tail_concentration", classes=ALL[2:5]), sym=False, bnd=False, runs=30)
def tails(cx):
    m = _any(cx)
    q = np.array([1e-6])
    if isinstance(m, ds.StudentTCopula):
        # both conditional probabilities of a joint extreme value
        low = sum(float(m.partial_derivative(np.array([[1e-8, 1e-8]]), first_margin=f)[0]) for f in (False, True))
        high = sum(1 - float(m.partial_derivative(np.array([[1 - 1e-8, 1 - 1e-8]]), first_margin=f)[0]) for f in (False, True))
        cx.ensures("lower tail", abs(m.lower_tail_dependence - low) < 0.02)
        cx.ensures("upper tail", abs(m.upper_tail_dependence - high) < 0.02)
        return
    if isinstance(m, ds.GaussianCopula):
        cx.ensures("lower tail", m.lower_tail_dependence == 0)
        cx.ensures("upper tail", m.upper_tail_dependence == 0)
        return
    if isinstance(m, ds.IndependentCopula):
        cx.ensures("lower tail", m.lower_tail_dependence == 0)
        cx.ensures("upper tail", m.upper_tail_dependence == 0)
        return
    th = m.theta_
    # the limits of cdf(q, q) / q of the copulas that are not rotated
    low, high = {ds.ClaytonCopula: (2 ** (-1 / th), 0), ds.GumbelCopula: (0, 2 - 2 ** (1 / th)), ds.JoeCopula: (0, 2 - 2 ** (1 / th))}[type(m)]
    low, high = [(low, high), (0, 0), (high, low), (0, 0)][ROT.index(m.rotation_)]
    cx.ensures("lower tail", bool(abs(m.lower_tail_dependence - low) < 1e-9))
    cx.ensures("upper tail", bool(abs(m.upper_tail_dependence - high) < 1e-9))
    qs = np.array([0.05, 0.3, 0.5, 0.7, 0.95])
    c = m.cdf(np.column_stack([qs, qs]))
    cx.ensures("tail concentration", bool(np.allclose(m.tail_concentration(qs), np.where(qs <= 0.5, c / qs, (1 - 2 * qs + c) / (1 - qs)))))


@contract("V26", "samples and fits of every copula", targets("fit", "sample", classes=ALL), sym=False, bnd=False, runs=30)
def fits(cx):
    m = _any(cx)
    m.random_state = cx.choice("seed", [1, 2, 3, 4])
    Z = m.sample(400)
    cx.ensures("samples are in the unit square and can be repeated", bool(Z.shape == (400, 2) and Z.min() >= 0 and Z.max() <= 1 and np.array_equal(Z, m.sample(400))))
    cx.ensures("margins of the samples are uniform", all(st.kstest(Z[:, i], "uniform").pvalue > 1e-5 for i in (0, 1)))
    p = np.array([[0.5, 0.5]])
    cx.ensures("one probability per point", np.shape(m.cdf(p)) == (1,))
    want = float(np.ravel(m.cdf(p))[0])
    cx.ensures("samples follow the cdf", abs(np.mean((Z <= 0.5).all(axis=1)) - want) < 5 * np.sqrt(0.25 / 400))
    if isinstance(m, ds.IndependentCopula):
        return
    tau = st.kendalltau(Z[:, 0], Z[:, 1]).statistic
    kw = cx.choice("method", ["tau", "likelihood", "given"])
    f = m.__class__(itau=kw != "likelihood", kendall_tau=tau if kw == "given" else None).fit(Z)
    best = f.score(Z)
    if m.__class__ in CLASSES.values():
        other = []
        for r in ROT:
            g = m.__class__(itau=True)
            g.theta_, g.rotation_, g.n_features_in_ = f.theta_, r, 2
            other.append(g.score(Z))
        cx.ensures("the rotation is the most likely", bool(best >= max(other) - 1e-9 * abs(best)))
        lo, hi = dict(ClaytonCopula=(1e-4, 50), GumbelCopula=(1.0001, 80), JoeCopula=(1.005, 20))[m.__class__.__name__]
        cx.ensures("the parameter is within its range", lo <= f.theta_ <= hi)
        t = min(abs(tau), 0.9999)
        if kw != "likelihood" and lo < f.theta_ < hi:
            if m.__class__ is ds.JoeCopula:
                k = np.arange(1, 20000)
                have = 1 - 4 * np.sum(1 / (k * (f.theta_ * k + 2) * (f.theta_ * (k - 1) + 2)))
            else:
                have = f.theta_ / (f.theta_ + 2) if m.__class__ is ds.ClaytonCopula else 1 - 1 / f.theta_
            cx.ensures("the parameter gives the rank correlation of the data", abs(have - t) < 1e-3)
    elif kw != "likelihood":
        cx.ensures("the parameter gives the rank correlation of the data", abs(2 / np.pi * np.arcsin(f.rho_) - tau) < 1e-2 or abs(f.rho_) > 0.998)
    if kw == "likelihood":
        for d in (-0.05, 0.05):
            g = m.__class__()
            g.__dict__.update({k: v for k, v in vars(f).items() if k.endswith("_")})
            k = "theta_" if hasattr(f, "theta_") else "rho_"
            v = getattr(f, k) + d
            lo, hi = dict(ClaytonCopula=(1e-4, 50), GumbelCopula=(1.0001, 80), JoeCopula=(1.005, 20)).get(m.__class__.__name__, (-0.999, 0.999))
            if lo < v < hi:
                setattr(g, k, v)
                cx.ensures("no neighbouring parameter is more likely", bool(g.score(Z) <= best + 1e-2))


# --------------------------------------------------------------- selection
@contract("V26", "selected distributions", [D + "select_bivariate_copula", D + "select_univariate_dist"] + targets("aic", "bic", classes=[ds.Gaussian, ds.ClaytonCopula]), sym=False, bnd=False, runs=20)
def selection(cx):
    rng = np.random.default_rng(int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6))))))
    bic = cx.bool("bic")
    crit = ds.SelectionCriterion.BIC if bic else ds.SelectionCriterion.AIC
    n = int(rng.integers(50, 120))
    if cx.bool("univariate"):
        X = rng.standard_t(3, (n, 1)) * 0.01 if rng.random() < 0.5 else rng.normal(0, 0.01, (n, 1))
        cands = [ds.Gaussian(), ds.StudentT()]
        got = ds.select_univariate_dist(X, distribution_candidates=cands, selection_criterion=crit)
    else:
        c = float(cx.choice("correlation", [0.1, 0.7, -0.5]))
        Z = rng.multivariate_normal([0, 0], [[1, c], [c, 1]], n)
        X = st.norm.cdf(Z)
        cands = [ds.GaussianCopula(), ds.ClaytonCopula(), ds.GumbelCopula(), ds.JoeCopula(), ds.IndependentCopula()][int(rng.integers(0, 3)) :]
        level = cx.choice("independence_level", [0.05, 1.1, 1e-300])
        p = st.kendalltau(X[:, 0], X[:, 1]).pvalue
        got = ds.select_bivariate_copula(X, copula_candidates=cands, selection_criterion=crit, independence_level=level)
        if p >= level:
            cx.ensures("independence is kept unless the data reject it", isinstance(got, ds.IndependentCopula))
            return
    fits = [type(c)().fit(X) for c in cands]
    ll = [float(np.sum(f.score_samples(X))) for f in fits]
    crits = [f.n_params * np.log(n) - 2 * v if bic else 2 * f.n_params - 2 * v for f, v in zip(fits, ll)]
    cx.ensures("criteria trade likelihood against parameters", bool(np.allclose([f.bic(X) if bic else f.aic(X) for f in fits], crits)))
    cx.ensures("the candidate of the lowest criterion is selected", type(got) is type(cands[int(np.argmin(crits))]))


UNI = [ds.Gaussian, ds.StudentT, ds.JohnsonSU, ds.NormalInverseGaussian]
SCIPY = [st.norm, st.t, st.johnsonsu, st.norminvgauss]


LAWS = [st.norm, st.t, st.johnsonsu, st.norminvgauss]


@contract("V26", "univariate distributions", targets("fit", "cdf", "ppf", "score_samples", "sample", classes=UNI), sym=False, bnd=False, runs=24)
def univariate(cx):
    rng = np.random.default_rng(int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6))))))
    k = cx.choice("distribution", [0, 1, 2, 3])
    X = (rng.standard_t(4, (150, 1)) if k else rng.normal(0, 1, (150, 1))) * 0.01 + 0.001
    fixed = cx.choice("fixed", [None, "loc", "scale"])
    m = UNI[k](random_state=3, **({} if fixed is None else {fixed: 0.002 if fixed == "loc" else 0.012})).fit(X)
    cx.ensures("given parameters are kept", fixed is None or float(getattr(m, fixed + "_")) == (0.002 if fixed == "loc" else 0.012))
    p = np.linspace(0.02, 0.98, 13)
    law = LAWS[k](*[getattr(m, x) for x in ("dof_", "a_", "b_") if hasattr(m, x)], loc=m.loc_, scale=m.scale_)
    try:
        at = law.ppf(p)
        exact = bool(np.allclose(law.cdf(at), p, atol=1e-7))
    except RuntimeError:
        exact = False
    cx.requires(const(exact))  # scipy can evaluate the law at these parameters
    cx.ensures("the law it is named after", bool(np.allclose(m.cdf(at), p, atol=1e-7) and np.allclose(m.score_samples(at.reshape(-1, 1)), law.logpdf(at), atol=1e-7)))
    x = m.ppf(p)
    cx.ensures("quantiles invert the cdf", bool(np.allclose(m.cdf(x), p, atol=1e-6)) and bool(np.all(np.diff(x) > 0)))
    h = 1e-6
    q = x.reshape(-1, 1)
    cx.ensures("the density is the derivative of the cdf", bool(np.allclose(np.exp(m.score_samples(q)), ((m.cdf(q + h) - m.cdf(q - h)) / (2 * h)).ravel(), rtol=1e-3)))
    Z = m.sample(500)
    cx.ensures("samples follow the cdf and can be repeated", Z.shape == (500, 1) and bool(np.array_equal(Z, m.sample(500))) and st.kstest(m.cdf(Z).ravel(), "uniform").pvalue > 1e-5)
    if fixed is None:
        base = float(np.sum(m.score_samples(X)))
        for a in ("loc_", "scale_"):
            v = getattr(m, a)
            for d in (-1e-3, 1e-3):
                setattr(m, a, v + d)
                cx.ensures("the fit is the most likely", bool(np.sum(m.score_samples(X)) <= base + 0.5))
            setattr(m, a, v)


# ------------------------------------------------------------------- vines
@contract("V26", "vine copulas", [D + "VineCopula.fit", D + "VineCopula.sample", D + "VineCopula.score_samples"], sym=False, bnd=False, runs=8)
def vines(cx):
    import warnings

    rng = np.random.default_rng(int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6))))))
    n = int(cx.dim("n_assets", 3, run=(3, 5)))
    R = 0.5 * np.ones((n, n)) + 0.5 * np.eye(n)
    X = rng.multivariate_normal(np.zeros(n), R, 250) * 0.01
    central = cx.choice("central_assets", [None, [0]])
    m = ds.VineCopula(random_state=2, n_jobs=1, log_transform=cx.bool("log_transform"), central_assets=central, copula_candidates=[ds.GaussianCopula(), ds.ClaytonCopula()], marginal_candidates=[ds.Gaussian()])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(X)
        Z = m.sample(1500)
    cx.ensures("as many samples as asked, with all assets", Z.shape == (1500, n) and bool(np.isfinite(Z).all()))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cx.ensures("samples can be repeated", bool(np.array_equal(Z, m.sample(1500))))
    cx.ensures("the margins are kept", bool(np.allclose(Z.mean(axis=0), X.mean(axis=0), atol=3e-3) and np.allclose(Z.std(axis=0), X.std(axis=0), rtol=0.2)))
    cx.ensures("the dependence is kept", bool(np.allclose(st.kendalltau(Z[:, 0], Z[:, 1]).statistic, st.kendalltau(X[:, 0], X[:, 1]).statistic, atol=0.12)))
    j = int(rng.integers(0, n))
    v = float(np.quantile(X[:, j], 0.1))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        W = m.sample(300, conditioning={j: v})
        L = m.sample(300, conditioning={j: (None, v)})
    cx.ensures("conditioning values are exact", bool(np.allclose(W[:, j], v, atol=1e-8)))
    cx.ensures("conditioning bounds hold", bool(np.all(L[:, j] <= v + 1e-8)))
    o = (j + 1) % n
    cx.ensures("conditioning moves the other assets", bool(W[:, o].mean() < Z[:, o].mean()))
    Y = np.log1p(X) if m.log_transform else X
    g = st.multivariate_normal(Y.mean(axis=0), np.cov(Y.T)).logpdf(Y) - (Y.sum(axis=1) if m.log_transform else 0)
    cx.ensures("the density is close to that of the data", bool(abs(np.mean(m.score_samples(X)) - g.mean()) < 0.25))


@contract("V26", "Gaussian vine copulas", [D + "VineCopula.fit", D + "VineCopula.sample", D + "VineCopula.score_samples"], sym=False, bnd=False, runs=8)
def gaussian_vines(cx):
    import warnings

    # A vine of Gaussian copulas is a multivariate Gaussian copula: its density and its conditional laws are known.
    rng = np.random.default_rng(int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6))))))
    n = int(cx.dim("n_assets", 3, run=(3, 5)))
    A = rng.normal(size=(n, n)) + np.eye(n)
    X = rng.multivariate_normal(np.zeros(n), A @ A.T + np.eye(n) / 4, 400) * 0.02
    log, central = cx.bool("log_transform"), cx.choice("central_assets", [None, [0], [1, 0]])
    m = ds.VineCopula(random_state=1, n_jobs=1, log_transform=log, central_assets=central, independence_level=1.0, max_depth=10, copula_candidates=[ds.GaussianCopula()], marginal_candidates=[ds.Gaussian()])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(X)
        big = m.sample(20000)
        to = lambda x: np.log1p(np.clip(x, -1 + 1e-12, None)) if log else x
        loc, sd = np.array([d.loc_ for d in m.marginal_distributions_]), np.array([d.scale_ for d in m.marginal_distributions_])
        norm = lambda x: (to(x) - loc) / sd
        Zb = norm(big)
        R = np.corrcoef(Zb.T)
        cx.ensures("the margins are those fitted", bool(np.allclose(Zb.mean(axis=0), 0, atol=0.06) and np.allclose(Zb.std(axis=0), 1, atol=0.06)))
        ref = st.multivariate_normal(np.zeros(n), R, allow_singular=True).logpdf(norm(X)) - np.log(sd).sum() - (to(X).sum(axis=1) if log else 0)
        cx.ensures("the density is the multivariate Gaussian one", bool(np.mean(np.abs(m.score_samples(X) - ref)) < 0.15))
        j, o = (int(k) for k in rng.permutation(n)[:2])
        c = float(rng.uniform(-1.5, 1.5))
        x = loc[j] + c * sd[j]
        x = float(np.expm1(x)) if log else float(x)
        for given in (x, np.full(20000, x)):
            W = m.sample(20000, conditioning={j: given})
            z = norm(W)
            cx.ensures("conditioning values are exact", bool(np.allclose(W[:, j], x, atol=1e-8)))
            cx.ensures("mean given another asset", bool(abs(np.median(z[:, o]) - R[j, o] * c) < 0.1))
            cx.ensures("deviation given another asset", bool(abs(z[:, o].std() - np.sqrt(1 - R[j, o] ** 2)) < 0.1))
        lo, hi = sorted(rng.uniform(-1.5, 1.5, size=2))
        a, b = loc[j] + lo * sd[j], loc[j] + hi * sd[j]
        a, b = (float(np.expm1(a)), float(np.expm1(b))) if log else (float(a), float(b))
        for bounds, law in (((a, b), st.truncnorm(lo, hi)), ((None, b), st.truncnorm(-np.inf, hi)), ((a, None), st.truncnorm(lo, np.inf))):
            z = norm(m.sample(20000, conditioning={j: bounds}))
            cx.ensures("law of an asset within bounds", bool(abs(z[:, j].mean() - law.mean()) < 0.05 and z[:, j].min() >= law.ppf(0) - 1e-6 and z[:, j].max() <= law.ppf(1) + 1e-6))
            cx.ensures("mean of another asset within bounds", bool(abs(np.median(z[:, o]) - R[j, o] * law.mean()) < 0.12))


@contract("V26", "vine copulas of uniform margins", [D + "VineCopula.fit", D + "VineCopula.sample", D + "VineCopula.score_samples"], sym=False, bnd=False, runs=6)
def uniform_vines(cx):
    import warnings

    rng = np.random.default_rng(int(tm.numval(const(cx.int("seed", 0, 10**6, run=(0, 10**6))))))
    n = int(cx.dim("n_assets", 3, run=(3, 5)))
    U = st.norm.cdf(rng.multivariate_normal(np.zeros(n), 0.6 * np.ones((n, n)) + 0.4 * np.eye(n), 300))
    m = ds.VineCopula(fit_marginals=False, random_state=1, n_jobs=1, copula_candidates=[ds.GaussianCopula(), ds.GumbelCopula()])
    j, (a, b) = int(rng.integers(n)), sorted(rng.uniform(0.05, 0.95, size=2))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(U)
        cx.ensures("uniform margins", bool(np.allclose(m.sample(5000).mean(axis=0), 0.5, atol=0.03)))
        for bounds, l, h in (((a, b), a, b), ((None, b), 0, b), ((a, None), a, 1)):
            u = m.sample(3000, conditioning={j: bounds})[:, j]
            cx.ensures("uniform within the bounds", bool(u.min() >= l and u.max() <= h and abs(u.mean() - (l + h) / 2) < 0.05))
        cx.ensures("conditioning values are exact", bool(np.allclose(m.sample(50, conditioning={j: a})[:, j], a)))
        Z = m.sample(20000)
    # probability of a box from the density and from the samples
    box = 0.2 + 0.6 * rng.uniform(size=(20000, n))
    p, q = 0.6**n * np.exp(m.score_samples(box)).mean(), np.mean(np.all((Z > 0.2) & (Z < 0.8), axis=1))
    cx.ensures("samples follow the density", bool(abs(p - q) < 0.03))
