"""V08: arithmetic on portfolios acts on the weights and keeps everything else."""

import numpy as np

from contracts import _measures as ms
from contracts.v04_portfolio import cost_like
from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.terms import const
from skfolio import PerfMeasure, RatioMeasure, RiskMeasure
from skfolio.portfolio import MultiPeriodPortfolio, Portfolio

P = "skfolio.portfolio.Portfolio."
M = "skfolio.portfolio.MultiPeriodPortfolio."
KEPT = [*ms.PARAMS, "risk_free_rate", "annualized_factor", "min_acceptable_return"]


def settings(cx, tag):
    """settings away from their default"""
    out = {}
    for k in KEPT:
        if k == "annualized_factor":
            out[k] = cx.real(f"{k}_{tag}", 0, strict=True, run=(2, 300))
        elif k.endswith("theta"):
            out[k] = cx.real(f"{k}_{tag}", 0, strict=True, run=(0.1, 3))
        elif k in ("risk_free_rate", "min_acceptable_return"):
            out[k] = cx.real(f"{k}_{tag}", run=(-0.02, 0.02))
        else:
            out[k] = cx.real(f"{k}_{tag}", 0, 1, strict=True, run=(0.05, 0.95))
    return out


def build(cx, tag, n, m, X, weights, shared=None):
    if shared is None:
        shared = settings(cx, tag)
        shared["compounded"] = cx.bool("compounded")
        shared["fitness_measures"] = [PerfMeasure.MEAN, RiskMeasure.CDAR]
        if cx.bool("has_previous_weights"):
            shared["previous_weights"] = cx.array("previous_weights", (m,), run=(-1, 1))
        shared["transaction_costs"], shared["_c"] = cost_like(cx, "transaction_costs", m)
        shared["management_fees"], shared["_f"] = cost_like(cx, "management_fees", m)
    p = cx.new(Portfolio, X=X, weights=weights, name="name " + tag, tag="tag " + tag, **{k: v for k, v in shared.items() if k[0] != "_"})
    return p, shared


def check(cx, q, n, m, X, want, s, cls=Portfolio):
    """q is the portfolio of weights want(j) with the settings s"""
    w = cx.arr(cx.get(q, "weights"))
    cx.ensures("weights of the result", tm.forall(m, lambda j: tm.eq(w.get(j), want(j))))
    r = cx.arr(cx.get(q, "returns"))
    a = s.get("previous_weights")
    pw = a.get if a is not None else lambda j: tm.ZERO
    cost = tm.bigsum(m, lambda j: s["_c"](j) * tm.absval(pw(j) - want(j)))
    fee = tm.bigsum(m, lambda j: s["_f"](j) * want(j))
    cx.ensures("one return per observation", tm.eq(r.shape[0], n))
    cx.ensures("returns of the result are those of its weights, net of costs and fees", tm.forall(n, lambda t: tm.eq(r.get(t), tm.bigsum(m, lambda j: X.get(t, j) * want(j)) - cost - fee)))
    for k in KEPT:
        cx.ensures(f"{k} is kept", tm.eq(cx.num(cx.get(q, k)), const(s[k])))
    cx.ensures("compounding is kept", const(bool(tm.evaluate(cx.num(cx.get(q, "compounded")))) == s["compounded"]))
    cx.ensures("fitness measures are kept", const(list(cx.items(cx.get(q, "fitness_measures"))) == s["fitness_measures"]))


OPS = {
    "negation": ("__neg__", lambda cx: (), lambda a: lambda x: -x),
    "absolute value": ("__abs__", lambda cx: (), lambda a: tm.absval),
    "multiplication": ("__mul__", lambda cx: (cx.real("factor", run=(-3, 3)),), lambda a: lambda x: x * const(a[0])),
    "right multiplication": ("__rmul__", lambda cx: (cx.real("factor", run=(-3, 3)),), lambda a: lambda x: x * const(a[0])),
    "division": ("__truediv__", lambda cx: (cx.real("factor", 0, strict=True, run=(0.2, 3)),), lambda a: lambda x: tm.div(x, const(a[0]))),
    "floor division": ("__floordiv__", lambda cx: (cx.real("factor", 0, strict=True, run=(0.2, 3)),), lambda a: lambda x: tm.floor(tm.div(x, const(a[0])))),
}


def _unary(name):
    meth, mk, f = OPS[name]

    @contract("V08", f"{name} of a portfolio", P + meth)
    def unary(cx):
        n = cx.dim("n_observations", 1, run=(2, 5), bnd=(2,))
        m = cx.dim("n_assets", 1, run=(1, 4), bnd=(2,))
        X = cx.array("X", (n, m))
        w = cx.array("weights", (m,), run=(-1, 1))
        p, s = build(cx, "p", n, m, X, w)
        a = mk(cx)
        if name == "floor division" and cx.run:
            q = tm.div(const(1), const(a[0]))
            cx.requires(*[tm.lt(const(1e-6), tm.absval(w.get(j) * q - tm.floor(w.get(j) * q + Fr(1, 2)))) for j in range(m)])
        cx.total()
        q = cx.method(p, meth, *a)
        g = f(a)
        check(cx, q, n, m, X, lambda j: g(w.get(j)), s)
        cx.ensures("name and tag are kept", const(cx.get(q, "name") == "name p" and cx.get(q, "tag") == "tag p"))
        before = cx.arr(cx.get(p, "weights"))
        cx.ensures("the operand is unchanged", tm.forall(m, lambda j: tm.eq(before.get(j), w.get(j))))


from fractions import Fraction as Fr  # noqa: E402

for _n in OPS:
    _unary(_n)


def _binary(name, meth, f):
    @contract("V08", f"{name} of portfolios", P + meth)
    def binary(cx):
        n = cx.dim("n_observations", 1, run=(2, 5), bnd=(2,))
        m = cx.dim("n_assets", 1, run=(1, 4), bnd=(2,))
        X = cx.array("X", (n, m))
        w = cx.array("weights", (m,), run=(-1, 1))
        v = cx.array("other_weights", (m,), run=(-1, 1))
        p, s = build(cx, "p", n, m, X, w)
        o, _ = build(cx, "o", n, m, X, v, s)
        cx.total()
        q = cx.method(p, meth, o)
        check(cx, q, n, m, X, lambda j: f(w.get(j), v.get(j)), s)
        cx.ensures("name and tag are those of the left operand", const(cx.get(q, "name") == "name p" and cx.get(q, "tag") == "tag p"))
        for a, b in ((p, w), (o, v)):
            c = cx.arr(cx.get(a, "weights"))
            cx.ensures("operands are unchanged", tm.forall(m, lambda j: tm.eq(c.get(j), b.get(j))))

    @contract("V08", f"{name} of portfolios with different settings is refused", P + meth)
    def mismatch(cx):
        n = cx.dim("n_observations", 1, run=(2, 5), bnd=(2,))
        m = cx.dim("n_assets", 1, run=(1, 4), bnd=(2,))
        X = cx.array("X", (n, m))
        w = cx.array("weights", (m,), run=(-1, 1))
        v = cx.array("other_weights", (m,), run=(-1, 1))
        k = cx.choice("setting", [*KEPT, "compounded", "fitness_measures", "transaction_costs", "management_fees", "previous_weights", "costs of each asset", "X"])
        base = dict(min_acceptable_return=cx.real("target", run=(-0.02, 0.02)))
        other = dict(base)
        X2 = X
        if k == "compounded":
            other[k] = True
        elif k == "fitness_measures":
            base[k] = [PerfMeasure.MEAN, RiskMeasure.CDAR]
            other[k] = [PerfMeasure.MEAN, RiskMeasure.CVAR]
        elif k == "X":
            X2 = cx.array("X2", (n, m))
            cx.requires(tm.exists(n, lambda i: tm.exists(m, lambda j: tm.ne(X.get(i, j), X2.get(i, j)))))
        elif k in ("previous_weights", "costs of each asset"):
            a, b = cx.array("a_each", (m,), lo=0, run=(0, 1)), cx.array("b_each", (m,), lo=0, run=(0, 1))
            cx.requires(tm.exists(m, lambda j: tm.ne(a.get(j), b.get(j))))
            k = "transaction_costs" if k != "previous_weights" else k
            base[k], other[k] = a, b
        else:
            hi = 1 if k.endswith("beta") else None
            a, b = cx.real("a", 0, hi, strict=True, run=(0.1, 0.4)), cx.real("b", 0, hi, strict=True, run=(0.5, 0.9))
            cx.requires(tm.ne(const(a), const(b)))
            base[k], other[k] = a, b
        p = cx.new(Portfolio, X=X, weights=w, **base)
        o = cx.new(Portfolio, X=X2, weights=v, **other)
        kind, val = cx.attempt(p.__getattribute__(meth), o) if cx.run else cx.attempt(cx.it.getattr(p, meth), o)
        cx.ensures("an error is raised", const(kind == "raise" and isinstance(val, ValueError)))


_binary("sum", "__add__", lambda a, b: a + b)
_binary("difference", "__sub__", lambda a, b: a - b)


PERIODS = dict(name="periods", risk_free_rate=0.25, annualized_factor=12, compounded=True, min_acceptable_return=0.5, value_at_risk_beta=0.75, cvar_beta=0.5, cdar_beta=0.75, check_observations_order=False)


def _multi(name):
    meth, mk, f = OPS[name]

    @contract("V08", f"{name} of a multi-period portfolio", M + meth, cost=3, bnd_budget=60)
    def multi(cx):
        k = cx.choice("n_portfolios", [1, 2, 3])
        n = cx.dim("n_observations", 1, run=(1, 4), bnd=(2,))
        m = cx.dim("n_assets", 1, run=(1, 3), bnd=(2,))
        ps, ws, Xs = [], [], []
        for i in range(k):
            X = cx.array(f"X{i}", (n, m))
            w = cx.array(f"weights{i}", (m,), run=(-1, 1))
            ps.append(cx.new(Portfolio, X=X, weights=w, name=f"p{i}"))
            ws.append(w)
            Xs.append(X)
        mp = cx.new(MultiPeriodPortfolio, portfolios=ps, tag="tag", fitness_measures=[PerfMeasure.MEAN, RiskMeasure.CDAR], **PERIODS)
        a = mk(cx)
        each = len(a) > 0 and meth in ("__mul__", "__truediv__") and cx.bool("one_factor_per_period")
        fs = [a] * k
        if each:
            fs = [(cx.real(f"factor{i}", 0, strict=True, run=(0.2, 3)),) for i in range(k)]
            a = ([x[0] for x in fs],)
        if name == "floor division" and cx.run:
            q = tm.div(const(1), const(a[0]))
            cx.requires(*[tm.lt(const(1e-6), tm.absval(w.get(j) * q - tm.floor(w.get(j) * q + Fr(1, 2)))) for w in ws for j in range(m)])
        cx.total()
        q = cx.method(mp, meth, *a)
        out = cx.items(cx.get(q, "portfolios"))
        cx.ensures("one result per period", const(len(out) == k))
        r = cx.arr(cx.get(q, "returns"))
        cx.ensures("returns are those of the periods in order", tm.eq(r.shape[0], const(n) * k))
        for i in range(k):
            g = f(fs[i])
            w = cx.arr(cx.get(out[i], "weights"))
            cx.ensures("the operation acts on the weights of each period", tm.forall(m, lambda j: tm.eq(w.get(j), g(ws[i].get(j)))))
            cx.ensures("returns of each period", tm.forall(n, lambda t: tm.eq(r.get(const(n) * i + t), tm.bigsum(m, lambda j: Xs[i].get(t, j) * g(ws[i].get(j))))))
        cx.ensures("tag and fitness measures are kept", const(cx.get(q, "tag") == "tag" and list(cx.items(cx.get(q, "fitness_measures"))) == [PerfMeasure.MEAN, RiskMeasure.CDAR]))
        cx.ensures("settings are kept", const(all(cx.get(q, x) == v for x, v in PERIODS.items())))


for _n in OPS:
    _multi(_n)


def _multi2(name, meth, f):
    @contract("V08", f"{name} of multi-period portfolios", M + meth, cost=3)
    def multi(cx):
        k = cx.choice("n_portfolios", [1, 2])
        n = cx.dim("n_observations", 1, run=(1, 4), bnd=(2,))
        m = cx.dim("n_assets", 1, run=(1, 3), bnd=(2,))
        ps, qs, ws, vs, Xs = [], [], [], [], []
        for i in range(k):
            X = cx.array(f"X{i}", (n, m))
            w = cx.array(f"weights{i}", (m,), run=(-1, 1))
            v = cx.array(f"other{i}", (m,), run=(-1, 1))
            ps.append(cx.new(Portfolio, X=X, weights=w))
            qs.append(cx.new(Portfolio, X=X, weights=v))
            ws.append(w)
            vs.append(v)
            Xs.append(X)
        a = cx.new(MultiPeriodPortfolio, portfolios=ps, tag="tag", **PERIODS)
        b = cx.new(MultiPeriodPortfolio, portfolios=qs)
        cx.total()
        q = cx.method(a, meth, b)
        out = cx.items(cx.get(q, "portfolios"))
        cx.ensures("one result per period", const(len(out) == k))
        cx.ensures("settings are kept", const(all(cx.get(q, x) == v for x, v in PERIODS.items())))
        r = cx.arr(cx.get(q, "returns"))
        for i in range(k):
            w = cx.arr(cx.get(out[i], "weights"))
            cx.ensures("the operation acts period by period", tm.forall(m, lambda j: tm.eq(w.get(j), f(ws[i].get(j), vs[i].get(j)))))
            cx.ensures("returns of each period", tm.forall(n, lambda t: tm.eq(r.get(const(n) * i + t), tm.bigsum(m, lambda j: Xs[i].get(t, j) * f(ws[i].get(j), vs[i].get(j))))))


_multi2("sum", "__add__", lambda a, b: a + b)
_multi2("difference", "__sub__", lambda a, b: a - b)
