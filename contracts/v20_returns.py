"""V20: returns of prices."""

import math

import numpy as np
import pandas as pd

from pyvc import terms as tm
from pyvc.contract import contract
from pyvc.pdmodel import Prices
from pyvc.terms import const
from skfolio.preprocessing import prices_to_returns

P = ["skfolio.preprocessing.prices_to_returns"]


def _prices(cx, name, n, T, first, gaps):
    v = cx.array(name, (T, n), lo=1, run=(1, 20), distinct=True).real
    if gaps:
        m = cx.array(name + "_missing", (T, n), run=(0, 1), distinct=True).real
        v = np.where(m < 0.15, np.nan, v)
        start = cx.int(name + "_inception", 0, T, run=(0, 3))
        v[:start, 0] = np.nan
    return pd.DataFrame(v, columns=[f"{name}{i}" for i in range(n)], index=pd.date_range("2021-03-01", periods=T + first)[first:])


def _oracle(X, y, log, threshold, join, inception, fill):
    cols = list(X.columns) + ([] if y is None else list(y.columns))
    tab = {}
    days = sorted(set(X.index) | (set() if y is None else set(y.index)))
    for d in days:
        if y is not None and ((join == "left" and d not in X.index) or (join == "right" and d not in y.index) or (join == "inner" and (d not in X.index or d not in y.index))):
            continue
        tab[d] = [float(X.at[d, c]) if c in X.columns and d in X.index else float(y.at[d, c]) if y is not None and c in y.columns and d in y.index else math.nan for c in cols]
    if threshold is not None:
        tab = {d: r for d, r in tab.items() if sum(map(math.isnan, r[: X.shape[1]])) <= threshold * X.shape[1]}
    rows = list(tab.items())
    if fill:
        last = [math.nan] * len(cols)
        for _, r in rows:
            for k in range(len(cols)):
                r[k] = last[k] if math.isnan(r[k]) else r[k]
            last = r
    test = any if inception else all
    rows = [(d, r) for d, r in rows if not test(map(math.isnan, r))]
    keep = [k for k in range(len(cols)) if any(not math.isnan(r[k]) for _, r in rows)]
    out = {}
    for (_, a), (d, b) in zip(rows, rows[1:]):
        out[d] = [math.log(b[k] / a[k]) if log else b[k] / a[k] - 1 for k in keep]
    return [cols[k] for k in keep], out


def _same(df, cols, out):
    if list(df.columns) != cols or list(df.index) != list(out):
        return False
    return bool(np.allclose(df.to_numpy(dtype=float), np.array(list(out.values()), dtype=float).reshape(len(out), len(cols)), equal_nan=True))


@contract("V20", "returns of complete prices", P)
def full(cx):
    n, T = cx.dim("n_assets", 1, run=(1, 4), bnd=(2,)), cx.dim("n_observations", 2, run=(2, 9), bnd=(2, 3))
    v = cx.array("prices", (T, n), lo=0, strict=True, run=(1, 20))
    log = cx.bool("log_returns")
    t = cx.real("nan_threshold", 0, 1, run=(0.01, 1))
    cx.requires(tm.lt(0, const(t)))
    kw = dict(log_returns=log, nan_threshold=t, drop_inceptions_nan=cx.bool("drop_inceptions_nan"), fill_nan=cx.bool("fill_nan"))
    cx.total()
    if cx.run:
        kw["nan_threshold"] = float(t)
        r = prices_to_returns(pd.DataFrame(v.real), **kw)
        shape, at = r.shape, lambda i, j: const(float(r.to_numpy()[int(tm.numval(const(i))), int(tm.numval(const(j)))]))
    else:
        r = cx.call(prices_to_returns, Prices(T, n, v.get), **kw)
        cx.ensures("no return is missing", r.pad == 0)
        shape, at = (r.n, r.k), r.fn
    cx.ensures("one return per pair of consecutive prices", tm.and_(tm.eq(shape[0], const(T) - 1), tm.eq(shape[1], n)))
    rel = lambda i, j: v.get(i + 1, j) / v.get(i, j)
    want = (lambda i, j: tm.log(rel(i, j))) if log else (lambda i, j: rel(i, j) - 1)
    cx.ensures("each return relates a price to the one before", tm.forall(const(T) - 1, lambda i: tm.forall(n, lambda j: tm.eq(at(i, j), want(i, j)))))


@contract("V20", "returns of prices", P, sym=False, bnd=False, runs=150)
def single(cx):
    n, T = cx.dim("n_assets", 1, run=(1, 4)), cx.dim("n_observations", 2, run=(2, 9))
    X = _prices(cx, "X", n, T, 0, cx.bool("gaps"))
    kw = dict(log_returns=cx.bool("log_returns"), nan_threshold=cx.choice("nan_threshold", [1, 0.5, 0.3, None]), drop_inceptions_nan=cx.bool("drop_inceptions_nan"), fill_nan=cx.bool("fill_nan"))
    keep = X.copy()
    r = prices_to_returns(X, **kw)
    cols, out = _oracle(X, None, kw["log_returns"], kw["nan_threshold"], "outer", kw["drop_inceptions_nan"], kw["fill_nan"])
    cx.ensures("each return relates consecutive kept prices of its asset", _same(r, cols, out))
    cx.ensures("the prices are not modified", X.equals(keep))


@contract("V20", "returns of prices and factors", P, sym=False, bnd=False, runs=150)
def joined(cx):
    n, T = cx.dim("n_assets", 1, run=(1, 3)), cx.dim("n_observations", 3, run=(3, 8))
    gaps = cx.bool("gaps")
    X = _prices(cx, "X", n, T, 0, gaps)
    y = _prices(cx, "y", cx.dim("n_factors", 1, run=(1, 2)), T, cx.choice("offset", [0, 1, 2]), gaps)
    join = cx.choice("join", ["outer", "left", "inner"])
    kw = dict(log_returns=cx.bool("log_returns"), drop_inceptions_nan=cx.bool("drop_inceptions_nan"), fill_nan=cx.bool("fill_nan"))
    keep, keepy = X.copy(), y.copy()
    thr = cx.choice("nan_threshold", [1, 0.5, None])
    a, b = prices_to_returns(X, y, join=join, nan_threshold=thr, **kw)
    cols, out = _oracle(X, y, kw["log_returns"], thr, join, kw["drop_inceptions_nan"], kw["fill_nan"])
    k = sum(c in X.columns for c in cols)
    cx.ensures("asset returns", _same(a, cols[:k], {d: r[:k] for d, r in out.items()}))
    cx.ensures("factor returns on the same observations", _same(b, cols[k:], {d: r[k:] for d, r in out.items()}))
    cx.ensures("the prices are not modified", X.equals(keep) and y.equals(keepy))


@contract("V20", "refused arguments", P, sym=False, bnd=False, runs=20)
def refused(cx):
    X = _prices(cx, "X", 2, 4, 0, False)
    bad = cx.choice("bad", [dict(X=X.to_numpy()), dict(X=X, y=X.to_numpy()), dict(X=X, nan_threshold=0), dict(X=X, nan_threshold=1.01), dict(X=X, nan_threshold=-0.5)])
    try:
        prices_to_returns(**bad)
        ok = False
    except (TypeError, ValueError):
        ok = True
    cx.ensures("data frames and a threshold between zero and one are required", ok)
