"""Definitions of all portfolio measures on a sample (shared by contracts)."""

from contracts.v05_measures import avg, central, d_cum, d_cvar, d_dd, d_var, d_variance, neg, order, total
from pyvc import terms as tm
from pyvc.terms import const

PARAMS = [
    "value_at_risk_beta",
    "entropic_risk_measure_theta",
    "entropic_risk_measure_beta",
    "cvar_beta",
    "evar_beta",
    "drawdown_at_risk_beta",
    "cdar_beta",
    "edar_beta",
]


def base(name, n, f, p):
    """value of a non-annualised, non-ratio measure; p: parameters"""
    t = p["min_acceptable_return"]
    dd = d_dd(f, p["compounded"])
    ref = lambda: avg(n, f) if t is None else const(t)
    if name == "mean":
        return avg(n, f)
    if name == "mean_absolute_deviation":
        r = ref()
        return avg(n, lambda i: tm.absval(f(i) - r))
    if name == "first_lower_partial_moment":
        r = ref()
        return avg(n, lambda i: neg(f(i) - r))
    if name == "variance":
        return d_variance(n, f)
    if name == "standard_deviation":
        return tm.sqrt(d_variance(n, f))
    if name in ("semi_variance", "semi_deviation"):
        r = ref()
        v = total(n, lambda i: tm.power(neg(f(i) - r), 2)) / (const(n) - 1)
        return v if name == "semi_variance" else tm.sqrt(v)
    if name == "fourth_central_moment":
        return central(4)(n, f)
    if name == "fourth_lower_partial_moment":
        r = ref()
        return avg(n, lambda i: tm.power(neg(f(i) - r), 4))
    if name == "skew":
        return central(3)(n, f) / tm.power(tm.sqrt(d_variance(n, f)), 3)
    if name == "kurtosis":
        return central(4)(n, f) / tm.power(d_variance(n, f), 2)
    if name == "worst_realization":
        return tm.bigop("max", n, lambda i: -f(i))
    if name == "value_at_risk":
        return d_var(n, f, p["value_at_risk_beta"])
    if name == "cvar":
        return d_cvar(n, f, p["cvar_beta"])
    if name == "entropic_risk_measure":
        th = const(p["entropic_risk_measure_theta"])
        return th * tm.log(avg(n, lambda i: tm.exp(-f(i) / th)) / (1 - const(p["entropic_risk_measure_beta"])))
    if name == "max_drawdown":
        return tm.bigop("max", n, lambda i: -dd(i))
    if name == "average_drawdown":
        return avg(n, lambda i: -dd(i))
    if name == "drawdown_at_risk":
        return d_var(n, dd, p["drawdown_at_risk_beta"])
    if name == "cdar":
        return d_cvar(n, dd, p["cdar_beta"])
    if name == "ulcer_index":
        return tm.sqrt(avg(n, lambda i: tm.power(dd(i), 2)))
    if name == "gini_mean_difference":
        return 2 / (const(n) * (const(n) - 1)) * total(n, lambda i: (2 * i + 1 - n) * order(n, f, i))
    raise KeyError(name)


BASE = [
    "mean",
    "mean_absolute_deviation",
    "first_lower_partial_moment",
    "variance",
    "standard_deviation",
    "semi_variance",
    "semi_deviation",
    "fourth_central_moment",
    "fourth_lower_partial_moment",
    "skew",
    "kurtosis",
    "worst_realization",
    "value_at_risk",
    "cvar",
    "entropic_risk_measure",
    "max_drawdown",
    "average_drawdown",
    "drawdown_at_risk",
    "cdar",
    "ulcer_index",
    "gini_mean_difference",
]
ANNUAL = {"annualized_mean": 1, "annualized_variance": 1, "annualized_semi_variance": 1, "annualized_standard_deviation": 2, "annualized_semi_deviation": 2}
RATIOS = {
    "sharpe_ratio": "standard_deviation",
    "annualized_sharpe_ratio": "annualized_standard_deviation",
    "sortino_ratio": "semi_deviation",
    "annualized_sortino_ratio": "annualized_semi_deviation",
    "mean_absolute_deviation_ratio": "mean_absolute_deviation",
    "first_lower_partial_moment_ratio": "first_lower_partial_moment",
    "value_at_risk_ratio": "value_at_risk",
    "cvar_ratio": "cvar",
    "entropic_risk_measure_ratio": "entropic_risk_measure",
    "worst_realization_ratio": "worst_realization",
    "drawdown_at_risk_ratio": "drawdown_at_risk",
    "cdar_ratio": "cdar",
    "calmar_ratio": "max_drawdown",
    "average_drawdown_ratio": "average_drawdown",
    "ulcer_index_ratio": "ulcer_index",
    "gini_mean_difference_ratio": "gini_mean_difference",
}
ALL = BASE + list(ANNUAL) + list(RATIOS)


def value(name, n, f, p):
    """value of any measure for parameters p (with annualized_factor and
    risk_free_rate)"""
    if name in ANNUAL:
        a = const(p["annualized_factor"])
        return base(name[len("annualized_") :], n, f, p) * (a if ANNUAL[name] == 1 else tm.sqrt(a))
    if name in RATIOS:
        m = value("annualized_mean" if name.startswith("annualized") else "mean", n, f, p)
        return (m - const(p["risk_free_rate"])) / value(RATIOS[name], n, f, p)
    return base(name, n, f, p)


def params(cx, n):
    """symbolic portfolio settings"""
    p = {}
    for k in PARAMS:
        if k.endswith("theta"):
            p[k] = cx.real(k, 0, strict=True, run=(0.1, 3))
        else:
            p[k] = cx.real(k, 0, 1, strict=True, run=(0.05, 0.95))
            off_grid(cx, n, p[k])
    p["risk_free_rate"] = cx.real("risk_free_rate", run=(-0.01, 0.01))
    p["annualized_factor"] = cx.real("annualized_factor", 0, strict=True, run=(2, 300))
    p["compounded"] = cx.bool("compounded")
    p["min_acceptable_return"] = cx.real("min_acceptable_return", run=(-0.02, 0.02)) if cx.bool("has_min_acceptable_return") else None
    return p


def off_grid(cx, n, beta):
    from contracts.v05_measures import off_grid as g

    g(cx, n, beta)
