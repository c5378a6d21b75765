"""Run-time contracts C12, C13."""
import numpy as np
from .core import *
from ondil.information_criteria import InformationCriterion
from ondil import utils as U


def g_ic(g):
    crit = g.pick(["aic", "aicc", "bic", "hqc", "max"])
    arr = bool(g.r.random() < 0.5)
    n = float(g.r.uniform(3, 200)) if g.r.random() < 0.6 else int(g.r.integers(3, 60))
    if arr:
        k = g.size(1, 6, 20)
        p = g.r.integers(0, 12, size=k)
        ll = g.r.normal(size=k) * 50
        rss = np.exp(g.r.normal(size=k) * 2)
    else:
        p = int(g.r.integers(0, 12)) if g.r.random() < 0.7 else float(g.r.uniform(0, 9))
        ll = float(g.r.normal() * 50)
        rss = float(np.exp(g.r.normal() * 2))
    return dict(crit=crit, n=n, p=p, ll=ll, rss=rss)


def ic_spec(c, n, p, ll):
    return {"aic": lambda: -2 * ll + 2 * p, "aicc": lambda: -2 * ll + 2 * p * n / (n - p - 1),
            "bic": lambda: -2 * ll + p * np.log(n), "hqc": lambda: -2 * ll + 2 * p * np.log(np.log(n)), "max": lambda: -ll + 0 * p}[c]()


def c_ic(c):
    n, p, ll, rss = c["n"], c["p"], c["ll"], c["rss"]
    ic = InformationCriterion(n_observations=n, n_parameters=p, criterion=c["crit"])
    if c["crit"] == "aicc" and np.any(n - p - 1 == 0):
        need(raises(ValueError, lambda: ic.from_ll(ll)), "n-p-1 = 0 accepted")
        return
    if c["crit"] == "aicc" and np.any(np.abs(n - p - 1) < 1e-6):
        raise Skip
    close(ic.from_ll(ll), ic_spec(c["crit"], n, p, ll), 1e-9, what=f"{c['crit']} from log-likelihood")
    l2 = -n / 2 * np.log(rss / n) - n / 2 * (1 + np.log(2 * np.pi))
    e = ic_spec(c["crit"], n, p, l2)
    close(ic.from_rss(rss), e, 1e-8, 1e-8 * (1 + np.abs(e).max()), what=f"{c['crit']} from residual sum of squares")


def g_aicc(g):
    p = int(g.r.integers(0, 8))
    arr = bool(g.r.random() < 0.6)
    return dict(p=np.array([max(p - 1, 0), p, p + 2]) if arr else p, n=p + 1, ll=g.r.normal(size=3) if arr else 1.5)


def c_aicc(c):
    ic = InformationCriterion(n_observations=c["n"], n_parameters=c["p"], criterion="aicc")
    need(raises(ValueError, lambda: ic.from_ll(c["ll"])), "n-p-1 = 0 accepted")


def g_bad(g):
    return dict(c=g.pick(["AIC", "", "foo", "aic ", "bicc", "none", "ebic", "r2"]))


def c_bad(c):
    need(raises(ValueError, lambda: InformationCriterion(10, 2, c["c"])), f"criterion {c['c']!r} accepted")


def g_eff(g):
    return dict(forget=g.forget(), n=g.size(1, 30, 400))


def c_eff(c):
    f, n = c["forget"], c["n"]
    e = ((1 - f) ** np.arange(n)).sum()
    close(U.calculate_effective_training_length(f, n), e, 1e-6, what="effective length")


def g_mean(g):
    n0 = g.size(1, 8, 40)
    k = g.size(1, 6, 40)
    return dict(v=g.vec(n0 + k), n0=n0, forget=float(g.pick([0.0, 0.0, 0.01, 0.1, 0.3, 0.9, float(g.r.uniform(0, 0.9))])), scalar=bool(g.r.random() < 0.3))


def c_mean(c):
    v, n0, f = c["v"], c["n0"], c["forget"]
    if c["scalar"]:
        v = v[: n0 + 1]
    N = len(v)
    cp = v.copy()
    wt = lambda n: (1 - f) ** np.arange(n - 1, -1, -1)
    avg = (v[:n0] * wt(n0)).sum() / wt(n0).sum()
    exp = (v * wt(N)).sum() / wt(N).sum()
    new = v[n0:]
    got = U.online_mean_update(avg, float(new[0]) if c["scalar"] else new, f, N)
    close(got, exp, 1e-7, 1e-7 * (1 + np.abs(v).max()), "running mean")
    need(np.ndim(got) == 0, "running mean is not a scalar")
    same(cp, v, "values")


CONTRACTS = {
    "C12": [("formulas", g_ic, c_ic, 400, 6000), ("aicc_guard", g_aicc, c_aicc, 30, 200), ("unknown", g_bad, c_bad, 10, 30)],
    "C13": [("effective_length", g_eff, c_eff, 200, 3000), ("running_mean", g_mean, c_mean, 300, 5000)],
}
