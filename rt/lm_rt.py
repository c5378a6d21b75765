"""Run-time contracts C14, C15 (linear model)."""
import numpy as np
from .core import *
from ondil.estimators import OnlineLinearModel, OnlineLasso
from ondil.methods import LassoPath, ElasticNetPath, OrdinaryLeastSquares, Ridge


def design(X, icpt):
    return np.column_stack([np.ones(len(X)), X]) if icpt else X.copy()


def fvec(f, n):
    return (1.0 - f) ** np.arange(n - 1, -1, -1)


def g_hist(g, minw=True):
    J = g.size(1, 4, 8)
    n0 = J + 3 + g.size(1, 10, 40)
    parts = [n0] + [g.size(1, 6, 30) for _ in range(int(g.r.integers(1, 4)))]
    N = sum(parts)
    X = g.r.normal(size=(N, J)) * g.pick([1.0, 2.0])
    if g.r.random() < 0.3:
        X = X + g.r.normal(size=J) * 3
    w = g.pick([None, g.r.uniform(0.3, 3, N), g.r.integers(1, 4, N).astype(float)])
    if w is not None and g.r.random() < 0.3:
        w[n0:][g.r.random(N - n0) < 0.4] = 0.0
        w[np.cumsum(parts) - 1] = 1.0
    b = g.r.normal(size=J) * (g.r.random(J) < 0.7)
    y = X @ b + g.r.normal(size=N) * g.pick([0.3, 1.0]) + g.r.normal()
    fg = float(g.pick([0.0, 0.0, 0.01, 0.05, 0.1, 0.2] + [f for f in g.lits.floats if 0 <= f < 0.25]))
    return dict(X=X, y=y, w=w, forget=fg, parts=parts, icpt=bool(g.r.random() < 0.7))


def g_ols(g):
    c = g_hist(g)
    c["m"] = g.pick(["ols", "obj"])
    J = c["X"].shape[1]
    c["scale"] = g.pick([False, False, True, np.arange(0, J, 2), np.arange(J) % 2 == 0])
    return c


class Moments:
    """Discounted weighted moments of all rows seen (C05)."""

    def __init__(self, sel, J):
        self.off = sel is False
        self.sel = np.arange(J) if sel is True else (np.arange(J)[sel] if not self.off else None)

    def scale(self, X, w, f, Z):
        if self.off:
            return Z.copy()
        e = w * fvec(f, len(X))
        m = (e[:, None] * X).sum(0) / e.sum()
        v = (e[:, None] * (X - m) ** 2).sum(0) / e.sum()
        out = Z.copy()
        out[:, self.sel] = (Z[:, self.sel] - m[self.sel]) / np.sqrt(v[self.sel])
        return out


def c_ols(c):
    X, y, w, fg = c["X"], c["y"], c["w"], c["forget"]
    N = len(y)
    ww = np.ones(N) if w is None else w
    kw = lambda s: {} if w is None else {"sample_weight": w[s]}
    cp = [None if a is None else a.copy() for a in (X, y, w)]
    sc = c.get("scale", False)
    mom, rows = Moments(sc, X.shape[1]), []
    m = OnlineLinearModel(forget=fg, scale_inputs=sc, fit_intercept=c["icpt"], method="ols" if c["m"] == "ols" else OrdinaryLeastSquares())
    n = 0
    for k, b in enumerate(c["parts"]):
        s = slice(n, n + b)
        (m.fit if k == 0 else m.update)(X[s], y[s], **kw(s))
        n += b
        rows.append(mom.scale(X[:n], ww[:n], fg, X[s]))
        D = design(np.vstack(rows), c["icpt"])
        f = fvec(fg, n) * ww[:n]
        A = (D * f[:, None]).T @ D
        r = (D * f[:, None]).T @ y[:n]
        if np.linalg.cond(A) > 1e8:
            raise Skip
        ref = np.linalg.solve(A, r)
        close(m.coef_, ref, 1e-6, 1e-7 * (1 + np.abs(ref).max()), f"coefficients after {k} updates")
        close(m.n_observations_, ww[:n].sum(), 1e-9, None, "observation count")
        no = ww[:n].sum()
        close(m.n_training_, no if fg == 0 else (1 - (1 - fg) ** no) / fg, 1e-9, None, "effective length")
        Xn = X[:3] * 1.5 - 0.3
        x0 = Xn.copy()
        close(m.predict(Xn), design(mom.scale(X[:n], ww[:n], fg, Xn), c["icpt"]) @ m.coef_, 1e-7, 1e-7 * (1 + np.abs(Xn).max() * np.abs(ref).max()), "predictions")
        same(x0, Xn, "the data passed to predict")
    for a, b_, nm in zip(cp, (X, y, w), ("X", "y", "sample_weight")):
        if a is not None:
            same(a, b_, nm)


def g_path(g):
    c = g_hist(g)
    c["ic"] = g.pick(["aic", "bic", "hqc", "max"])
    c["m"] = g.pick(["lasso", "enet", "string", "OnlineLasso"])
    c["n"] = int(g.pick([5, 12, 30]))
    c["scale"] = bool(g.r.random() < 0.5)
    c["regint"] = bool(g.r.random() < 0.2) and c["icpt"]
    c["start"] = g.pick(["previous_fit", "previous_lambda", "average"])
    return c


def crit(rss, p, n, ic):
    ll = -n / 2 * (np.log(rss / n) + 1 + np.log(2 * np.pi))
    return {"aic": -2 * ll + 2 * p, "bic": -2 * ll + p * np.log(n), "hqc": -2 * ll + 2 * p * np.log(np.log(n)), "max": -ll}[ic]


def c_path(c):
    X, y, w, fg = c["X"], c["y"], c["w"], c["forget"]
    N = len(y)
    ww = np.ones(N) if w is None else w
    kw = lambda s: {} if w is None else {"sample_weight": w[s]}
    if c["m"] == "OnlineLasso":
        m = OnlineLasso(forget=fg, scale_inputs=c["scale"], fit_intercept=c["icpt"], regularize_intercept=c["regint"], ic=c["ic"],
                        lambda_n=c["n"], start_value=c["start"])
    else:
        meth = {"lasso": lambda: LassoPath(lambda_n=c["n"], start_value_update=c["start"]),
                "enet": lambda: ElasticNetPath(alpha=0.6, lambda_n=c["n"], start_value_update=c["start"]),
                "string": lambda: "lasso"}[c["m"]]()
        m = OnlineLinearModel(forget=fg, scale_inputs=c["scale"], fit_intercept=c["icpt"], regularize_intercept=c["regint"], ic=c["ic"], method=meth)
    n = 0
    rss = None
    for k, b in enumerate(c["parts"]):
        s = slice(n, n + b)
        (m.fit if k == 0 else m.update)(X[s], y[s], **kw(s))
        n += b
        P = np.asarray(m.coef_path_)
        need(P.shape == (c["n"] if c["m"] != "string" else 100, X.shape[1] + c["icpt"]), f"path shape {P.shape}")
        fit = m.predict_path(X[s])
        Z = X[s]
        if c["scale"]:
            fw = fvec(fg, n) * ww[:n]
            mu = fw @ X[:n] / fw.sum()
            Z = (Z - mu) / np.sqrt(fw @ (X[:n] - mu) ** 2 / fw.sum())
        D = design(Z, c["icpt"])
        close(fit, D @ P.T, 1e-6, 1e-7 * (1 + np.abs(fit).max()), "path predictions")
        f = fvec(fg, b) * ww[s]
        new = np.sum(f[:, None] * (y[s][:, None] - fit) ** 2, axis=0)
        rss = new if k == 0 else (1 - fg) ** b * rss + new
        no = ww[:n].sum()
        nt = no if fg == 0 else (1 - (1 - fg) ** no) / fg
        p = np.sum(~np.isclose(P, 0), axis=1)
        cr = crit(rss, p, nt, c["ic"])
        if not np.isfinite(cr).all():
            raise Skip
        coef = np.asarray(m.coef_)
        rows = np.flatnonzero((np.abs(P - coef[None, :]) <= 1e-12 * (1 + np.abs(coef))).all(axis=1))
        need(len(rows) > 0, "coefficients are not a row of the path")
        tol = 1e-7 * (1 + np.abs(cr).max())
        need(cr[rows].min() <= cr.min() + tol, f"selected row {rows[0]} has criterion {cr[rows].min()!r}, the best row {int(np.argmin(cr))} has {cr.min()!r} (criterion {c['ic']}, after {k} updates)")
        close(m.predict(X[s]), fit[:, rows[0]], 1e-9, 1e-9 * (1 + np.abs(fit).max()), "predictions of the selected row")
        if fg > 0.0 or True:
            # the regularised columns: the largest strength of a lasso path leaves only unregularised coefficients
            if k == 0 and c["m"] in ("lasso", "OnlineLasso"):
                nz = np.abs(P[0]) > 1e-8 * (1 + np.abs(P).max())
                need(not nz[1 if (c["icpt"] and not c["regint"]) else 0:].any(), "regularised coefficient non-zero at the largest strength")


def g_lasso(g):
    c = g_path(g)
    r = g.r
    d = c["X"].shape[1] + c["icpt"]
    c["bounds"] = None if r.random() < 0.4 else [np.where(r.random(d) < 0.3, -r.uniform(0, 0.5, d), -np.inf), np.where(r.random(d) < 0.3, r.uniform(0, 0.5, d), np.inf)]
    c["early"] = int(g.pick([0, 0, 1, 2]))
    c["eps"] = float(g.pick([1e-4, 1e-2, 0.3]))
    c["tol"] = float(g.pick([1e-4, 1e-9, 0.1]))
    c["mi"] = int(g.pick([1, 3, 1000]))
    return c


def c_lasso(c):
    """OnlineLasso is the linear model with the lasso path of its options"""
    X, y, w = c["X"], c["y"], c["w"]
    kw = lambda s: {} if w is None else {"sample_weight": w[s]}
    lo, hi = c["bounds"] or (None, None)
    own = dict(forget=c["forget"], scale_inputs=c["scale"], fit_intercept=c["icpt"], regularize_intercept=c["regint"], ic=c["ic"])
    opt = dict(lambda_n=c["n"], lambda_eps=c["eps"], early_stop=c["early"], tolerance=c["tol"], max_iterations=c["mi"], beta_lower_bound=lo, beta_upper_bound=hi)
    a = OnlineLasso(start_value=c["start"], **own, **opt)
    b = OnlineLinearModel(method=LassoPath(start_value_initial="previous_lambda", start_value_update=c["start"], **opt), **own)
    n = 0
    for k, h in enumerate(c["parts"]):
        s = slice(n, n + h)
        for m in (a, b):
            (m.fit if k == 0 else m.update)(X[s], y[s], **kw(s))
        n += h
        close(a.coef_path_, b.coef_path_, 1e-9, 1e-9, f"path of the lasso model after {k} updates")
        close(a.coef_, b.coef_, 1e-9, 1e-9, f"coefficients of the lasso model after {k} updates")


CONTRACTS = {
    "C14": [("least-squares", g_ols, c_ols, 150, 2500)],
    "C15": [("selected-row", g_path, c_path, 150, 2500), ("lasso-options", g_lasso, c_lasso, 60, 1000)],
}
