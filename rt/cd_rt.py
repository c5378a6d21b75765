"""Run-time contracts C03, C04."""
import numpy as np
from .core import *
from ondil import coordinate_descent as cd
from ondil.methods import LassoPath, ElasticNetPath, Ridge

INF = float("inf")


def coord_min(a, c, l1, l2, lo, hi):
    """argmin over [lo,hi] of a/2 b^2 - c b + l1|b| + l2/2 b^2"""
    d = a + l2
    b = np.sign(c) * max(abs(c) - l1, 0.0) / d
    return min(max(b, lo), hi)


def cd_ref(G, y, beta, lam, reg, alpha, lo, hi, tol, maxit):
    b = np.array(beta, dtype=float)
    J = len(b)
    i = 0
    while True:
        i += 1
        old = b.copy()
        for j in range(J):
            if i == 1 or b[j] != 0:
                c = y[j] - sum(G[j, k] * b[k] for k in range(J) if k != j)
                b[j] = coord_min(G[j, j], c, alpha * lam if reg[j] else 0.0, (1 - alpha) * lam if reg[j] else 0.0, lo[j], hi[j])
        if np.max(np.abs(b - old)) <= tol * np.max(np.abs(b)):
            return b, i, True
        if i > maxit:
            return b, i, False


def g_prob(g):
    J = g.size(1, 5, 10)
    n = J + g.size(1, 10, 40)
    X = g.r.normal(size=(n, J))
    if g.r.random() < 0.3:
        X[:, 0] = 1
    y = X @ np.round(g.r.normal(size=J) * 2) + g.r.normal(size=n)
    w = g.r.uniform(0.2, 2, n)
    G = (X * w[:, None]).T @ X
    yg = (X * w[:, None]).T @ y
    reg = np.ones(J, dtype=bool)
    k = g.r.random()
    if k < 0.5:
        reg[0] = False
    elif k < 0.65:
        reg = g.r.random(J) < 0.6
    lo, hi = np.full(J, -INF), np.full(J, INF)
    k = g.r.random()
    if k < 0.35:
        lo[:] = 0.0 if g.r.random() < 0.5 else -g.r.uniform(0, 1, J)
    if 0.2 < k < 0.5:
        hi = np.maximum(lo, 0) + g.r.uniform(0.0, 1, J)
    if 0.5 < k < 0.58:
        lo = g.r.uniform(0.2, 0.6, J)
    lam = float(g.pick([0.0, 0.1, 1.0, 10.0, float(np.abs(yg).max()), float(np.abs(yg).max()) * 0.3]))
    return dict(G=G, y=yg, beta=g.pick([np.zeros(J), g.r.normal(size=J), np.round(g.r.normal(size=J))]), lam=lam, reg=reg,
                alpha=float(g.pick([1.0, 1.0, 0.5, 0.0, 0.2, 0.9])), lo=lo, hi=hi)


def call(c, tol, maxit, sel="cyclic"):
    cp = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in c.items()}
    b, it = cd.online_coordinate_descent(c["G"], c["y"], c["beta"], c["lam"], c["reg"], c["alpha"], c["lo"], c["hi"], sel, tol, maxit)
    for k in c:
        same(cp[k], c[k], f"argument {k}")
    need(1 <= it <= maxit + 1, f"number of sweeps {it} outside [1, {maxit + 1}]")
    b = np.asarray(b)
    need(np.all(b >= c["lo"]) and np.all(b <= c["hi"]), f"bounds violated: {short(b)}")
    need(not np.shares_memory(b, c["beta"]), "start values returned by reference")
    return b, it


def c_first(c):
    b, it = call(c, 1e18, 50)
    r, ir, _ = cd_ref(c["G"], c["y"], c["beta"], c["lam"], c["reg"], c["alpha"], c["lo"], c["hi"], 1e18, 50)
    if np.max(np.abs(r)) == 0:
        return close(b, r, 1e-9, 1e-9, "first sweep") if it == 1 else None
    need(it == 1, f"{it} sweeps with infinite tolerance")
    close(b, r, 1e-8, 1e-8 * (1 + np.abs(r).max()), "first sweep")


def g_sw(g):
    c = g_prob(g)
    c["maxit"] = int(g.pick([0, 1, 2, 3, 5, 20]))
    c["tol"] = float(g.pick([0.0, 1e-3, 1e-2, 0.1]))
    return c


def c_sw(c):
    maxit, tol = c.pop("maxit"), c.pop("tol")
    b, it = call(c, tol, maxit)
    a = (c["G"], c["y"], c["beta"], c["lam"], c["reg"], c["alpha"], c["lo"], c["hi"])
    r, ir, conv = cd_ref(*a, tol, maxit)
    if it == ir:
        close(b, r, 1e-7, 1e-7 * (1 + np.abs(r).max()), f"coefficients after {it} sweeps")
        return
    # the number of sweeps differs: allowed only if a stopping comparison is a rounding tie
    sl = 1e-10 * (1 + np.abs(r).max() + np.abs(b).max() + np.abs(c["beta"]).max())
    prev = np.array(c["beta"], dtype=float)
    for k in range(1, max(it, ir)):
        now = cd_ref(*a, -1.0, k - 1)[0]
        if abs(np.max(np.abs(now - prev)) - tol * np.max(np.abs(now))) <= sl:
            return
        prev = now
    raise Fail(f"stopped after {it} sweeps, expected {ir}")


def c_rand(c):
    b, it = call(c, 1e-13, 3000, "random")
    if it > 3000:
        return
    J = len(b)
    sc = 1 + np.abs(b).max()
    for j in range(J):
        if b[j] != 0:
            cc = c["y"][j] - c["G"][j] @ b + c["G"][j, j] * b[j]
            m = coord_min(c["G"][j, j], cc, c["alpha"] * c["lam"] * c["reg"][j], (1 - c["alpha"]) * c["lam"] * c["reg"][j], c["lo"][j], c["hi"][j])
            need(abs(m - b[j]) <= 1e-6 * sc, f"coordinate {j}: {b[j]} is not the minimiser {m}")
    if J == 1:
        m = coord_min(c["G"][0, 0], c["y"][0], c["alpha"] * c["lam"] * c["reg"][0], (1 - c["alpha"]) * c["lam"] * c["reg"][0], c["lo"][0], c["hi"][0])
        need(abs(m - b[0]) <= 1e-9 * sc, f"single coordinate {b[0]} instead of {m}")


def c_rand1(c):
    # first sweep is over all coordinates in natural order for both selections: stop after it
    b, it = call(c, 1e18, 50, "random")
    r, ir, _ = cd_ref(c["G"], c["y"], c["beta"], c["lam"], c["reg"], c["alpha"], c["lo"], c["hi"], 1e18, 50)
    for j in range(len(b)):
        pass
    if it == 1 and len(b) == 1:
        close(b, r, 1e-8, 1e-8 * (1 + np.abs(r).max()), "first sweep")


def g_st(g):
    return dict(v=float(g.r.normal() * 3), t=float(g.pick([0.0, 0.5, 1.0, abs(g.r.normal())])))


def c_st(c):
    v, t = c["v"], c["t"]
    close(cd.soft_threshold(v, t), np.sign(v) * max(abs(v) - t, 0), 1e-12, 1e-14, "soft threshold")


def g_ridge(g):
    c = g_prob(g)
    c["start"] = bool(g.r.random() < 0.5)
    c["fix"] = bool(g.r.random() < 0.7)
    return c


def c_ridge(c):
    J = len(c["y"])
    kw = {}
    if np.isfinite(c["lo"]).any():
        kw["beta_lower_bound"] = c["lo"]
    if np.isfinite(c["hi"]).any():
        kw["beta_upper_bound"] = c["hi"]
    lam = c["lam"] if c["fix"] else None
    m = Ridge(lambda_reg=lam, start_beta=c["beta"] if c["start"] else None, tolerance=1e-12, max_iterations=5000, **kw)
    if np.linalg.cond(c["G"]) > 1e6:
        raise Skip
    yg = c["y"][:, None]
    cp = (c["G"].copy(), yg.copy(), c["beta"].copy(), c["reg"].copy())
    b = m.fit_beta(c["G"], yg, c["reg"])
    same(cp[0], c["G"], "x gram"); same(cp[1], yg, "y gram"); same(cp[2], c["beta"], "start value"); same(cp[3], c["reg"], "mask")
    lam = np.trace(c["G"]) / J if lam is None else lam
    need(np.all(b >= c["lo"]) and np.all(b <= c["hi"]), "bounds violated")
    if not np.isfinite(c["lo"]).any() and not np.isfinite(c["hi"]).any():
        sol = np.linalg.solve(c["G"] + lam * np.diag(c["reg"].astype(float)), c["y"])
        if not np.any(np.abs(sol) < 1e-9):
            close(b, sol, 1e-5, 1e-5 * (1 + np.abs(sol).max()), "ridge solution")
    if np.any(b == 0):
        return  # a coordinate at zero is not revisited after the first sweep
    b2 = m.update_beta(c["G"], yg, b, c["reg"])
    close(b2, b, 1e-6, 1e-6 * (1 + np.abs(b).max()), "ridge update at the optimum")


# ---- C04 ---------------------------------------------------------------------
def g_path(g):
    c = g_prob(g)
    J = len(c["y"])
    n = g.size(1, 6, 20)
    lm = float(np.abs(c["y"]).max()) + 0.1
    c["lams"] = np.geomspace(lm, lm * 1e-2, n) if g.r.random() < 0.7 else np.sort(g.r.uniform(0.01, lm, n))
    c["path"] = g.pick([np.zeros((n, J)), np.round(g.r.normal(size=(n, J)) * 2) / 2])
    c["es"] = int(g.pick([0, 0, 1, 2, J]))
    c["start"] = g.pick(["previous_lambda", "previous_fit", "average"])
    return c


def c_path(c):
    cp = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in c.items()}
    tol, mi = 1e-6, 30
    P, its = cd.online_coordinate_descent_path(c["G"], c["y"], c["path"], c["lams"], c["reg"], c["alpha"], c["es"], c["lo"], c["hi"], c["start"], "cyclic", tol, mi)
    for k in c:
        same(cp[k], c[k], f"argument {k}")
    need(P.shape == c["path"].shape and its.shape == c["lams"].shape, "shape of the result")
    need(not np.shares_memory(P, c["path"]), "result shares memory with the old path")
    for i, lam in enumerate(c["lams"]):
        prev = P[i - 1] if i > 0 else np.zeros(P.shape[1])
        st = {"previous_lambda": prev, "previous_fit": c["path"][i], "average": (prev + c["path"][i]) / 2}[c["start"]].copy()
        if c["es"] > 0 and np.count_nonzero(st) >= c["es"]:
            close(P[i], st, 1e-12, 1e-13, f"early-stopped row {i}")
            need(its[i] == 0, "iteration count of an early-stopped row")
        else:
            b, it = cd.online_coordinate_descent(c["G"], c["y"], st, lam, c["reg"], c["alpha"], c["lo"], c["hi"], "cyclic", tol, mi)
            need(its[i] == it, f"iteration count of row {i}: {its[i]} instead of {it}")
            close(P[i], b, 1e-9, 1e-10 * (1 + np.abs(b).max()), f"row {i} for start value {c['start']}")


def g_fp(g):
    c = g_prob(g)
    J = len(c["y"])
    if c["reg"].sum() < J - 1:
        c["reg"][:] = True
        c["reg"][0] = False
    if g.r.random() < 0.25:
        c["reg"][:] = True
        if g.r.random() < 0.5:
            c["y"] = -np.abs(c["y"]) - 0.1
    c["n"] = g.size(2, 6, 30)
    c["eps"] = float(g.pick([1e-4, 1e-2, 0.5, 1e-3]))
    c["m"] = g.pick(["lasso", "enet"])
    c["es"] = int(g.pick([0, 0, 0, 1, 3]))
    c["st"] = g.pick(["previous_lambda", "previous_fit", "average"])
    c["su"] = g.pick(["previous_lambda", "previous_fit", "average"])
    return c


def lam_max(G, y, reg):
    if reg.all():
        return np.max(np.abs(y))
    k = int(np.flatnonzero(~reg)[0])
    b0 = y[k] / G[k, k]
    return np.max(np.abs(y - G[k] * b0))


def c_fp(c):
    J = len(c["y"])
    kw = dict(lambda_n=c["n"], lambda_eps=c["eps"], early_stop=c["es"], start_value_initial=c["st"], start_value_update=c["su"],
              tolerance=1e-11, max_iterations=3000)
    if np.isfinite(c["lo"]).any():
        kw["beta_lower_bound"] = c["lo"]
    if np.isfinite(c["hi"]).any():
        kw["beta_upper_bound"] = c["hi"]
    m = LassoPath(**kw) if c["m"] == "lasso" else ElasticNetPath(alpha=c["alpha"], **kw)
    alpha = 1.0 if c["m"] == "lasso" else c["alpha"]
    yg = c["y"][:, None]
    cp = (c["G"].copy(), yg.copy(), c["reg"].copy(), c["lo"].copy(), c["hi"].copy())
    lm = lam_max(c["G"], c["y"], c["reg"])
    if lm < 1e-9:
        raise Skip
    P = m.fit_beta_path(c["G"], yg, c["reg"])
    grid = lm * c["eps"] ** (np.arange(c["n"]) / (c["n"] - 1))
    need(P.shape == (c["n"], J), "shape of the path")
    R, _ = cd.online_coordinate_descent_path(c["G"], c["y"], np.zeros((c["n"], J)), grid, c["reg"], alpha, c["es"], c["lo"], c["hi"], c["st"], "cyclic", 1e-11, 3000)
    if c["es"] == 0:
        close(P, R, 1e-5, 1e-5 * (1 + np.abs(R).max()), "coefficient path of the fit")
    ok_lo = np.all(c["lo"] <= 0) and np.all(c["hi"] >= 0)
    free = np.isinf(c["lo"][0]) and np.isinf(c["hi"][0])
    if alpha == 1.0 and ok_lo and (c["reg"].all() or (not c["reg"][0] and free)):
        need(np.all(np.abs(P[0][c["reg"]]) <= 1e-9 * (1 + np.abs(P).max())), f"regularised coefficients at the largest strength: {short(P[0])}")
    old = P.copy()
    U = m.update_beta_path(c["G"] * 1.1, yg * 0.9, P, c["reg"])
    same(old, P, "old path")
    lm2 = lam_max(c["G"] * 1.1, c["y"] * 0.9, c["reg"])
    grid2 = lm2 * c["eps"] ** (np.arange(c["n"]) / (c["n"] - 1))
    R2, _ = cd.online_coordinate_descent_path(c["G"] * 1.1, c["y"] * 0.9, old, grid2, c["reg"], alpha, c["es"], c["lo"], c["hi"], c["su"], "cyclic", 1e-11, 3000)
    if c["es"] == 0:
        close(U, R2, 1e-5, 1e-5 * (1 + np.abs(R2).max()), "coefficient path of the update")
    same(cp[0], c["G"], "x gram"); same(cp[1], yg, "y gram"); same(cp[2], c["reg"], "mask"); same(cp[3], c["lo"], "lower"); same(cp[4], c["hi"], "upper")


def g_bv(g):
    J = g.size(2, 5, 8)
    return dict(J=J, d=int(g.pick([-1, 1, 2])), which=g.pick(["lo", "hi"]), cls=g.pick(["lasso", "enet", "ridge"]))


def c_bv(c):
    J = c["J"]
    b = np.full(J + c["d"], -1.0 if c["which"] == "lo" else 1.0)
    kw = {"beta_lower_bound" if c["which"] == "lo" else "beta_upper_bound": b}
    if c["cls"] == "ridge":
        m = Ridge(lambda_reg=1.0, **kw)
        f = lambda: m.fit_beta(np.eye(J), np.ones((J, 1)), np.ones(J, dtype=bool))
    else:
        m = LassoPath(**kw) if c["cls"] == "lasso" else ElasticNetPath(alpha=0.5, **kw)
        f = lambda: m.fit_beta_path(np.eye(J), np.ones((J, 1)), np.ones(J, dtype=bool))
    need(raises(ValueError, f), "bound vector of the wrong length accepted")


CONTRACTS = {
    "C03": [("first_sweep", g_prob, c_first, 150, 2500), ("sweeps", g_sw, c_sw, 150, 2500), ("random", g_prob, c_rand, 60, 1000),
            ("soft_threshold", g_st, c_st, 60, 500), ("ridge", g_ridge, c_ridge, 60, 800)],
    "C04": [("path", g_path, c_path, 200, 3000), ("fit_and_update_path", g_fp, c_fp, 120, 2000), ("bound_length", g_bv, c_bv, 12, 60)],
}
