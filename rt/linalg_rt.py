"""Run-time contracts C01, C02, C05, C06."""
import numpy as np
from .core import *
from ondil import gram as G_
from ondil.methods import OrdinaryLeastSquares, LassoPath, Ridge, ElasticNetPath
from ondil.scaler import OnlineScaler


def fvec(forget, n):
    return (1.0 - forget) ** np.arange(n - 1, -1, -1)


def sgram(X, w, forget):
    f = fvec(forget, X.shape[0]) * w
    return (X * f[:, None]).T @ X


def sygram(X, y, w, forget):
    f = fvec(forget, X.shape[0]) * w
    return ((X * f[:, None]).T @ y)[:, None]


# ---- C01 ---------------------------------------------------------------------
def g_forget(g):
    return dict(forget=g.forget(), n=g.size(1, 12, 300))


def c_forget(c):
    out = G_.init_forget_vector(c["forget"], c["n"])
    close(out, fvec(c["forget"], c["n"]), 1e-9, 1e-300, "forget vector")


def g_hist(g):
    J = g.size(1, 5, 12)
    n0 = g.size(1, 8, 60)
    parts = [n0] + [g.size(1, 6, 40) for _ in range(int(g.r.integers(1, 4)))]
    N = sum(parts)
    return dict(X=g.mat(N, J), y=g.vec(N), w=g.weights(N), forget=g.forget(), parts=parts,
                via=g.pick(["gram", "ols", "lasso", "ridge", "enet"]))


METH = {"ols": lambda: OrdinaryLeastSquares(), "lasso": lambda: LassoPath(), "ridge": lambda: Ridge(lambda_reg=1.0),
        "enet": lambda: ElasticNetPath(alpha=0.5)}


def c_hist(c):
    X, y, w, fg = c["X"], c["y"], c["w"], c["forget"]
    cp = [a.copy() for a in (X, y, w)]
    p = c["parts"]
    n = p[0]
    via = c["via"]
    if via == "ols":
        via_x = None
        m = METH["ols"]()
    elif via == "gram":
        m = None
    else:
        m = METH[via]()
    scale = sgram(np.abs(X), w, fg).max() + 1e-12
    scy = sygram(np.abs(X), np.abs(y), w, fg).max() + 1e-12
    if m is None:
        gx = G_.init_gram(X[:n], w[:n], fg)
        gy = G_.init_y_gram(X[:n], y[:n], w[:n], fg)
    else:
        gx = None if via == "ols" else m.init_x_gram(X[:n], w[:n], fg)
        gy = m.init_y_gram(X[:n], y[:n], w[:n], fg)
    if gx is not None:
        close(gx, sgram(X[:n], w[:n], fg), 1e-8, 1e-9 * scale, "initial Gram")
    close(gy, sygram(X[:n], y[:n], w[:n], fg), 1e-8, 1e-9 * scy, "initial y-Gram")
    for b in p[1:]:
        s = slice(n, n + b)
        ox, oy = (None if gx is None else gx.copy()), gy.copy()
        if m is None:
            nx = G_.update_gram(gx, X[s], fg, w[s])
            ny = G_.update_y_gram(gy, X[s], y[s], fg, w[s])
        else:
            nx = None if via == "ols" else m.update_x_gram(gx, X[s], w[s], fg)
            ny = m.update_y_gram(gy, X[s], y[s], w[s], fg)
        if gx is not None:
            same(ox, gx, "old Gram")
        same(oy, gy, "old y-Gram")
        gx, gy = nx, ny
        n += b
        if gx is not None:
            close(gx, sgram(X[:n], w[:n], fg), 1e-8, 1e-9 * scale, f"Gram after update with {b} rows")
        close(gy, sygram(X[:n], y[:n], w[:n], fg), 1e-8, 1e-9 * scy, f"y-Gram after update with {b} rows")
    for a, b, nm in zip(cp, (X, y, w), "Xyw"):
        same(a, b, nm)


# ---- C02 ---------------------------------------------------------------------
def g_inv(g):
    J = g.size(1, 4, 8)
    n0 = J + g.size(2, 8, 40)
    fg = g.forget()
    fg = min(fg, 0.5)
    parts = [n0] + [g.size(1, 6, 40) for _ in range(int(g.r.integers(1, 4)))]
    N = sum(parts)
    w = g.weights(N)
    w[: J + 2] = np.maximum(w[: J + 2], 0.3)
    w[n0 - J - 1: n0] = np.maximum(w[n0 - J - 1: n0], 0.3)
    return dict(X=g.r.normal(size=(N, J)), y=g.vec(N), w=w, forget=fg, parts=parts, via=g.pick(["gram", "ols"]))


def c_inv(c):
    X, y, w, fg, p = c["X"], c["y"], c["w"], c["forget"], c["parts"]
    cp = [a.copy() for a in (X, y, w)]
    n = p[0]
    m = OrdinaryLeastSquares()
    Gs = sgram(X[:n], w[:n], fg)
    if np.linalg.cond(Gs) > 1e6:
        raise Skip
    P = G_.init_inverted_gram(X[:n], w[:n], fg) if c["via"] == "gram" else m.init_x_gram(X[:n], w[:n], fg)
    Y = m.init_y_gram(X[:n], y[:n], w[:n], fg)

    def chk(P, n, what):
        Gn = sgram(X[:n], w[:n], fg)
        k = np.linalg.cond(Gn)
        if k > 1e6:
            return
        close(P @ Gn, np.eye(Gn.shape[0]), 1e-9, 1e-10 * k + 1e-8, what)

    chk(P, n, "initial inverse Gram times Gram")
    b0 = m.fit_beta(P, Y, np.ones(X.shape[1], dtype=bool))
    close(b0, np.linalg.solve(Gs, sygram(X[:n], y[:n], w[:n], fg))[:, 0], 1e-6, 1e-6 * (1 + np.abs(b0).max()), "coefficients")
    for b in p[1:]:
        s = slice(n, n + b)
        old = P.copy()
        P2 = G_.update_inverted_gram(P, X[s], fg, w[s]) if c["via"] == "gram" else m.update_x_gram(P, X[s], w[s], fg)
        same(old, P, "old inverse Gram")
        Y = m.update_y_gram(Y, X[s], y[s], w[s], fg)
        P = P2
        n += b
        chk(P, n, f"inverse Gram after update with {b} rows, times Gram")
        Gn = sgram(X[:n], w[:n], fg)
        if np.linalg.cond(Gn) < 1e5:
            bt = m.update_beta(P, Y, b0, np.ones(X.shape[1], dtype=bool))
            sol = np.linalg.solve(Gn, sygram(X[:n], y[:n], w[:n], fg))[:, 0]
            close(bt, sol, 1e-5, 1e-5 * (1 + np.abs(sol).max()), "coefficients after update")
    for a, b, nm in zip(cp, (X, y, w), "Xyw"):
        same(a, b, nm)


def g_sing(g):
    J = g.size(2, 5, 8)
    n = g.size(1, 12, 40)
    k = g.pick(["few", "zerocol", "dup", "zerow", "fewpos"])
    X = np.round(g.r.normal(size=(n, J)) * 4)
    w = np.ones(n)
    if k == "few":
        n = int(g.r.integers(1, J))
        X = X[:n] if X.shape[0] >= n else np.ones((n, J))
        w = np.ones(X.shape[0])
    elif k == "zerocol":
        X[:, int(g.r.integers(J))] = 0
    elif k == "dup":
        X[:, 1] = X[:, 0]
    elif k == "zerow":
        w[:] = 0
    else:
        X = np.round(g.r.normal(size=(J + int(g.r.integers(1, 6)), J)) * 4)
        w = np.zeros(X.shape[0])
        w[g.r.choice(X.shape[0], int(g.r.integers(1, J)), replace=False)] = 1.0
    return dict(X=X, w=w, forget=g.pick([0.0, 0.0, 0.01, 0.1]))


def c_sing(c):
    X, w = c["X"], c["w"]
    ok = raises(ValueError, lambda: G_.init_inverted_gram(X, w, c["forget"]))
    need(ok, "singular Gram matrix accepted")


# ---- C05 ---------------------------------------------------------------------
def g_scal(g):
    J = g.size(1, 4, 8)
    n0 = g.size(2, 8, 60)
    parts = [n0] + [g.size(1, 5, 30) for _ in range(int(g.r.integers(0, 4)))]
    N = sum(parts)
    w = g.weights(N)
    w[0] = max(w[0], 0.5)
    k = 0
    for b in parts:
        if w[k:k + b].sum() <= 0:
            w[k] = 1.0
        k += b
    sel = g.pick(["all", "int", "bool", "none"])
    ts = True
    if sel == "none":
        ts = False
    if sel == "int":
        ts = np.sort(g.r.permutation(J)[: int(g.r.integers(1, J + 1))])
        if g.r.random() < 0.4:
            ts = ts[::-1].copy()
    if sel == "bool":
        ts = g.r.random(J) < 0.6
        if not ts.any():
            ts[0] = True
    return dict(X=g.mat(N, J), w=w, usew=bool(g.r.random() < 0.75), forget=min(g.forget(), 0.95), parts=parts, ts=ts)


def moments(X, w):
    W = w.sum()
    m = (w[:, None] * X).sum(0) / W
    v = (w[:, None] * (X - m) ** 2).sum(0) / W
    return m, v


def c_scal(c):
    X, p, fg, ts = c["X"], c["parts"], c["forget"], c["ts"]
    w = c["w"] if c["usew"] else np.ones(X.shape[0])
    cp = [X.copy(), c["w"].copy()]
    kw = lambda s: {"sample_weight": c["w"][s]} if c["usew"] else {}
    sc = OnlineScaler(forget=fg, to_scale=ts)
    n = 0
    for i, b in enumerate(p):
        s = slice(n, n + b)
        (sc.fit if i == 0 else sc.update)(X[s], **kw(s))
        n += b
        close(sc.n_observations_, w[:n].sum(), 1e-9, what="observation count")
        if ts is False:
            continue
        ew = w[:n] * fvec(fg, n)
        if ew.sum() < 1e-8 * max(1.0, w[:n].sum()) or ew.sum() < 1e-10:
            return
        xs = X[:n] if ts is True else X[:n][:, ts]
        m, v = moments(xs, ew)
        sc2 = np.abs(xs).max() + 1e-9
        close(sc.mean_, m, 1e-7, 1e-7 * sc2, f"mean after part {i}")
        close(sc.var_, v, 1e-6, 1e-7 * sc2 ** 2, f"variance after part {i}")
        close(sc.std_, np.sqrt(np.maximum(v, 0)), 1e-4, 1e-3 * sc2, f"standard deviation after part {i}")
    same(cp[0], X, "X")
    same(cp[1], c["w"], "weights")


# ---- C06 ---------------------------------------------------------------------
def g_tr(g):
    c = g_scal(g)
    J = c["X"].shape[1]
    c["Z"] = g.mat(g.size(1, 6, 30), J)
    c["X"] = c["X"] + g.r.normal(size=c["X"].shape)
    if g.r.random() < 0.2:
        c["Z"] = np.round(g.r.normal(size=c["Z"].shape) * 8).astype(int)
        if g.r.random() < 0.5:
            c["X"] = np.round(g.r.normal(size=c["X"].shape) * 8).astype(int)
    return c


def c_tr(c):
    X, p, fg, ts, Z = c["X"], c["parts"], c["forget"], c["ts"], c["Z"]
    sc = OnlineScaler(forget=min(fg, 0.5), to_scale=ts)
    n = 0
    for i, b in enumerate(p):
        s = slice(n, n + b)
        (sc.fit if i == 0 else sc.update)(X[s])
        n += b
    st0 = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(sc).items()}
    Z0 = Z.copy()
    T = sc.transform(Z)
    same(Z0, Z, "X")
    exp = Z.astype(float)
    if ts is not False:
        idx = np.arange(Z.shape[1]) if ts is True else ts
        if np.any(np.asarray(sc.var_) < 1e-10):
            raise Skip
        exp[:, idx] = (Z[:, idx] - sc.mean_) / np.sqrt(sc.var_)
    close(T, exp, 1e-9, 1e-12 * np.abs(exp).max(), "transformed matrix")
    T0 = T.copy()
    back = sc.inverse_transform(T)
    same(T0, T, "scaled X")
    close(back, Z, 1e-8, 1e-8 * (np.abs(Z).max() + np.abs(X).max()), "round trip")
    for k, v in vars(sc).items():
        same(st0.get(k), v, f"scaler.{k}")
    if ts is not False:
        need(T is not Z and not np.shares_memory(T, Z), "transform returned the caller's array")


CONTRACTS = {
    "C01": [("forget_vector", g_forget, c_forget, 60, 600), ("history", g_hist, c_hist, 150, 3000)],
    "C02": [("inverse_history", g_inv, c_inv, 120, 3000), ("singular", g_sing, c_sing, 40, 400)],
    "C05": [("moments", g_scal, c_scal, 220, 4000)],
    "C06": [("transform", g_tr, c_tr, 200, 3000)],
}
