"""Run-time contracts C16 - C22 (distributional regression).

The estimator is observed only through its public interface and through the two
interfaces it calls: the estimation method and the distribution.
"""
import copy
import numpy as np
from .core import *
from .dist_rt import dist, cls, NP
from ondil.base import EstimationMethod
from ondil.error import OutOfSupportError
from ondil.estimators import OnlineDistributionalRegression as ODR
from ondil.methods import LassoPath, ElasticNetPath, OrdinaryLeastSquares, Ridge
from ondil.links import Log, Identity, Logit
import ondil.distributions as D

FAM = ["Normal", "NormalMeanVariance", "Logistic", "Gumbel", "Gamma", "LogNormal", "Beta", "StudentT", "InverseGaussian", "ReverseGumbel",
       "ZeroAdjustedGamma", "BetaInflatedZero", "InverseGamma", "LogNormalMedian"]


class Spy(EstimationMethod):
    """delegates to a real method and records every call; copies share the log"""

    def __init__(self, inner, log, tag=None):
        super().__init__(_path_based_method=inner._path_based_method, _accepts_bounds=inner._accepts_bounds, _accepts_selection=inner._accepts_selection)
        self.inner = inner
        self.log = log
        self.tag = tag
        if hasattr(inner, "_path_length"):
            self._path_length = inner._path_length

    def _ev(self, kind, out, **kw):
        self.log.append(dict(kind=kind, tag=self.tag, who=self, out=copy.deepcopy(out), **{k: copy.deepcopy(v) for k, v in kw.items()}))
        return out

    def init_x_gram(self, X, weights, forget):
        return self._ev("ix", self.inner.init_x_gram(X, weights, forget), X=X, weights=weights, forget=forget)

    def init_y_gram(self, X, y, weights, forget):
        return self._ev("iy", self.inner.init_y_gram(X, y, weights, forget), X=X, y=y, weights=weights, forget=forget)

    def update_x_gram(self, gram, X, weights, forget):
        return self._ev("ux", self.inner.update_x_gram(gram, X, weights, forget), gram=gram, X=X, weights=weights, forget=forget)

    def update_y_gram(self, gram, X, y, weights, forget):
        return self._ev("uy", self.inner.update_y_gram(gram, X, y, weights, forget), gram=gram, X=X, y=y, weights=weights, forget=forget)

    def fit_beta(self, x_gram, y_gram, is_regularized):
        return self._ev("est", self.inner.fit_beta(x_gram, y_gram, is_regularized), x_gram=x_gram, y_gram=y_gram, reg=is_regularized, op="fit", prev=None)

    def update_beta(self, x_gram, y_gram, beta, is_regularized):
        return self._ev("est", self.inner.update_beta(x_gram, y_gram, beta, is_regularized), x_gram=x_gram, y_gram=y_gram, reg=is_regularized, op="update", prev=beta)

    def fit_beta_path(self, x_gram, y_gram, is_regularized):
        return self._ev("est", self.inner.fit_beta_path(x_gram, y_gram, is_regularized), x_gram=x_gram, y_gram=y_gram, reg=is_regularized, op="fitpath", prev=None)

    def update_beta_path(self, x_gram, y_gram, beta_path, is_regularized):
        return self._ev("est", self.inner.update_beta_path(x_gram, y_gram, beta_path, is_regularized), x_gram=x_gram, y_gram=y_gram, reg=is_regularized, op="updatepath", prev=beta_path)


class Scripted(OrdinaryLeastSquares):
    """path-based method with an arbitrary path (a random perturbation of the least-squares solution)"""

    def __init__(self, length, seed):
        super().__init__()
        self._path_based_method = True
        self._path_length = length
        self.rng = np.random.default_rng(seed)

    def init_x_gram(self, X, weights, forget):
        f = (1 - forget) ** np.arange(len(X) - 1, -1, -1) * weights
        return (X * f[:, None]).T @ X

    def update_x_gram(self, gram, X, weights, forget):
        return (1 - forget) ** len(X) * gram + self.init_x_gram(X, weights, forget)

    def init_y_gram(self, X, y, weights, forget):
        f = (1 - forget) ** np.arange(len(X) - 1, -1, -1) * weights
        return ((X * f[:, None]).T @ y)[:, None]

    def update_y_gram(self, gram, X, y, weights, forget):
        return (1 - forget) ** len(X) * gram + self.init_y_gram(X, y, weights, forget)

    def fit_beta_path(self, x_gram, y_gram, is_regularized):
        b = np.linalg.lstsq(x_gram, np.asarray(y_gram).ravel(), rcond=None)[0]
        L = self._path_length
        P = b[None, :] + self.rng.normal(size=(L, len(b))) * 0.25 * (0.2 + np.abs(b))
        Z = self.rng.random((L, len(b))) < 0.35
        Z[:, 0] = False
        P[Z] = 0.0
        return P

    def update_beta_path(self, x_gram, y_gram, beta_path, is_regularized):
        return self.fit_beta_path(x_gram, y_gram, is_regularized)


def spy_dist(d, log):
    """an instance of a subclass that records the parameter values derivatives are evaluated at"""
    c = type(d)

    class SpyDist(c):
        def dl1_dp1(self, y, theta, param=0):
            log.append(dict(kind="d1", y=np.array(y), theta=np.array(theta), param=int(param)))
            return super().dl1_dp1(y, theta, param)

        def dl2_dp2(self, y, theta, param=0, clip=False):
            log.append(dict(kind="d2", y=np.array(y), theta=np.array(theta), param=int(param)))
            return super().dl2_dp2(y, theta, param)

    s = SpyDist.__new__(SpyDist)
    s.__dict__.update(d.__dict__)
    return s


# ---------------------------------------------------------------- cases
def sample(g, name, N):
    r = g.r
    u = r.normal(size=N)
    if name in ("Normal", "NormalMeanVariance", "Logistic", "Gumbel", "ReverseGumbel"):
        return u
    if name == "StudentT":
        return r.standard_t(6, size=N)
    if name in ("Gamma", "LogNormal", "InverseGaussian", "InverseGamma", "LogNormalMedian"):
        return np.exp(0.4 * u)
    if name == "ZeroAdjustedGamma":
        y = np.exp(0.4 * u)
        y[r.random(N) < 0.25] = 0.0
        return y
    y = 1 / (1 + np.exp(-0.7 * u))
    if name == "BetaInflatedZero":
        y[r.random(N) < 0.25] = 0.0
    return y


def g_case(g, fams=FAM, paths=False, upd=(0, 3), dicts=True):
    name = g.pick(list(fams))
    K = NP.get(name, 2)
    J = g.size(1, 4, 6)
    n0 = 30 + g.size(1, 40, 60)
    parts = [n0] + [g.size(1, 6, 12) for _ in range(int(g.r.integers(*upd)))]
    N = sum(parts)
    X = g.r.normal(size=(N, J)) + g.pick([0.0, 0.0, 2.0])
    y = sample(g, name, N)
    if name in ("Normal", "NormalMeanVariance", "Logistic", "Gumbel", "ReverseGumbel", "StudentT"):
        y = y + X @ (g.r.normal(size=J) * 0.7) + g.r.normal()
    w = g.pick([None, None, g.r.uniform(0.4, 2.5, N), g.r.integers(1, 4, N).astype(float)])
    eq = {}
    fi = {}
    for p in range(K):
        k = g.r.integers(4)
        fi[p] = bool(g.r.random() < 0.85)
        if k == 0:
            eq[p] = "all"
        elif k == 1:
            eq[p] = "intercept"
            fi[p] = True
        elif k == 2:
            eq[p] = np.sort(g.r.permutation(J)[: int(g.r.integers(1, J + 1))]) if g.r.random() < 0.5 else g.r.permutation(J)[: int(g.r.integers(1, J + 1))]
        else:
            b = g.r.random(J) < 0.6
            b[int(g.r.integers(J))] = True
            eq[p] = b
    fit_int = fi
    if all(fi.values()) and g.r.random() < 0.5:
        fit_int = True
    fvals = [0.0, 0.0, 0.01, 0.05] + [f for f in g.lits.floats if 0 < f < 0.1]
    forget = float(g.pick(fvals))
    if dicts and g.r.random() < 0.5:
        forget = {p: float(g.pick(fvals)) for p in g.r.permutation(K).tolist()}
    step = 1.0
    if g.r.random() < 0.4:
        step = float(g.pick([0.5, 0.8, 0.25]))
        if dicts and g.r.random() < 0.6:
            step = {p: float(g.pick([0.5, 0.8, 1.0, 0.3])) for p in g.r.permutation(K).tolist()}
    order = None
    if g.r.random() < 0.5:
        order = g.r.permutation(K)
    sc = g.pick([True, False, "bool", "int"])
    if sc == "bool":
        sc = g.r.random(J) < 0.5
    elif sc == "int":
        sc = np.sort(g.r.permutation(J)[: int(g.r.integers(1, J + 1))])
    c = dict(name=name, K=K, X=X, y=y, w=w, parts=parts, eq=eq, fi=fit_int, forget=forget, step=step, order=order, scale=sc,
             regint=g.pick([False, True, {p: bool(g.r.random() < 0.5) for p in range(K)}] if dicts else [False, True]),
             outer=int(g.pick([1, 2, 3, 5])), inner=int(g.pick([1, 2, 4, 8])), prefit=int(g.pick([0, 0, 1])), prefitu=int(g.pick([0, 0, 1])),
             tol=float(g.pick([1e-3, 1e-9])), sel=g.pick(["local_rss", "global_ll"]), ic=g.pick(["aic", "bic", "hqc", "max"]), seed=int(g.r.integers(10**6)), plen=int(g.pick([3, 5, 9])),
             method=g.pick(["ols", "ols", "scripted", "lasso"]) if paths is False else g.pick(["scripted", "scripted", "lasso"]))
    if dicts and g.r.random() < 0.3:
        c["ic"] = {p: g.pick(["aic", "bic", "hqc", "max"]) for p in range(K)}
    return c


def per(v, p, default):
    return v.get(p, default) if isinstance(v, dict) else v


def scaled(c, upto, rows):
    """spec: rows of X scaled with the moments of all data seen so far"""
    X = c["X"]
    w = np.ones(upto) if c["w"] is None else c["w"][:upto]
    fg = per(c["forget"], 0, 0.0)
    f = w * (1 - fg) ** np.arange(upto - 1, -1, -1)
    m = f @ X[:upto] / f.sum()
    v = f @ (X[:upto] - m) ** 2 / f.sum()
    out = rows.copy()
    sc = c["scale"]
    J = X.shape[1]
    cols = range(J) if sc is True else [] if sc is False else (np.flatnonzero(sc) if sc.dtype == bool else sc)
    for j in cols:
        out[:, j] = (out[:, j] - m[j]) / np.sqrt(v[j])
    return out


def design(c, p, Z):
    e = c["eq"][p]
    one = np.ones((len(Z), 1))
    fi = per(c["fi"], p, True)
    if isinstance(e, str) and e == "intercept":
        return one
    if isinstance(e, str):
        out = Z
    else:
        out = Z[:, np.flatnonzero(e) if np.asarray(e).dtype == bool else e]
    return np.hstack([one, out]) if fi else out


def build(c, log, dlog=None):
    K = c["K"]
    d = dist(c["name"])
    inner = {"ols": lambda p: OrdinaryLeastSquares(), "scripted": lambda p: Scripted(c["plen"], c["seed"] + p),
             "lasso": lambda p: LassoPath(lambda_n=c["plen"])}[c["method"]]
    m = ODR(distribution=d if dlog is None else spy_dist(d, dlog), equation=c["eq"], forget=c["forget"],
            method={p: Spy(inner(p), log, p) for p in range(K)}, scale_inputs=c["scale"], fit_intercept=c["fi"], regularize_intercept=c["regint"],
            ic=c["ic"], model_selection=c["sel"], prefit_initial=c["prefit"], prefit_update=c["prefitu"], step_size=c["step"],
            param_order=c["order"], max_it_outer=c["outer"], max_it_inner=c["inner"], abs_tol_outer=c["tol"], abs_tol_inner=c["tol"],
            rel_tol_outer=c["tol"] / 100, rel_tol_inner=c["tol"] / 100, verbose=-1 if False else 0)
    return m, d


def kw(c, s):
    return {} if c["w"] is None else {"sample_weight": c["w"][s]}


class Quiet:
    def __enter__(self):
        import io, contextlib
        self.c = contextlib.redirect_stdout(io.StringIO())
        self.c.__enter__()

    def __exit__(self, *a):
        self.c.__exit__(*a)


def call(f, *a, **k):
    """numerical breakdown of the data at hand (singular working design) is not judged"""
    with Quiet():
        try:
            return f(*a, **k)
        except np.linalg.LinAlgError:
            raise Skip
        except ValueError as e:
            if "singular" in str(e).lower() or "rank" in str(e).lower() or "infs or nans" in str(e).lower():
                raise Skip
            raise


def cl(a, b, what, rtol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    close(a, b, rtol, rtol * (1e-8 + float(np.max(np.abs(b))) if b.size else 0), what)


def eq_(a, b, rtol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol, rtol * (1e-8 + np.max(np.abs(b), initial=0)), equal_nan=True)


def crit(fitm, p, n, ic, kind):
    ll = fitm if kind == "global_ll" else -n / 2 * (np.log(fitm / n) + 1 + np.log(2 * np.pi))
    return {"aic": -2 * ll + 2 * p, "bic": -2 * ll + p * np.log(n), "hqc": -2 * ll + 2 * p * np.log(np.log(n)), "max": -ll}[ic]


def estimates(log):
    """group the raw log into estimates: (tag, x-event, y-event, est-event, d1, d2)"""
    out = []
    cur = {}
    for e in log:
        k = e["kind"]
        if k in ("ix", "ux"):
            cur["x"] = e
        elif k in ("iy", "uy"):
            cur["y"] = e
        elif k in ("d1", "d2"):
            cur[k] = e
        elif k == "est":
            out.append(dict(tag=e["tag"], est=e, x=cur.get("x"), y=cur.get("y"), d1=cur.get("d1"), d2=cur.get("d2")))
            cur = {}
    return out


def monitor(c, aspects):
    """run fit and updates under spies, and check every call against the contract"""
    log = []
    m, d = build(c, log, log)
    K = c["K"]
    X, y, w = c["X"], c["y"], c["w"]
    order = list(range(K)) if c["order"] is None else [int(i) for i in c["order"]]
    n = 0
    store = {}
    dev = None
    for k, b in enumerate(c["parts"]):
        s = slice(n, n + b)
        del log[:]
        fit = k == 0
        wb = np.ones(b) if w is None else w[s]
        before = None
        if fit:
            acc = np.array(d.initial_values(y[s]), dtype=float)
            coef = {p: None for p in range(K)}
        else:
            with Quiet():
                acc = np.array(m.predict_distribution_parameters(X[s]), dtype=float)
                before = {p: (m.coef_[p].copy(), None if m.coef_path_[p] is None else m.coef_path_[p].copy()) for p in range(K)}
        try:
            call(m.fit if fit else m.update, X[s].copy(), y[s].copy(), **kw(c, s))
        except Skip:
            if aspects == "C17" or not log:
                raise
            broke = True
        else:
            broke = False
        n += b
        Z = scaled(c, n, X[s])
        DES = {p: design(c, p, Z) for p in range(K)}
        ww = np.ones(n) if w is None else w[:n]
        ntr = {p: (ww.sum() if per(c["forget"], p, 0.0) == 0 else (1 - (1 - per(c["forget"], p, 0.0)) ** ww.sum()) / per(c["forget"], p, 0.0)) for p in range(K)}
        ev = estimates(log)
        need(ev, "no coefficient estimate was made")
        need(not fit or broke or {e["tag"] for e in ev} == set(range(K)), "not every distribution parameter was estimated")
        devf = lambda th: float(np.sum(-2 * d.logpdf(y[s], th) * wb))
        groups = []
        for e in ev:
            if groups and groups[-1][0]["tag"] == e["tag"] and K > 1:
                groups[-1].append(e)
            else:
                groups.append([e])
        lastgrp = {}
        kept = {p: None for p in range(K)}
        for gi, grp in enumerate(groups):
            p = grp[0]["tag"]
            outer = gi // K + 1
            fg = per(c["forget"], p, 0.0)
            ff = (1 - fg) ** np.arange(b - 1, -1, -1)
            st = float(per(c["step"], p, 1.0))
            own = [acc[:, p].copy()]
            start = devf(acc)
            prevdev = start
            ninc = 0
            cands = None
            for ei, e in enumerate(grp):
                lab = f"{'fit' if fit else f'update {k}'}, parameter {p}, estimate {gi}.{ei}: "
                need(e["d1"] is not None and e["d2"] is not None and e["x"] is not None and e["y"] is not None, lab + "derivatives or statistics were not evaluated for this estimate")
                th = e["d1"]["theta"]
                if aspects == "C16":
                    need(e["d1"]["param"] == p and e["d2"]["param"] == p, lab + f"derivatives taken for parameter {e['d1']['param']}/{e['d2']['param']}")
                    same(e["d1"]["theta"], e["d2"]["theta"], lab + "parameter values differ between first and second derivative; they")
                    cl(e["d1"]["y"], y[s], lab + "response in the score")
                    cl(e["d2"]["y"], y[s], lab + "response in the information")
                    if not np.isfinite(th).all():
                        raise Skip
                    for q in range(K):
                        if q != p:
                            cl(th[:, q], acc[:, q], lab + f"value of parameter {q}")
                    need(any(eq_(th[:, p], o) for o in own), lab + f"own parameter value {short(th[:4, p])} is neither the start value nor the latest fitted value {short(own[-1][:4])}")
                    eta = d.link_function(th[:, p], param=p)
                    dr = 1 / d.link_inverse_derivative(eta, param=p)
                    wt = np.clip(-(d.dl2_dp2(y[s], th, param=p) / (dr * dr)), 1e-10, 1e10)
                    wv = eta + d.dl1_dp1(y[s], th, param=p) / (dr * wt)
                    if not (np.isfinite(wt).all() and np.isfinite(wv).all()):
                        raise Skip
                    for nm in ("x", "y"):
                        cl(e[nm]["X"], DES[p], lab + "design matrix")
                        cl(e[nm]["weights"], wb * wt, lab + "regression weights")
                        need(float(e[nm]["forget"]) == fg, lab + f"forget factor {e[nm]['forget']} instead of {fg}")
                    cl(e["y"]["y"], wv, lab + "working response")
                    same(e["x"]["out"], e["est"]["x_gram"], lab + "the X'X statistic handed to the estimate")
                    same(e["y"]["out"], e["est"]["y_gram"], lab + "the X'y statistic handed to the estimate")
                    need((e["x"]["kind"] == "ix") == fit and (e["y"]["kind"] == "iy") == fit, lab + "wrong kind of statistic call")
                else:
                    eta = d.link_function(th[:, p], param=p)
                e["eta"] = eta
                if aspects == "C17" and not fit:
                    need(e["x"]["kind"] == "ux" and e["y"]["kind"] == "uy", lab + "statistics are rebuilt instead of updated")
                    ok = [i for i, (a_, b_) in enumerate(store[p]) if np.array_equal(a_, e["x"]["gram"]) and np.array_equal(b_, e["y"]["gram"])]
                    need(ok, lab + f"the iteration starts from the statistics {short(e['x']['gram'])}, {short(e['y']['gram'])}; stored before the update were {short(store[p][-1][0])}, {short(store[p][-1][1])}")
                    store[p] = [store[p][i] for i in ok]
                    need(float(e["x"]["forget"]) == fg and float(e["y"]["forget"]) == fg, lab + "wrong forget factor")
                    need(e["x"]["X"].shape[0] == b and e["y"]["X"].shape[0] == b, lab + "not the rows of the batch")
                    cl(e["x"]["X"], DES[p], lab + "design matrix (scaled with all data once)")
                    same(e["x"]["out"], e["est"]["x_gram"], lab + "the X'X statistic handed to the estimate")
                    same(e["y"]["out"], e["est"]["y_gram"], lab + "the X'y statistic handed to the estimate")
                # candidates for the new fitted values
                if e["est"]["op"].endswith("path"):
                    betas = np.asarray(e["est"]["out"])
                else:
                    betas = np.asarray(e["est"]["out"])[None, :]
                cands = []
                for bb in betas:
                    for q in (range(ninc + 1) if fit else [0]):
                        ss = st / 2**q if fit else 1.0
                        cands.append(d.link_inverse(ss * (DES[p] @ bb) + (1 - ss) * eta, param=p))
                e["cands"] = cands
                nd = []
                for cc in cands:
                    t2 = acc.copy()
                    t2[:, p] = cc
                    nd.append(devf(t2))
                amb = len(cands) > 1
                tol = 1e-6 * (1 + abs(start))
                if amb:
                    own = own[-1:] + cands if not (len(own) > 1) else own + cands
                    if any(not (v <= prevdev - tol) for v in nd):
                        ninc += 1
                    prevdev = min([prevdev] + [v for v in nd if np.isfinite(v)])
                else:
                    v = nd[0]
                    if v <= prevdev - tol:
                        own = [cands[0]]
                        prevdev = v
                    elif v > prevdev + tol or not np.isfinite(v):
                        ninc += 1
                    else:
                        own = own + [cands[0]]
                        ninc += 1
                        prevdev = min(v, prevdev)
            # what is kept after the group
            last = grp[-1]
            lastgrp[p] = last
            nxt = None
            if gi + 1 < len(groups):
                nn = groups[gi + 1][0]["d1"]
                nxt = nn["theta"][:, p] if nn is not None else None
            elif not broke:
                # the last group: the coefficients must reproduce the kept values
                pass
            # determine acceptance (fit, later outer iterations may reject)
            poss = list(last["cands"])
            nd = []
            for cc in poss:
                t2 = acc.copy()
                t2[:, p] = cc
                nd.append(devf(t2))
            rej_ok = fit and outer > 1 and any(not (v <= start - 1e-6 * (1 + abs(start))) for v in nd)
            if nxt is not None and groups[gi + 1][0]["tag"] != p:
                hit = [cc for cc in poss if eq_(nxt, cc)]
                if hit:
                    acc[:, p] = nxt
                    kept[p] = last
                elif rej_ok and eq_(nxt, acc[:, p]):
                    pass
                else:
                    if aspects == "C16":
                        raise Fail(f"{'fit' if fit else f'update {k}'}: fitted values kept for parameter {p} after estimate {gi} are {short(nxt[:4])}, expected the inverse link of the linear predictor {short(poss[0][:4])}")
                    acc[:, p] = nxt
                    kept[p] = last
            else:
                kept[p] = ("last", last, rej_ok, kept[p])
        if broke:
            raise Skip
        # resolve what the final coefficients correspond to
        for p in range(K):
            cand = [gr[-1] for gr in groups if gr[0]["tag"] == p]
            rej = kept[p][2] if isinstance(kept[p], tuple) else True

            def ok_(e):
                out = np.asarray(e["est"]["out"])
                if out.ndim == 2:
                    return m.coef_path_[p] is not None and eq_(m.coef_path_[p], out, 1e-13) and any(eq_(m.coef_[p], r, 1e-13) for r in out)
                return eq_(m.coef_[p], out, 1e-13)
            match = [e for e in cand if ok_(e)]
            if not match or not (any(cand[-1] is e for e in match) or (fit and len(cand) > 1 and rej)):
                out = np.asarray(cand[-1]["est"]["out"])
                raise Fail(f"{'fit' if fit else f'update {k}'}: coefficients kept for parameter {p} are {short(m.coef_[p])}, the last estimate is {short(out)}")
            if not fit:
                match = [cand[-1]]
            store[p] = [(e["x"]["out"], e["y"]["out"]) for e in match]
        if aspects == "C17":
            cl(m.n_observations_, ww.sum(), "observation count")
            for p in range(K):
                cl(m.n_training_[p], ntr[p], f"effective length of parameter {p}")
            gd = getattr(m, "_global_dev", None)
            if gd is not None:
                if not fit and dev is not None:
                    with Quiet():
                        th = m.predict_distribution_parameters(X[s])
                    if np.isfinite(th).all():
                        cl(gd, (1 - per(c["forget"], 0, 0.0)) ** b * dev + devf(th), "stored deviance", 1e-5)
                dev = float(gd)


def c16(c):
    monitor(c, "C16")


def c17(c):
    monitor(c, "C17")


def g16(g):
    return g_case(g)


def g17(g):
    return g_case(g, upd=(1, 4))


# ---------------------------------------------------------------- C18
def g18(g):
    c = g_case(g, upd=(0, 2))
    c["method"] = g.pick(["ols", "ols", "lasso"])
    c["nq"] = int(g.pick([1, 2, 5]))
    c["npred"] = int(g.pick([1, 2, 7]))
    c["Xp"] = g.r.normal(size=(c["npred"], c["X"].shape[1]))
    c["q"] = g.r.uniform(0.05, 0.95, c["nq"])
    c["bad"] = g.pick(["link ", "", "Response", "mean", "linkresponse", "resp", "predictor"])
    return c


def snap(m):
    return copy.deepcopy({k: v for k, v in vars(m).items() if k.endswith("_") and not k.startswith("_")})


def c18(c):
    log = []
    m, d = build(c, log)
    n = 0
    for k, b in enumerate(c["parts"]):
        s = slice(n, n + b)
        call(m.fit if k == 0 else m.update, c["X"][s], c["y"][s], **kw(c, s))
        n += b
    K = c["K"]
    Xp = c["Xp"]
    x0 = Xp.copy()
    s0 = snap(m)
    Z = scaled(c, n, Xp)
    lin = np.column_stack([design(c, p, Z) @ m.coef_[p] for p in range(K)])
    if np.abs(lin).max() > 200 or not np.isfinite(lin).all():
        raise Skip
    link = m.predict_distribution_parameters(Xp, what="link")
    close(link, lin, 1e-7, 1e-8 * (1 + np.abs(lin).max()), "linear predictors")
    resp = np.column_stack([d.link_inverse(link[:, p], param=p) for p in range(K)])
    got = m.predict_distribution_parameters(Xp)
    cl(got, resp, "predicted parameters")
    cl(m.predict_distribution_parameters(Xp, what="response"), resp, "predicted parameters")
    for wh in ("link", "response"):
        a, con = m.predict_distribution_parameters(Xp, what=wh, return_contributions=True)
        cl(a, lin if wh == "link" else resp, "predictions with contributions")
        need(len(con) == K, "one block of contributions per parameter")
        for p in range(K):
            close(np.asarray(con[p]), design(c, p, Z) * m.coef_[p][None, :], 1e-7, 1e-8 * (1 + np.abs(lin).max()), "contributions")
            close(np.asarray(con[p]).sum(axis=1), lin[:, p], 1e-7, 1e-7 * (1 + np.abs(lin).max()), "sum of contributions")
    need(raises(ValueError, lambda: m.predict_distribution_parameters(Xp, what=c["bad"])), f"what={c['bad']!r} was accepted")
    npred = len(Xp)
    try:
        ref = d.mean(resp)
    except NotImplementedError:
        ref = None
    if ref is not None and np.isfinite(ref).all():
        cl(m.predict(Xp), np.asarray(ref).reshape(npred), "mean prediction")
    cl(m.predict_median(Xp), np.asarray(d.ppf(0.5, resp)).reshape(npred), "median prediction")
    q = c["q"]
    ref = np.column_stack([np.asarray(d.ppf(float(v), resp)).reshape(npred) for v in q])
    cl(m.predict_quantile(Xp, q), ref, "quantile predictions")
    cl(m.predict_quantile(Xp, float(q[0])), ref[:, :1], "quantile prediction")
    same(x0, Xp, "the data passed to predict")
    same(s0, snap(m), "the fitted model")
    close(m.predict_distribution_parameters(Xp), got, 1e-12, None, "repeated prediction")


# ---------------------------------------------------------------- C19
ALLF = FAM + ["Exponential", "JSU", "BetaInflated"]


def g19(g):
    r = g.r
    name = g.pick([n for n in ALLF])
    K = NP.get(name, 2)
    J = 2
    n = 40 + int(r.integers(0, 20))
    if name == "Exponential":
        y = r.exponential(size=n) + 1e-3
    elif name == "JSU":
        y = np.sinh(r.normal(size=n) * 0.5)
    elif name == "BetaInflated":
        y = sample(g, "Beta", n)
        y[r.random(n) < 0.2] = 0.0
        y[r.random(n) < 0.2] = 1.0
    else:
        y = sample(g, name, n)
    X = r.normal(size=(n, J))
    m = int(g.pick([1, 1, 2, 5, 9]))
    return dict(name=name, X=X, y=y, m=m, Xn=r.normal(size=(m, J)), yn=r.choice(y, m), pos=int(r.integers(m)), side=int(r.integers(2)),
                dist_=float(g.pick([1e-12, 1e-6, 1e-3, 0.1, 1.0, 1e6, np.inf])), w=g.pick([None, "zero", "rand"]), forget=float(g.pick([0.0, 0.02])),
                scale=bool(r.random() < 0.5), fitpos=int(r.integers(n)), method=g.pick(["ols", "lasso"]), X2=r.normal(size=(3, J)), y2=r.choice(y, 3))


def c19(c):
    d = dist(c["name"])
    lo, hi = d.distribution_support
    bound = (lo, hi)[c["side"]]

    def mk():
        return ODR(distribution=dist(c["name"]), equation={0: "all"}, forget=c["forget"], scale_inputs=c["scale"], max_it_outer=2, max_it_inner=3, method=c["method"])
    bad = None
    if np.isfinite(bound):
        bad = bound + (-1 if c["side"] == 0 else 1) * c["dist_"] if np.isfinite(c["dist_"]) else np.nextafter(bound, -np.inf if c["side"] == 0 else np.inf)
        if bad == bound or (c["side"] == 0 and bad >= bound) or (c["side"] == 1 and bad <= bound):
            bad = np.nextafter(bound, -np.inf if c["side"] == 0 else np.inf)
    if bad is not None:
        yb = c["y"].copy()
        yb[c["fitpos"]] = bad
        with Quiet():
            need(raises(OutOfSupportError, lambda: mk().fit(c["X"], yb)), f"fit accepted the response {bad!r} outside the support {d.distribution_support}")
    m, k = mk(), mk()
    call(m.fit, c["X"], c["y"])
    call(k.fit, c["X"], c["y"])
    w = None
    if c["w"] is not None:
        w = np.ones(c["m"])
        if c["w"] == "zero":
            if c["m"] > 1:
                w[c["pos"]] = 0.0
        else:
            w = np.linspace(0.5, 2, c["m"])
    if bad is not None:
        yn = c["yn"].copy()
        yn[c["pos"]] = bad
        s0 = snap(m)
        p0 = m.predict_distribution_parameters(c["Xn"])
        with Quiet():
            need(raises(OutOfSupportError, lambda: m.update(c["Xn"], yn, sample_weight=w)), f"update accepted the response {bad!r} outside the support {d.distribution_support}")
        same(s0, snap(m), "after a rejected update the fitted model")
        same(p0, m.predict_distribution_parameters(c["Xn"]), "after a rejected update the prediction")
        with Quiet():
            need(raises(OutOfSupportError, lambda: m.partial_fit(c["Xn"], yn)), f"partial_fit accepted the response {bad!r}")
        same(s0, snap(m), "after a rejected partial fit the fitted model")
    # inside the range: accepted; and the rejected update has left no trace
    y2 = c["y2"]
    with Quiet():
        for mm in (m, k):
            try:
                mm.update(c["X2"], y2)
            except OutOfSupportError:
                raise Fail(f"responses {y2} inside the support {d.distribution_support} were rejected")
            except Exception:
                raise Skip
    same(snap(k), snap(m), "an update after a rejected one: the fitted model")
    # end points of the range are accepted
    if np.isfinite(bound):
        ye = c["y2"].copy()
        ye[0] = bound
        with Quiet():
            try:
                m.update(c["X2"], ye)
            except OutOfSupportError:
                raise Fail(f"the end point {bound} of the support was rejected")
            except Exception:
                pass


# ---------------------------------------------------------------- C20
class Ctr:
    n = 0


def fake_dist(K, script, ctr, nrows):
    base = {2: "Normal", 3: "StudentT"}[K]
    c = cls(base)

    class Fake(c):
        def logpdf(self, y, theta):
            i = min(ctr.n, len(script) - 1)
            return np.full(len(y), -0.5 * script[i] / len(y))
    d = dist(base)
    s = Fake.__new__(Fake)
    s.__dict__.update(d.__dict__)
    return s


class CountSpy(Spy):
    def __init__(self, inner, log, tag, ctr):
        super().__init__(inner, log, tag)
        self.ctr = ctr

    def fit_beta(self, *a, **k):
        self.ctr.n += 1
        return super().fit_beta(*a, **k)

    def update_beta(self, *a, **k):
        self.ctr.n += 1
        return super().update_beta(*a, **k)


def g20(g):
    r = g.r
    K = int(g.pick([2, 2, 3]))
    mx = int(g.pick([1, 2, 3, 5, 8, 12]))
    mn = int(g.pick([1, 1, 2, 3, mx]))
    mn = min(mn, mx)
    L = 3000
    kind = g.pick(["conv", "osc", "inc", "mixed", "flat"])
    d0 = float(r.uniform(50, 500))
    t = np.arange(L)
    if kind == "conv":
        S = d0 * (1 + g.pick([0.5, 2.0]) * float(r.uniform(0.2, 0.85)) ** t)
    elif kind == "osc":
        S = d0 * (1 + 0.3 * (-1.0) ** t * r.uniform(0.5, 1, L))
    elif kind == "inc":
        S = d0 * (1 + 0.05 * t)
    elif kind == "flat":
        S = d0 + 10.0 ** (-np.minimum(t, 12) * r.uniform(0.2, 1.5))
    else:
        S = d0 * np.cumprod(r.choice([0.9, 0.97, 0.999, 0.99999, 1.001, 1.05], L, p=[.25, .25, .2, .1, .1, .1]))
        S = np.maximum(S, 1e-3)
    if r.random() < 0.2:
        S = -S
    n = 25
    return dict(K=K, S=S[:800], mx=mx, mn=mn, inner=int(g.pick([1, 1, 2, 4, 7])), pf=int(g.pick([0, 0, 0, 1, 2, mx])), pfu=int(g.pick([0, 0, 1, 3, mx])),
                abs_=float(g.pick([0.0, 1e-3, 1e-1, 1.0, 5.0])), rel=float(g.pick([0.0, 1e-5, 1e-3, 1e-2])), absi=float(g.pick([0.0, 1e-3])),
                X=r.normal(size=(n + 4, 2)), y=r.normal(size=n + 4), order=r.permutation(K) if r.random() < 0.6 else None, forget=float(g.pick([0.0, 0.1])),
                weighted=bool(r.random() < 0.3), cautious=bool(r.random() < 0.3))


def c20(c):
    K, S = c["K"], c["S"]
    ctr = Ctr()
    ctr.n = 0
    log = []
    pf = min(c["pf"], c["mx"])
    pfu = min(c["pfu"], c["mx"])
    m = ODR(distribution=fake_dist(K, S, ctr, 25), method={p: CountSpy(OrdinaryLeastSquares(), log, p, ctr) for p in range(K)},
            equation={p: "intercept" for p in range(K)}, max_it_outer=c["mx"], max_it_inner=c["inner"], min_it_outer=c["mn"], prefit_initial=pf, prefit_update=pfu,
            abs_tol_outer=c["abs_"], rel_tol_outer=c["rel"], abs_tol_inner=c["absi"], rel_tol_inner=0.0, param_order=c["order"], forget=c["forget"], cautious_updates=c.get("cautious", False))
    order = list(range(K)) if c["order"] is None else [int(i) for i in c["order"]]
    dev_prev = None
    for phase, s in (("fit", slice(0, 25)), ("update", slice(25, 29))):
        del log[:]
        ctr.n = 0
        b = s.stop - s.start
        old = 0.0 if phase == "fit" else (1 - c["forget"]) ** b * dev_prev
        try:
            with Quiet():
                (m.fit if phase == "fit" else m.update)(c["X"][s], c["y"][s])
        except np.linalg.LinAlgError:
            raise Skip
        seq = [e["tag"] for e in log if e["kind"] == "est"]
        runs = []
        for t in seq:
            if runs and runs[-1][0] == t:
                runs[-1][1] += 1
            else:
                runs.append([t, 1])
        need(len(runs) % K == 0, f"{phase}: parameter sequence {seq[:30]} does not visit all parameters in every iteration")
        T = len(runs) // K
        pre = pf if phase == "fit" else pfu
        mn = max(pre, c["mn"])
        most = max(mn, min(4, c["mx"])) if phase == "update" and c.get("cautious") else mn  # a cautious update may raise the minimum
        for i, (t, cnt) in enumerate(runs):
            need(t == order[i % K], f"{phase}: parameters visited in the order {[r[0] for r in runs[:K]]} instead of {order}")
            lim = 1 if i // K < pre else c["inner"]
            need(1 <= cnt <= lim, f"{phase}: {cnt} inner iterations of parameter {t} in outer iteration {i // K + 1}, limit {lim}")
        need(mn <= T <= c["mx"], f"{phase}: {T} outer iterations, minimum {mn}, maximum {c['mx']}")
        ends = np.cumsum([r[1] for r in runs])[K - 1::K]
        devs = [old + S[0]] + [old + S[min(int(e), len(S) - 1)] for e in ends]
        for t in range(mn, T + 1):
            a, b2 = devs[t - 1], devs[t]
            df = abs(a - b2)
            edge = abs(df - c["abs_"]) < 1e-9 * (1 + abs(a)) or abs(df / abs(a) - c["rel"]) < 1e-12
            stop = df < c["abs_"] or df / abs(a) < c["rel"] or t >= c["mx"] or (phase == "fit" and b2 > a)
            if edge:
                if not (t >= c["mx"]):
                    break
            if t < T:
                need(not stop or t < most, f"{phase}: went on after outer iteration {t} although the deviance changed from {a!r} to {b2!r} (tolerances {c['abs_']}, {c['rel']})")
            else:
                need(stop, f"{phase}: stopped after outer iteration {t} (maximum {c['mx']}) although the deviance changed from {a!r} to {b2!r} (tolerances {c['abs_']}, {c['rel']})")
        dev_prev = devs[-1]


# ---------------------------------------------------------------- C21
def g21(g):
    c = g_case(g, upd=(1, 3))
    c["method"] = "ols"
    c["single"] = bool(g.r.random() < 0.5)
    c["drop"] = g.pick(["forget", "step", "ic", "eq", "none"])
    c["kind"] = g.pick(["obj", "str", "dictstr", "dictobj"])
    c["what"] = g.pick(["ols", "lasso"])
    return c


def c21_options(c):
    """single values and mappings reach the right parameter; caller objects untouched"""
    K = c["K"]
    c = dict(c)
    for opt, nm, dflt in (("forget", "forget", 0.0), ("step", "step", 1.0), ("eq", "eq", None)):
        if c["drop"] == opt and isinstance(c[nm], dict) and K > 1:
            c[nm] = dict(c[nm])
            q = K - 1 if opt != "eq" else 1
            if opt == "eq":
                if isinstance(c["fi"], dict) and not c["fi"].get(q, True):
                    continue
                c[nm].pop(q)
            else:
                c[nm].pop(q, None)
    log = []
    eqfull = dict(c["eq"])
    for p in range(K):
        eqfull.setdefault(p, "intercept")
    m, d = build(c, log, log)
    params = m.get_params(deep=False)
    snapm = {p: {k: v for k, v in vars(s).items() if k not in ("log", "inner")} for p, s in params["method"].items()}
    snapi = {p: copy.deepcopy(vars(s.inner)) for p, s in params["method"].items()}
    keep = {k: copy.deepcopy(v) for k, v in params.items() if k not in ("method", "distribution")}
    methkeys = list(params["method"].keys())
    links0 = dict(d.links)
    ids = {p: id(s) for p, s in params["method"].items()}
    X0, y0 = c["X"].copy(), c["y"].copy()
    w0 = None if c["w"] is None else c["w"].copy()
    n = 0
    cs = dict(c)
    cs["eq"] = eqfull
    for k, b in enumerate(c["parts"]):
        s = slice(n, n + b)
        del log[:]
        try:
            call(m.fit if k == 0 else m.update, c["X"][s], c["y"][s], **kw(c, s))
            ok = True
        except Skip:
            ok = False
        n += b
        Z = scaled(cs, n, X0[s])
        ev = estimates(log)
        seen = set()
        for e in ev:
            p = e["tag"]
            fg = per(c["forget"], p, 0.0)
            need(e["x"]["forget"] == fg and e["y"]["forget"] == fg, f"parameter {p} uses forget factor {e['x']['forget']}, configured {fg}")
            cl(e["x"]["X"], design(cs, p, Z), f"design of parameter {p}")
            J = e["x"]["X"].shape[1]
            reg = np.ones(J, bool)
            only = isinstance(eqfull[p], str) and eqfull[p] == "intercept"
            if per(c["fi"], p, True) and not per(c["regint"], p, False) and not only:
                reg[0] = False
            if not only:
                need(np.array_equal(np.asarray(e["est"]["reg"], bool), reg), f"parameter {p}: regularised coefficients {e['est']['reg']} instead of {reg}")
            need(id(e["est"]["who"]) != ids[p], "the caller's method object itself is used")
            seen.add((p, id(e["est"]["who"])))
        need(len({q for _, q in seen}) == len(seen) == len({p for p, _ in seen}), "parameters share a method object")
        # step size of the first estimate of each parameter, while fitting
        if k == 0 and ok and len(ev) and K > 1:
            firsts = {}
            th_after = {}
            for i, e in enumerate(ev):
                if e["tag"] not in firsts:
                    firsts[e["tag"]] = e
                    nx = next((f for f in ev[i + 1:]), None)
                    if nx is not None and nx["tag"] != e["tag"]:
                        th_after[e["tag"]] = nx["d1"]["theta"][:, e["tag"]]
            for p, th in th_after.items():
                e = firsts[p]
                st = per(c["step"], p, 1.0)
                eta = d.link_function(e["d1"]["theta"][:, p], param=p)
                lin = e["x"]["X"] @ np.asarray(e["est"]["out"])
                cl(th, d.link_inverse(st * lin + (1 - st) * eta, param=p), f"parameter {p}: fitted values with step size {st}", 1e-5)
        if ok:
            with Quiet():
                m.predict_distribution_parameters(c["X"][s])
        same(keep, {q: v for q, v in m.get_params(deep=False).items() if q in keep}, "option passed by the caller")
        need(list(m.get_params(deep=False)["method"].keys()) == methkeys, "the method mapping was modified")
        for p, s_ in m.get_params(deep=False)["method"].items():
            need(id(s_) == ids[p], "the method mapping was modified")
            same(snapm[p], {q: v for q, v in vars(s_).items() if q not in ("log", "inner")}, "method object passed by the caller")
        need(dict(d.links) == links0, "the distribution's links were modified")
        same(X0, c["X"], "X")
        same(y0, c["y"], "y")
        if w0 is not None:
            same(w0, c["w"], "sample_weight")
        if not ok:
            raise Skip


def c21_methods(c):
    """methods given as string, object or mapping of either"""
    K = c["K"]
    what = c["what"]
    mk = (lambda: OrdinaryLeastSquares()) if what == "ols" else (lambda: LassoPath(lambda_n=6))
    if c["kind"] == "obj":
        meth = mk()
        objs = [meth]
    elif c["kind"] == "str":
        meth = what
        objs = []
    elif c["kind"] == "dictstr":
        meth = {K - 1: what, 0: "ols"} if K > 1 else {0: what}
        objs = []
    else:
        meth = {p: mk() for p in range(K)}
        objs = list(meth.values())
    st0 = [copy.deepcopy(vars(o)) for o in objs]
    m0 = dict(meth) if isinstance(meth, dict) else meth
    m = ODR(distribution=dist(c["name"]), equation=c["eq"], method=meth, fit_intercept=c["fi"], max_it_outer=2, max_it_inner=2, forget=c["forget"])
    e0 = copy.deepcopy(c["eq"])
    b = c["parts"][0]
    try:
        call(m.fit, c["X"][:b], c["y"][:b])
        if len(c["parts"]) > 1:
            call(m.update, c["X"][b:b + c["parts"][1]], c["y"][b:b + c["parts"][1]])
        ok = True
    except Skip:
        ok = False
    for o, s in zip(objs, st0):
        same(s, vars(o), "method object passed by the caller")
    need(m0 == meth, "the method mapping was modified")
    same(e0, c["eq"], "equation")
    if ok:
        for p in range(K):
            w = m0 if isinstance(m0, str) else what if not isinstance(m0, dict) else (m0.get(p, "ols") if c["kind"] == "dictstr" else what)
            need((m.coef_path_[p] is not None) == (w != "ols"), f"parameter {p} was not estimated with its own method {w}")


def g21p(g):
    c = g_case(g, upd=(1, 4))
    c["method"] = "ols"
    c["lm"] = bool(g.r.random() < 0.4)
    c["again"] = bool(g.r.random() < 0.5)
    return c


def c21_partial(c):
    """first partial fit is a fit, later ones are updates"""
    from ondil.estimators import OnlineLinearModel, OnlineLasso
    def mk():
        if c["lm"]:
            return OnlineLinearModel(forget=per(c["forget"], 0, 0.0), method="ols", scale_inputs=c["scale"])
        return build(c, [])[0]
    a, b_ = mk(), mk()
    n = 0
    hist = list(c["parts"])
    for k, b in enumerate(hist):
        s = slice(n, n + b)
        call(a.partial_fit, c["X"][s], c["y"][s], **kw(c, s))
        call(b_.fit if k == 0 else b_.update, c["X"][s], c["y"][s], **kw(c, s))
        n += b
        same(snap(b_), snap(a), "partial_fit and fit/update differ: fitted model")
        with Quiet():
            same(b_.predict(c["X"][:3]) if c["lm"] else b_.predict_distribution_parameters(c["X"][:3]),
                 a.predict(c["X"][:3]) if c["lm"] else a.predict_distribution_parameters(c["X"][:3]), "partial_fit and fit/update differ: prediction")
    if c["again"]:
        s = slice(0, c["parts"][0])
        call(a.fit, c["X"][s], c["y"][s], **kw(c, s))
        f = mk()
        call(f.fit, c["X"][s], c["y"][s], **kw(c, s))
        same(snap(f), snap(a), "refitting a fitted model: fitted model")


# ---------------------------------------------------------------- C22
def g22(g):
    c = g_case(g, paths=True, upd=(0, 4))
    c["inner"] = 1
    c["outer"] = int(g.pick([1, 1, 2]))
    c["prefit"] = c["prefitu"] = 0
    c["step"] = 1.0
    c["tol"] = 0.0
    c["name"] = g.pick(["Normal", "NormalMeanVariance", "Logistic", "Gamma", "LogNormal", "Gumbel"]) if c["K"] == 2 else c["name"]
    if c["K"] == 2:
        c["y"] = sample(g, c["name"], len(c["y"]))
        if c["name"] in ("Normal", "NormalMeanVariance", "Logistic", "Gumbel"):
            c["y"] = c["y"] + c["X"] @ (g.r.normal(size=c["X"].shape[1]) * 0.5)
    return c


def c22(c):
    log = []
    m, d = build(c, log, log)
    K = c["K"]
    X, y, w = c["X"], c["y"], c["w"]
    n = 0
    store = {}
    coef = {p: None for p in range(K)}
    for k, b in enumerate(c["parts"]):
        s = slice(n, n + b)
        del log[:]
        fit = k == 0
        wb = np.ones(b) if w is None else w[s]
        if fit:
            acc = np.array(d.initial_values(y[s]), float)
            nz = {p: 0 for p in range(K)}
        else:
            acc = np.array(m.predict_distribution_parameters(X[s]), float)
        call(m.fit if fit else m.update, X[s], y[s], **kw(c, s))
        n += b
        ww = np.ones(n) if w is None else w[:n]
        devf = lambda th: float(np.sum(-2 * d.logpdf(y[s], th) * wb))
        new = {}
        ev = estimates(log)
        for gi, e in enumerate(ev):
            p = e["tag"]
            outer = gi // K + 1
            fg = per(c["forget"], p, 0.0)
            ff = (1 - fg) ** np.arange(b - 1, -1, -1)
            ntr = ww.sum() if fg == 0 else (1 - (1 - fg) ** ww.sum()) / fg
            P = np.asarray(e["est"]["out"])
            Xd = e["x"]["X"]
            fitp = Xd @ P.T
            if c["sel"] == "local_rss":
                wt = e["y"]["weights"] * ff
                meas = np.sum(wt[:, None] * (e["y"]["y"][:, None] - fitp) ** 2, axis=0)
                sw = wt.sum()
                if not fit:
                    g_ = (1 - fg) ** b
                    meas = meas + g_ * store[p][0]
                    sw = sw + g_ * store[p][1]
                value = meas / (sw / (b if fit else ntr))
            else:
                th = acc.copy()
                ll = []
                for i in range(len(P)):
                    th[:, p] = d.link_inverse(fitp[:, i], param=p)
                    ll.append(np.sum(wb * ff * d.logpdf(y[s], th)))
                meas = np.array(ll)
                sw = 0.0
                if not fit:
                    meas = meas + (1 - fg) ** b * store[p][0]
                value = meas
            npar = np.count_nonzero(P, axis=1) + sum(nz[q] for q in range(K) if q != p)
            ic = per(c["ic"], p, "aic")
            cr = crit(value, npar, ntr, ic, c["sel"])
            if not np.isfinite(cr).all():
                raise Skip
            best = int(np.argmin(cr))
            ties = np.flatnonzero(cr <= cr.min() + 1e-6 * (1 + np.abs(cr).max()))
            if any(not np.array_equal(P[t], P[best]) for t in ties):
                raise Skip
            newfv = acc.copy()
            newfv[:, p] = d.link_inverse(fitp[:, best], param=p)
            a, bb = devf(acc), devf(newfv)
            if not (np.isfinite(a) and np.isfinite(bb)):
                raise Skip
            if fit and outer > 1:
                if abs(a - bb) < 1e-9 * (1 + abs(a)):
                    raise Skip
                if bb > a:
                    continue
            new[p] = (meas, sw)
            coef[p] = P[best]
            acc = newfv
            nz[p] = np.count_nonzero(P[best])
            cinfo = (cr, ic, best)
            new_info = f"{'fit' if fit else f'update {k}'}, parameter {p}, {c['sel']}, criterion {ic}: row {best} has the smallest value {cr[best]!r}"
            e["info"] = new_info
        store.update(new)
        for p in range(K):
            if not eq_(m.coef_[p], coef[p], 1e-9):
                last = [e for e in ev if e["tag"] == p and "info" in e]
                P = np.asarray(last[-1]["est"]["out"]) if last else None
                got = [i for i in range(len(P)) if eq_(m.coef_[p], P[i], 1e-9)] if P is not None else []
                raise Fail((last[-1]["info"] if last else f"parameter {p}") + f", but the coefficients are row {got}: {short(m.coef_[p])} instead of {short(coef[p])}")


def g_links(g):
    from .dist_rt import NAMES
    nm = g.pick(NAMES)
    K = NP.get(nm, 2)
    return dict(name=nm, links=[int(v) for v in g.r.permutation(6)[:K]], x=np.abs(g.r.normal(size=5)) + 0.1)


def c_links(c):
    """the k-th link given is the link of the k-th parameter"""
    from ondil import links as LK
    pool = [LK.Identity(), LK.Log(), LK.Sqrt(), LK.InverseSoftPlus(), LK.LogShiftValue(0.25), LK.SqrtShiftValue(0.5)]
    ls = [pool[i] for i in c["links"]]
    d = cls(c["name"])(*ls)
    x = c["x"]
    for k, l in enumerate(ls):
        for m, f in (("link_function", l.link), ("link_inverse", l.inverse), ("link_inverse_derivative", l.inverse_derivative)):
            close(getattr(d, m)(x + 1.0, param=k), f(x + 1.0), 1e-12, 1e-12, f"{c['name']}.{m} of parameter {k} with {type(l).__name__}")


CONTRACTS = {
    "C16": [("scoring-steps", g16, c16, 160, 2500), ("links", g_links, c_links, 60, 300)],
    "C17": [("absorb-once", g17, c17, 160, 2500)],
    "C18": [("predictions", g18, c18, 150, 2000), ("links", g_links, c_links, 60, 300)],
    "C19": [("rejection", g19, c19, 200, 2500)],
    "C20": [("stopping", g20, c20, 300, 4000)],
    "C21": [("options", g21, c21_options, 150, 1500), ("methods", g21, c21_methods, 80, 800), ("partial-fit", g21p, c21_partial, 80, 800)],
    "C22": [("selected-row", g22, c22, 250, 3000)],
}
