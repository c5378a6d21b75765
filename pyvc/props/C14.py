"""C14: the linear model with ordinary least squares.  fit; update; update against the contracts of the scaler (C05, C06), of the Gram functions
(C01, C02) and of the effective length (C13)."""
from .est import *
from . import C02

LM = "ondil.estimators.online_linear_model"
Q = LM + ".OnlineLinearModel."
OLS = "ondil.methods.recursive_least_squares"
ASSUMPTIONS = ["contracts of OnlineScaler (C05, C06), init/update_inverted_gram, init/update_y_gram (C01, C02) and calculate_effective_training_length (C13), each proved there",
               "more total weight than features, so that the fit is not refused",
               "scikit-learn validation passes finite float data unchanged",
               "the state after a step consists of uninterpreted values, so that fit; update; update stands for every history (parametricity)"]


def eff(p, M, J, f, fn):
    """effective length by its contract"""
    def stub(forget, n_obs):
        p.prove(f"{p.ex.name}:length:forget", tm.eq(tt(forget), tt(f)), function=fn)
        return SV(tm.app("eff", (tt(n_obs),)))
    contract(M, "calculate_effective_training_length", stub)


def model(p, L, J, method, zero, icpt, to_scale, **kw):
    M = L.load(LM)
    f, g = forget(p, zero)
    J["to_scale"] = to_scale
    M.OnlineScaler = scaler_class(p, J, f, to_scale, Q + "fit")
    eff(p, M, J, f, Q + "fit")
    return M, M.OnlineLinearModel(forget=f, scale_inputs=to_scale, fit_intercept=icpt, method=method, **kw), f, g


def predict(p, m, meth, d, icpt, s, rows, oid, fn):
    """predictions are the scaled design rows times the coefficients rows"""
    n = dimvar(p, "np")
    X = symarr("Xn", (n, d))
    fr = Frame(p, Xn=X)
    r = getattr(m, meth)(X)
    l = None
    if rows is None:
        need_array(p, r, (n,), f"{oid}:shape")
        i = index(p, n, "i")
        got, co = r.el(i), lambda j: tm.app(f"coef{s}", (j,))
    else:
        need_array(p, r, (n, rows), f"{oid}:shape")
        i, l = index(p, n, "i"), index(p, rows, "l")
        got, co = r.el(i, l), lambda j: tm.app(f"P{s}", (l, j))
    v = tm.fresh_bound()
    if icpt:
        want = tm.add(co(N0), tm.sumt(v, d, tm.mul(zf(s, v, tm.app("Xn", (i, v))), co(tm.add(v, ONE)))))
    else:
        want = tm.sumt(v, d, tm.mul(zf(s, v, tm.app("Xn", (i, v))), co(v)))
    p.prove(f"{p.ex.name}:{oid}", tm.eq(got, want), function=fn)
    fr.check()


def u_history(meth, zero, icpt, wk, ts, steps=2, partial=False, pid="C14"):
    def body(p, L):
        J = {"D": None}
        d = dimvar(p, "d")
        to_scale = {"on": True, "off": False, "some": None}[ts]
        if ts == "some":
            to_scale = symarr("mask", (d,), sort="B")
        R = L.load(OLS)
        method = "ols" if meth == "name" else R.OrdinaryLeastSquares()
        M, m, f, g = model(p, L, J, method, zero, icpt, to_scale)
        gram_contracts(p, [R, L.load("ondil.gram")], J, f, icpt, d, Q + "fit", {"init_inverted_gram": ("A", False), "update_inverted_gram": ("A", False), "init_y_gram": ("H", True), "update_y_gram": ("H", True)})
        k, _ = design(type("D", (), {"s": 0, "x": None})(), d, icpt)
        tot = N0
        for s in range(steps + 1):
            D = J["D"] = Data(p, s, d, wk)
            fr = D.frame(p)
            tot = tm.add(tot, D.total())
            if s == 0:
                p.assume(tm.lt(tm.add(d, ONE), D.total()))
            fn = Q + ("fit" if s == 0 else "update")
            try:
                r = m.partial_fit(D.X, D.y, D.w) if partial else (m.fit if s == 0 else m.update)(D.X, D.y, D.w) if s % 2 == 0 else m.update(D.X, D.y, sample_weight=D.w)
            except ValueError as e:
                if p.infeasible():
                    raise PathEnd()
                raise
            c = m.coef_
            need_array(p, c, (k,), f"coef{s}:shape")
            a = index(p, k, "a")
            v = tm.fresh_bound()
            p.prove(f"{p.ex.name}:coef{s}", tm.eq(c.el(a), tm.sumt(v, k, tm.mul(tm.app(f"A{s}", (a, v)), tm.app(f"H{s}", (v, N0))))), function=fn)
            p.prove(f"{p.ex.name}:count{s}", tm.eq(tt(m.n_observations_), tot), function=fn)
            p.prove(f"{p.ex.name}:length{s}", tm.eq(tt(m.n_training_), tm.app("eff", (tot,))), function=fn)
            if s and r is not None and r is not m:
                fail(p, f"returns{s}", "update returns something else than the model")
            fr.check()
    return Unit(f"{pid}.history{'.partial' if partial else ''}.{meth}.{'0' if zero else 'f'}.{'icpt' if icpt else 'raw'}.{wk}.{ts}", body, [Q + "fit", Q + "update", Q + "get_design_matrix", Q + "_prepare_fit", "ondil.design_matrix.add_intercept",
                "ondil.methods.factory.get_estimation_method"] + [f"{OLS}.OrdinaryLeastSquares.{x}" for x in ("init_x_gram", "init_y_gram", "update_x_gram", "update_y_gram", "fit_beta", "update_beta")])


def u_predict(icpt):
    def body(p, L):
        J = {"D": None}
        d = dimvar(p, "d")
        M, m, f, g = model(p, L, J, "ols", False, icpt, True)
        D = J["D"] = Data(p, 0, d, "vec")
        p.assume(tm.lt(tm.add(d, ONE), D.total()))
        R = L.load(OLS)
        gram_contracts(p, [R, L.load("ondil.gram")], J, f, icpt, d, Q + "fit", {"init_inverted_gram": ("A", False), "init_y_gram": ("H", True)})
        k = tm.add(d, ONE) if icpt else d
        R.OrdinaryLeastSquares.fit_beta = lambda self, x_gram, y_gram, is_regularized=None: symarr("coef0", (k,))
        try:
            m.fit(D.X, D.y, D.w)
        except ValueError:
            if p.infeasible():
                raise PathEnd()
            raise
        predict(p, m, "predict", d, icpt, 0, None, "prediction", Q + "predict")
        arr_is(p, "beta", m.beta, (k,), lambda j: tm.app("coef0", (j,)), Q + "beta")
    return Unit(f"C14.predict.{'icpt' if icpt else 'raw'}", body, [Q + "predict", Q + "beta"])


def units(tier):
    out = []
    for z in (True, False):
        for ic in (True, False):
            for wk in ("none", "vec"):
                out.append(u_history("name" if ic else "object", z, ic, wk, {(True, "none"): "on", (True, "vec"): "off", (False, "none"): "some", (False, "vec"): "on"}[(z, wk)]))
    return out + [u_predict(True), u_predict(False), C02.u_beta()]
