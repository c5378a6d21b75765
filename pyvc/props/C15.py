"""C15: selection on the path.  fit; update; update with an arbitrary path-based method (ghost), the criterion by its contract (C12)."""
from fractions import Fraction
from .est import *
from .C14 import LM, Q, model, predict
from . import C14

ASSUMPTIONS = ["contracts of OnlineScaler (C05, C06), the estimation method (C01-C04), InformationCriterion (C12), init_forget_vector and calculate_effective_training_length (C13), each proved there",
               "a coefficient counts as zero if np.isclose(coefficient, 0)",
               "total weight not one, so that the fit is not refused", "scikit-learn validation passes finite float data unchanged",
               "the state after a step consists of uninterpreted values, so that fit; update; update stands for every history (parametricity)"]


def method_class(p, L, J, f, icpt, d, nl, regint, fn, use_path=True):
    """an arbitrary path-based estimation method"""
    Base = L.load("ondil.base").EstimationMethod

    class Ghost(Base):
        def __init__(self):
            super().__init__(_path_based_method=True, _accepts_bounds=False, _accepts_selection=False)

        def _rows(self, what, X, weights, forget, y=None, gram=None):
            D = J["D"]
            k, spec = design(D, d, icpt)
            arr_is(p, f"{what}:rows", X, (D.n, k), spec, fn)
            arr_is(p, f"{what}:weights", weights, (D.n,), lambda i: D.W(i), fn)
            p.prove(f"{p.ex.name}:{what}:forget", tm.eq(tt(forget), tt(f)), function=fn)
            isy = what.endswith("y_gram")
            tok = "H" if isy else "A"
            if isy:
                arr_is(p, f"{what}:response", y, (D.n,), lambda i: D.yy(i), fn)
            if gram is not None:
                arr_is(p, f"{what}:previous", gram, (k, N1) if isy else (k, k), lambda *i: tm.app(f"{tok}{D.s - 1}", i), fn)
            return symarr(f"{tok}{D.s}", (k, N1) if isy else (k, k))

        def init_x_gram(self, X, weights, forget):
            return self._rows("init_x_gram", X, weights, forget)

        def init_y_gram(self, X, y, weights, forget):
            return self._rows("init_y_gram", X, weights, forget, y)

        def update_x_gram(self, gram, X, weights, forget):
            return self._rows("update_x_gram", X, weights, forget, None, gram)

        def update_y_gram(self, gram, X, y, weights, forget):
            return self._rows("update_y_gram", X, weights, forget, y, gram)

        def fit_beta(self, x_gram, y_gram, is_regularized):
            fail(p, "path_method", "fit_beta called for a path-based method")
            raise PathEnd()

        update_beta = fit_beta

        def _path(self, x_gram, y_gram, is_regularized, beta_path=None):
            D = J["D"]
            what = "fit_beta_path" if beta_path is None else "update_beta_path"
            k, _ = design(D, d, icpt)
            arr_is(p, f"{what}:x_gram", x_gram, (k, k), lambda a, b: tm.app(f"A{D.s}", (a, b)), fn)
            arr_is(p, f"{what}:y_gram", y_gram, (k, N1), lambda a, b: tm.app(f"H{D.s}", (a, b)), fn)
            arr_is(p, f"{what}:regularized", is_regularized, (k,), lambda a: tm.bor(tm.bnot(tm.eq(a, N0)), tm.btrue(regint or not icpt)), fn)
            if beta_path is not None:
                arr_is(p, f"{what}:previous", beta_path, (nl, k), lambda l, a: tm.app(f"P{D.s - 1}", (l, a)), fn)
            return symarr(f"P{D.s}", (nl, k))

        def fit_beta_path(self, x_gram, y_gram, is_regularized):
            return self._path(x_gram, y_gram, is_regularized)

        def update_beta_path(self, x_gram, y_gram, beta_path, is_regularized):
            return self._path(x_gram, y_gram, is_regularized, beta_path)
    return Ghost


def u(zero, icpt, regint, wk, crit, steps=2, pred=False):
    def body(p, L):
        J = {"D": None}
        d, nl = dimvar(p, "d"), dimvar(p, "nl")
        f0, _ = forget(p, zero)
        G = method_class(p, L, J, f0, icpt, d, nl, regint, Q + "fit")
        M, m, f, g = model(p, L, J, G(), zero, icpt, True, ic=crit, regularize_intercept=regint)
        name = p.ex.name

        def fv(forget, size):
            n = tt(size)
            p.prove(f"{name}:discount:forget", tm.eq(tt(forget), tt(f)), function=Q + "fit")
            return SArr.new((n,), lambda i: tm.power(g, tm.sub(tm.sub(n, ONE), i[0])), "R")
        contract(M, "init_forget_vector", fv)
        k = tm.add(d, ONE) if icpt else d
        state = {"tot": N0, "rss": lambda l: N0}

        def resid(D, i, l):
            _, spec = design(D, d, icpt)
            v = tm.fresh_bound()
            co = lambda j: tm.app(f"P{D.s}", (l, j))
            if icpt:
                fit = tm.add(co(N0), tm.sumt(v, d, tm.mul(zf(D.s, v, D.x(i, v)), co(tm.add(v, ONE)))))
            else:
                fit = tm.sumt(v, d, tm.mul(zf(D.s, v, D.x(i, v)), co(v)))
            return tm.sub(D.yy(i), fit)

        class IC:
            def __init__(self, n_observations, n_parameters, criterion):
                D = J["D"]
                fn = Q + ("fit" if D.s == 0 else "update")
                p.prove(f"{name}:criterion{D.s}:size", tm.eq(tt(n_observations), tm.app("eff", (state["tot"],))), function=fn)
                l = index(p, nl, "l")
                need_array(p, n_parameters, (nl,), f"criterion{D.s}:parameters:shape")
                v = tm.fresh_bound()
                want = tm.sumt(v, k, tm.ite(tm.le(tm.absT(tm.app(f"P{D.s}", (l, v))), tm.num(Fraction(1, 10 ** 8))), N0, ONE))
                p.prove(f"{name}:criterion{D.s}:parameters", tm.eq(n_parameters.el(l), want), function=fn)
                p.prove(f"{name}:criterion{D.s}:kind", tm.TRUE if criterion == crit else tm.FALSE, function=fn)

            def from_rss(self, rss):
                D = J["D"]
                fn = Q + ("fit" if D.s == 0 else "update")
                need_array(p, rss, (nl,), f"criterion{D.s}:rss:shape")
                l = index(p, nl, "l")
                p.prove(f"{name}:criterion{D.s}:rss", tm.eq(rss.el(l), state["rss"](l)), function=fn)
                J["ic"] = D.s
                return symarr(f"IC{D.s}", (nl,))

            def from_ll(self, log_likelihood):
                raise Unsupported("criterion from the likelihood")
        M.InformationCriterion = IC
        for s in range(steps + 1):
            D = J["D"] = Data(p, s, d, wk)
            fr = D.frame(p)
            state["tot"] = tm.add(state["tot"], D.total())
            if s == 0:
                p.assume(tm.lt(ONE, D.total()))

            def rss(l, D=D, old=state["rss"]):
                v = tm.fresh_bound()
                e = resid(D, v, l)
                return tm.add(tm.mul(tm.power(g, D.n), old(l)), tm.sumt(v, D.n, tm.mul(D.W(v), tm.power(g, tm.sub(tm.sub(D.n, ONE), v)), e, e)))
            state["rss"] = rss
            fn = Q + ("fit" if s == 0 else "update")
            try:
                (m.fit if s == 0 else m.update)(D.X, D.y, sample_weight=D.w)
            except ValueError:
                if p.infeasible():
                    raise PathEnd()
                raise
            if J.get("ic") != s:
                fail(p, f"criterion{s}", "no criterion computed")
                return
            c = m.coef_
            need_array(p, c, (k,), f"coef{s}:shape")
            am = [x for x in p.ghost.get("argmins", []) if p.ctx.entails(tm.eq(x[2]((tm.var("B_q", "I"),)), tm.app(f"IC{s}", (tm.var("B_q", "I"),))))]
            if len(am) < 1:
                raise Unsupported("no argmin of the criterion")
            best = am[-1][0]
            l, a = index(p, nl, "l"), index(p, k, "a")
            ic = lambda x: tm.app(f"IC{s}", (x,))
            instantiate(p, l)
            p.prove(f"{name}:row{s}", tm.eq(c.el(a), tm.app(f"P{s}", (best, a))), function=fn)
            p.prove(f"{name}:smallest{s}", tm.le(ic(best), ic(l)), function=fn)
            p.prove(f"{name}:first{s}", tm.implies(tm.lt(l, best), tm.lt(ic(best), ic(l))), function=fn)
            arr_is(p, f"path{s}", m.coef_path_, (nl, k), lambda l, a: tm.app(f"P{s}", (l, a)), fn)
            fr.check()
        if pred:
            predict(p, m, "predict_path", d, icpt, steps, nl, "path_prediction", Q + "predict_path")
            arr_is(p, "beta_path", m.beta_path, (nl, k), lambda l, a: tm.app(f"P{steps}", (l, a)), Q + "beta_path")
            arr_is(p, "beta", m.beta, (k,), lambda a: c.el(a), Q + "beta")
    return Unit(f"C15.{'0' if zero else 'f'}.{'icpt' if icpt else 'raw'}{'_reg' if regint else ''}.{wk}.{crit}", body,
                [Q + "fit", Q + "update", Q + "_prepare_fit", Q + "get_design_matrix"] + ([Q + "predict_path", Q + "beta_path"] if pred else []), cost=2)


def u_lasso():
    """OnlineLasso is the linear model with the lasso path of its options"""
    fn = "ondil.estimators.online_lasso.OnlineLasso.__init__"

    def body(p, L):
        M = L.load("ondil.estimators.online_lasso")
        P = L.load("ondil.methods.lasso_path").LassoPath
        own = {"forget": "R", "scale_inputs": "B", "fit_intercept": "B", "regularize_intercept": "B"}
        of = {"lambda_n": "lambda_n", "lambda_eps": "lambda_eps", "early_stop": "early_stop", "start_value": "start_value_update", "tolerance": "tolerance",
              "max_iterations": "max_iterations", "selection": "selection", "beta_lower_bound": "beta_lower_bound", "beta_upper_bound": "beta_upper_bound"}
        val = {k: SV(tm.var("v_" + k)) for k in (*own, *of)}
        val["ic"] = "aic"
        val["start_value"], val["selection"] = "average", "random"
        val["beta_lower_bound"], val["beta_upper_bound"] = symarr("lob", (dimvar(p, "nb"),)), symarr("upb", (dimvar(p, "nb"),))
        m = M.OnlineLasso(**val)
        e = m.method
        if not isinstance(e, P):
            raise Unsupported("the method is no LassoPath")
        ref = P(**{of[k]: val[k] for k in of}, start_value_initial="previous_lambda")

        def same(a, b):
            return a is b or (isinstance(a, (str, bool, int, float)) and type(a) is type(b) and a == b) or (isinstance(a, SV) and isinstance(b, SV) and tt(a) is tt(b))
        for k in (*own, "ic"):
            p.prove(f"{p.ex.name}:{k}", tm.TRUE if same(getattr(m, k), val[k]) else tm.FALSE, function=fn)
        a, b = vars(e), vars(ref)
        p.prove(f"{p.ex.name}:fields", tm.TRUE if set(a) == set(b) else tm.FALSE, function=fn)
        for k in sorted(set(a) & set(b)):
            p.prove(f"{p.ex.name}:method.{k}", tm.TRUE if same(a[k], b[k]) else tm.FALSE, function=fn)
    return Unit("C15.lasso.options", body, [fn, "ondil.methods.lasso_path.LassoPath.__init__"])


def units(tier):
    out = [u_lasso()]
    for z in (True, False):
        for wk in ("none", "vec"):
            for ic, rg, crit in ((True, False, "bic"), (True, True, "aic"), (False, False, "hqc"), (True, False, "max")):
                out.append(u(z, ic, rg, wk, crit, steps=2 if crit == "bic" else 1, pred=not z and wk == "none"))
    return out
