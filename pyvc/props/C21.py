"""C21: options per distribution parameter; copies of the method; the caller's objects stay as they are; partial_fit."""
from .gam import *
from .C16 import u_fit
from .C17 import u_update
from .C20 import u_outer
from . import C14

ASSUMPTIONS = ASSUME
FAC = "ondil.methods.factory"


def u_factory(kind):
    def body(p, L):
        F = L.load(FAC)
        fn = FAC + ".get_estimation_method"
        E, LS, O = L.load("ondil.methods.elasticnet").ElasticNetPath, L.load("ondil.methods.lasso_path").LassoPath, L.load("ondil.methods.recursive_least_squares").OrdinaryLeastSquares
        if kind == "names":
            for n, c in (("ols", O), ("lasso", LS), ("elasticnet", E)):
                a, b = F.get_estimation_method(n), F.get_estimation_method(n)
                p.prove(f"{p.ex.name}:{n}", tm.btrue(type(a) is c and type(b) is c and a is not b), function=fn)
            for n in ("ridge", "", "OLS"):
                expect_raises(p, "unknown", ValueError, lambda: F.get_estimation_method(n))
            expect_raises(p, "unknown", ValueError, lambda: F.get_estimation_method(None))
            return
        bounds = symarr("bounds", (dimvar(p, "d"),))
        ob = {"ols": lambda: O(), "lasso": lambda: LS(lambda_n=SV(dimvar(p, "ln")), lambda_eps=SV(tm.var("eps")), beta_lower_bound=bounds), "elasticnet": lambda: E(alpha=SV(tm.var("alpha")))}[kind]()
        fr = Frame(p, bounds=bounds)
        before = dict(vars(ob))
        a = F.get_estimation_method(ob)
        b = F.get_estimation_method(ob)
        p.prove(f"{p.ex.name}:copy", tm.btrue(a is not ob and b is not ob and a is not b and type(a) is type(ob)), function=fn)
        now = vars(ob)
        p.prove(f"{p.ex.name}:caller", tm.btrue(list(now) == list(before) and all(now[k] is before[k] for k in before)), function=fn)
        for n, v in before.items():
            x = getattr(a, n, None)
            if isinstance(v, SArr):
                arr_is(p, "settings", x, v._shape, lambda *i: v.el(*i), fn)
            elif isinstance(v, (SV, int, float)) and not isinstance(v, bool):
                p.prove(f"{p.ex.name}:settings", tm.eq(tt(x), tt(v)), function=fn)
            else:
                p.prove(f"{p.ex.name}:settings", tm.btrue(x is v or x == v), function=fn)
        fr.check()
    return Unit(f"C21.factory.{kind}", body, [FAC + ".get_estimation_method", FAC + ".EstimationMethodFactory.from_string"])


def u_session(K, form="dict", one=False, eqform="dict", given=(), eqs=("all", "intercept", "int"), icpt=(True, True, True), wk="vec", path=False, **kw):
    """first partial fit, later ones, predictions: which of fit and update runs on which data, distinct methods, caller's objects"""
    def body(p, L):
        W = World(p, L, K=K, form=form, one=one, eqform=eqform, given=given, eqs=eqs, icpt=icpt, wk=wk, path=path, on=("C21",), **kw)
        m, J = W.m, W.J
        log = []
        W.caller(Q + "__init__")

        def outer(kind):
            def f(self, X, y, w):
                D = J["D"]
                log.append(kind)
                J["fn"] = Q + kind
                for k in range(K):
                    W.arr("rows", X[k], (D.n, W.m_[k]), W.design(k), "C21")
                W.arr("response", y, (D.n,), lambda i: D.yy(i), "C21")
                W.arr("weights", w, (D.n,), lambda i: D.W(i), "C21")
                if kind == "fit":
                    W.arbitrary(self, True)
                else:
                    W.in_update(self)
                return SV(tm.var("GD")), 1
            return f
        contract(W.C, "_outer_fit", outer("fit"))
        contract(W.C, "_outer_update", outer("update"))
        fn = "ondil.base.estimator.OndilEstimatorMixin.partial_fit"
        for s in range(3):
            D = W.data(s)
            fr = D.frame(p)
            del log[:]
            if s == 2:
                r = m.partial_fit(X=D.X, y=D.y, sample_weight=D.w)
            elif wk == "none":
                r = m.partial_fit(D.X, D.y)
            else:
                r = m.partial_fit(D.X, D.y, D.w)
            W.ob("partial_fit", log == ["fit" if s == 0 else "update"], "C21", fn=fn)
            W.ob("partial_fit:returns", r is m, "C21", fn=fn)
            W.ob("partial_fit:count", tm.eq(tt(m.n_observations_), J["tot"]), "C21", fn=fn)
            W.caller(fn)
            fr.check()
            if s == 0:
                W.need(m, "_method")
                ms = [m._method[k] for k in range(K)]
                W.ob("methods:distinct", len({id(x) for x in ms}) == K, "C21", fn=Q + "_prepare_estimator")
                W.ob("methods:copies", all(x is not o for x in ms for o in W.methods.values()), "C21", fn=Q + "_prepare_estimator")
                for k in range(K):
                    W.ob("methods:own", getattr(ms[k], "tag", None) == W.tags[k], "C21", fn=Q + "_prepare_estimator")
        n = dimvar(p, "np")
        X = symarr("XP", (n, W.d))
        qs = symarr("qs", (dimvar(p, "nq"),))
        fr = Frame(p, X=X, quantile=qs)
        m.predict(X), m.predict_median(X), m.predict_quantile(X, qs), m.predict_quantile(X, SV(tm.var("q"))), m.predict_distribution_parameters(X), m.predict_distribution_parameters(X, what="link", return_contributions=True)
        W.caller(Q + "predict")
        fr.check()
        # a fit of a fitted model starts over
        J["tot"] = N0
        D = W.data(0)
        del log[:]
        m.fit(D.X, D.y, sample_weight=D.w)
        W.ob("refit", log == ["fit"], "C21", fn=Q + "fit")
        W.ob("refit:count", tm.eq(tt(m.n_observations_), J["tot"]), "C21", fn=Q + "fit")
        W.caller(Q + "fit")
    return Unit(f"C21.session.K{K}.{form}.{eqform}{'.one' if one else ''}.{wk}.{'-'.join(eqs[:K])}", body, [Q + n for n in ("__init__", "fit", "update", "predict", "predict_median", "predict_quantile", "_prepare_estimator", "_process_parameter", "_process_equation")] +
                ["ondil.base.estimator.OndilEstimatorMixin.partial_fit"], max_paths=60)


def units(tier):
    on = ("C21",)
    kw = dict(on=on, pid="C21")
    t, f = True, False
    out = [u_factory(k) for k in ("names", "ols", "lasso", "elasticnet")]
    out += [u_session(1), u_session(2, "scalar", True, wk="none"), u_session(2, "partial", given=(1,), eqform="missing", eqs=("all", "intercept")), u_session(3, eqform="none", eqs=("all", "intercept", "intercept")),
            u_session(3, "partial", given=(0, 2), eqform="missing", eqs=("intercept", "int", "mask"), icpt=(t, t, f)), u_session(3, "scalar", True, eqform="missing", eqs=("int", "mask", "all"), icpt=(f, f, f)),
            u_session(2, path=True, one=True)]
    # the option that a visit uses
    out += [u_fit(2, 0, "first", f, form="scalar", one=True, regint=t, eqs=("all", "all"), **kw), u_fit(2, 1, "later", f, form="scalar", one=True, eqs=("int", "int"), icpt=(f, f), **kw),
            u_fit(2, 0, "later", f, form="partial", given=(1,), eqs=("all", "int"), icpt=(t, f), regint=t, **kw), u_fit(2, 1, "first", f, form="partial", given=(1,), eqform="missing", eqs=("intercept", "int"), icpt=(t, t), regint=t, **kw),
            u_fit(3, 1, "later", True, form="partial", given=(0, 1), eqs=("all", "mask", "int"), crit=("hqc", "bic", "max"), regint=(t, f, t), icpt=(t, f, t), **kw),
            u_fit(3, 2, "first", True, form="dict", eqs=("all", "mask", "int"), crit=("hqc", "bic", "max"), regint=(t, f, t), icpt=(t, f, t), **kw),
            u_update(2, 0, "first", f, form="scalar", one=True, eqs=("all", "all"), **kw), u_update(2, 0, "later", f, form="partial", given=(1,), eqform="missing", eqs=("all", "int"), **kw),
            u_update(2, 1, "later", True, form="partial", given=(1,), eqs=("all", "int"), crit=("bic", "hqc"), **kw)]
    out += [C14.u_history("name", z, True, w, "on", partial=True, pid="C21") for z, w in ((True, "none"), (False, "vec"))]
    return out
