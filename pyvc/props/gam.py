"""Ghost collaborators of the distributional regression.

The distribution is an arbitrary family of pointwise functions, the estimation methods are arbitrary, scaler, criterion, forget vector and effective
length are seen through their contracts.  fit() and update() run from /repo's source; where a unit is about one visit of one parameter, the outer
loop is replaced by its contract: the state is arbitrary and the visit of the parameter runs from the source."""
import copy
from fractions import Fraction
from .est import *
from .. import npshim
from ..arr import elementwise
from ..sym import has_sum, Restart

GM = "ondil.estimators.online_gamlss"
Q = GM + ".OnlineDistributionalRegression."
ASSUME = ["the distribution is a family of pointwise functions with K in {1, 2, 3} parameters; every link has a non-zero derivative",
          "contracts of the scaler (C05, C06), the estimation methods (C01-C04), init_forget_vector and calculate_effective_training_length (C13), InformationCriterion (C12), each proved there",
          "scikit-learn validation passes finite float data unchanged",
          "np.linalg.cond yields some number (it only selects a message)",
          "the state before a visit of a parameter is arbitrary (uninterpreted), so that one visit stands for every visit in every history"]
LO, HI = Fraction(1, 10 ** 10), Fraction(10 ** 10)


def clip(t, lo=LO, hi=HI):
    return tt(npshim.clip(SV(t), SV(tm.num(lo)), SV(tm.num(hi))))


class World:
    def __init__(self, p, L, K=2, eqs=("all", "intercept", "int"), icpt=(True, True, True), path=False, wk="vec", on=(), zero=False, sel="local_rss", crit="aic",
                 regint=False, support=None, cond=1.0, order=None, form="dict", given=(), one=False, eqform="dict", **kw):
        self.p, self.L, self.K, self.on, self.path, self.wk = p, L, K, set(on), path, wk
        self.name = p.ex.name
        p.ghost["cond"] = cond
        p.ghost["opaque"] = True
        self.M = L.load(GM)
        C = getattr(self.M, "OnlineDistributionalRegression", None)
        if C is None:
            raise Unsupported("OnlineDistributionalRegression is gone")
        self.C = C
        self.d = dimvar(p, "d")
        self.nl = dimvar(p, "nl")
        # form: how the options are given - a mapping, one value for all parameters, or a mapping for the parameters in given only (the others get the defaults)
        dflt = [form == "partial" and k not in given for k in range(K)]
        self.eqs, self.icpt, self.sel = eqs[:K], tuple(True if dflt[k] else icpt[k] for k in range(K)), sel
        self.regint = [not dflt[k] and (regint if isinstance(regint, bool) else regint[k]) for k in range(K)]
        self.crit = ["aic" if dflt[k] else crit if isinstance(crit, str) else crit[k] for k in range(K)]
        self.tags = ["ols" if dflt[k] else "obj" if one else f"obj{k}" for k in range(K)]
        self.g = []
        for k in range(K):
            if zero or dflt[k]:
                self.g.append(ONE)
                continue
            if form == "scalar" and k:
                self.g.append(self.g[0])
                continue
            v = tm.var(f"g{k}")
            p.spec.varsigns[v.args[0]] = "+"
            p.assume(tm.lt(N0, v))
            p.assume(tm.lt(v, ONE))
            p.spec.samplers[v.args[0]] = lambda rng, env: rng.uniform(0.05, 0.95)
            self.g.append(v)
        self.f = [0.0 if v is ONE else SV(tm.sub(ONE, v)) for v in self.g]
        self.step = []
        for k in range(K):
            if dflt[k]:
                self.step.append(ONE)
                continue
            if form == "scalar" and k:
                self.step.append(self.step[0])
                continue
            v = tm.var(f"step{k}")
            p.spec.varsigns[v.args[0]] = "+"
            p.assume(tm.band(tm.lt(N0, v), tm.le(v, ONE)))
            p.spec.samplers[v.args[0]] = lambda rng, env: rng.uniform(0.1, 1.0)
            self.step.append(v)
        self.mo, self.mi = dimvar(p, "mo"), dimvar(p, "mi")
        self.J = {"D": None, "to_scale": True}
        self.M.OnlineScaler = scaler_class(p, self.J, self.f[0], True, Q + "fit")
        self.equation = {k: self._eq(k) for k in range(K)}
        self.m_ = [self._width(k) for k in range(K)]
        self.Dist = self._dist(support)
        self.Meth = self._meth()
        w = self

        def fv(forget, size):
            n = tt(size)
            k = w.J.get("param")
            if k is None:
                raise Unsupported("forget vector outside of a visit")
            w.ob("forget_vector", tm.eq(tt(forget), tt(w.f[k])), "C16", "C22", "C21")
            return SArr.new((n,), lambda i: tm.power(w.g[k], tm.sub(tm.sub(n, ONE), i[0])), "R")
        contract(self.M, "init_forget_vector", fv)
        contract(self.M, "calculate_effective_training_length", lambda forget, n_obs: SV(tm.app("eff", (tt(forget), tt(n_obs)))))
        if getattr(self.M, "InformationCriterion", None) is None:
            raise Unsupported("the estimator no longer uses InformationCriterion")
        self.M.InformationCriterion = self._ic()
        if one:
            ob = self.Meth(path, "obj")
            self.methods = {k: ob for k in range(K)}
        else:
            self.methods = {k: self.Meth(path, self.tags[k]) for k in range(K)}
        opts = {"forget": self.f, "method": self.methods, "step_size": [SV(v) for v in self.step], "fit_intercept": self.icpt, "regularize_intercept": self.regint, "ic": self.crit}
        for n, v in opts.items():
            if form == "scalar" and (n != "method" or one):
                kw.setdefault(n, v[0])
            elif form == "partial":
                # in an order of the caller's
                kw.setdefault(n, {k: v[k] for k in reversed(range(K)) if not dflt[k]})
            else:
                kw.setdefault(n, {k: v[k] for k in range(K)})
        if form == "partial":
            real = getattr(self.M, "get_estimation_method", None)
            if real is None:
                raise Unsupported("no get_estimation_method")
            contract(self.M, "get_estimation_method", lambda method: self.Meth(path, method) if isinstance(method, str) else copy.copy(method))
        if eqform == "none":
            kw["equation"] = None
        elif eqform == "missing":
            kw.setdefault("equation", {k: e for k, e in reversed(self.equation.items()) if not (isinstance(e, str) and e == "intercept")})
        kw.setdefault("equation", dict(self.equation))
        kw.setdefault("scale_inputs", "some" if K == 1 else True)
        if isinstance(kw["scale_inputs"], str):  # a selection of columns
            kw["scale_inputs"] = symarr("smask", (self.d,), "B")
        self.J["to_scale"] = kw["scale_inputs"]
        kw["param_order"] = order
        self.passed = dict(kw)
        self.copies = {n: dict(v) if isinstance(v, dict) else v for n, v in kw.items()}
        self.mvars = [(o, dict(vars(o))) for o in self.methods.values()]
        self.frames = Frame(p, **{f"{n}{i}": a for n, v in kw.items() for i, a in enumerate(v.values() if isinstance(v, dict) else [v]) if isinstance(a, SArr)})
        self.dist = self.Dist()
        self.m = C(distribution=self.dist, max_it_outer=SV(self.mo), max_it_inner=SV(self.mi), model_selection=sel, **kw)

    def caller(self, fn):
        """what the caller passed in is as it was"""
        if "C21" not in self.on:
            return
        for n, v in self.passed.items():
            c = self.copies[n]
            if isinstance(v, dict):
                self.ob(f"caller:{n}", list(v) == list(c) and all(v[k] is c[k] for k in c), "C21", fn=fn)
            if hasattr(self.m, n):
                self.ob(f"option:{n}", getattr(self.m, n) is v or not isinstance(v, (dict, SArr)), "C21", fn=fn)
        for o, d in self.mvars:
            now = vars(o)
            self.ob("caller:method_object", list(now) == list(d) and all(now[k] is d[k] for k in d), "C21", fn=fn)
        self.frames.check()

    # obligations of the property at hand -------------------------------------------------
    def ob(self, oid, goal, *cats, fn=None):
        if self.on & set(cats):
            self.p.prove(f"{self.name}:{oid}", goal if isinstance(goal, T) else tm.btrue(bool(goal)), function=fn or self.J.get("fn", Q + "fit"))

    def arr(self, oid, a, shape, f, *cats):
        if self.on & set(cats):
            arr_is(self.p, oid, a, shape, f, self.J.get("fn", Q + "fit"))

    # designs ----------------------------------------------------------------------------
    def _eq(self, k):
        e = self.eqs[k]
        p = self.p
        if e == "int":
            q = dimvar(p, f"q{k}")
            d = self.d
            a = symarr(f"eq{k}", (q,), "I", axiom=lambda i, t: [tm.band(tm.le(N0, t), tm.lt(t, d))])
            p.spec.appsamplers[f"eq{k}"] = lambda rng, args, env, apps: 0
            return a
        if e == "mask":
            return symarr(f"eq{k}", (self.d,), "B")
        return e

    def _width(self, k):
        """(columns, i-th column of X or None for 'no columns')"""
        e = self.eqs[k]
        ic = self.icpt[k]
        if e == "intercept":
            return ONE
        if e == "all":
            n = self.d
        elif e == "int":
            n = self.equation[k]._shape[0]
        else:
            from ..arr import mask_select
            n, _ = mask_select(self.equation[k])
            for nv, s in self.p.ghost.get("maskcounts", ()):
                self.p.assume(tm.eq(nv, s))
        return tm.add(n, ONE) if ic else n

    def col(self, k, j):
        e = self.eqs[k]
        if e == "all":
            return j
        if e == "int":
            return tm.app(f"eq{k}", (j,), "I")
        from ..arr import mask_select
        return mask_select(self.equation[k])[1](j)

    def design(self, k, D=None, state=None):
        """entries of the design of parameter k for batch D scaled by the moments after batch state"""
        D = D or self.J["D"]
        s = D.s if state is None else state
        if self.eqs[k] == "intercept":
            return lambda i, j: ONE
        z = lambda i, j: zf(s, self.col(k, j), D.x(i, self.col(k, j)))
        if not self.icpt[k]:
            return z
        return lambda i, j: tm.ite(tm.eq(j, N0), ONE, z(i, tm.sub(j, ONE)))

    def linpred(self, k, i, co, D=None, state=None):
        D = D or self.J["D"]
        s = D.s if state is None else state
        if self.eqs[k] == "intercept":
            return co(N0)
        v = tm.fresh_bound()
        z = lambda j: zf(s, self.col(k, j), D.x(i, self.col(k, j)))
        m = self.m_[k]
        if not self.icpt[k]:
            return tm.sumt(v, m, tm.mul(z(v), co(v)))
        return tm.add(co(N0), tm.sumt(v, tm.sub(m, ONE), tm.mul(z(v), co(tm.add(v, ONE)))))

    # pointwise family -------------------------------------------------------------------
    def at(self, name, k, *xs):
        return tm.app(name, (tm.num(k),) + xs)

    def logpdf(self, y, th):
        return tm.app("logpdf", (y,) + tuple(th))

    def _dist(self, support):
        w, K, p = self, self.K, self.p

        def param_of(param):
            if not isinstance(param, int):
                raise Unsupported("parameter index is symbolic")
            return param

        def link(name):
            def f(self, y, param=0):
                k = param_of(param)
                return elementwise(lambda t: w.at(name, k, t), [y], sort="R") if isinstance(y, SArr) else SV(w.at(name, k, tt(y)))
            return f

        def rows(y, theta):
            if not isinstance(theta, SArr) or theta.ndim != 2 or cdim(theta._shape[1]) != K:
                raise Unsupported("parameters are no matrix with one column per parameter")
            return theta.snapshot()

        def pt(name, keyed=True):
            def f(self, y, theta, param=0):
                th = rows(y, theta)
                n = theta._shape[0]
                if not isinstance(y, SArr) or y.ndim != 1 or not dim_eq(y._shape[0], n):
                    raise Unsupported("response and parameters differ in length")
                ys = y.snapshot()
                if name == "dl1":
                    w.J["score_at"] = theta.buf
                key = (tm.num(param_of(param)),) if keyed else ()
                return SArr.new((n,), lambda i: tm.app(name, key + (ys(i),) + tuple(th((i[0], tm.num(j))) for j in range(K))), "R")
            return f

        def stat(name):
            def f(self, theta):
                th = rows(None, theta)
                return SArr.new((theta._shape[0],), lambda i: tm.app(name, tuple(th((i[0], tm.num(j))) for j in range(K))), "R")
            return f

        class Dist:
            n_params = K
            distribution_support = support or (float("-inf"), float("inf"))
            link_function = link("link")
            link_inverse = link("linv")
            link_inverse_derivative = link("lid")
            dl1_dp1 = pt("dl1")
            dl2_dp2 = pt("dl2")
            mean, median = stat("mean"), stat("median")

            def logpdf(self, y, theta):
                return pt("logpdf", False)(self, y, theta)

            def ppf(self, q, theta):
                """broadcasts the level against one value per observation"""
                th = rows(None, theta)
                n = theta._shape[0]
                base = SArr.new((n,), lambda i: i[0], "I")
                return elementwise(lambda a, i: tm.app("ppf", (a,) + tuple(th((i, tm.num(j))) for j in range(K))), [q, base], sort="R")

            quantile = ppf

            def initial_values(self, y):
                D = w.J["D"]
                w.arr("initial:response", y, (D.n,), lambda i: D.yy(i), "C16")
                return symarr("IV", (D.n, K))

            def calculate_conditional_initial_values(self, y, theta, param):
                th = rows(y, theta)
                n = theta._shape[0]
                k = param_of(param)
                nm = p.freshname("cond")
                w.J["theta"] = lambda i, j: tm.app(nm, (i,)) if j == k else th((i, tm.num(j)))
                return SArr.new((n, K), lambda i: npshim.pick(i[1], [tm.app(nm, (i[0],)) if j == k else th((i[0], tm.num(j))) for j in range(K)]), "R")

            def __call__(self):
                raise Unsupported("call of the distribution")

            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                raise Unsupported("distribution." + n)
        return Dist

    # estimation method ---------------------------------------------------------------
    def working(self, i):
        """(eta, weight, working response) at row i for the current parameter values"""
        J = self.J
        k, D = J["param"], J["D"]
        th = [J["theta"](i, j) for j in range(self.K)]
        eta = self.at("link", k, th[k])
        h = self.at("lid", k, eta)
        d1, d2 = self.at("dl1", k, D.yy(i), *th), self.at("dl2", k, D.yy(i), *th)
        wt = clip(tm.neg(tm.mul(d2, h, h)))
        return eta, wt, tm.add(eta, tm.div(tm.mul(d1, h), wt))

    def _meth(self):
        w, p = self, self.p
        Base = self.L.load("ondil.base").EstimationMethod

        class Ghost(Base):
            def __init__(self, path, tag=None):
                super().__init__(_path_based_method=path, _accepts_bounds=False, _accepts_selection=False)
                self._path_length = SV(w.nl)
                self.lambda_n = SV(w.nl)
                self.tag = tag

            def _gram(self, what, X, weights, forget, y=None, gram=None):
                J = w.J
                k, D = J.get("param"), J["D"]
                if k is None:
                    raise Unsupported("statistics outside of a visit")
                isy = what.endswith("y_gram")
                w.ob("method", self.tag == w.tags[k], "C21")
                w.ob("method:copy", all(self is not o for o in w.methods.values()), "C21")
                m = w.m_[k]
                w.arr(f"{what}:rows", X, (D.n, m), w.design(k), "C16", "C17", "C21")
                w.arr(f"{what}:weights", weights, (D.n,), lambda i: tm.mul(D.W(i), w.working(i)[1]), "C16")
                w.ob(f"{what}:forget", tm.eq(tt(forget), tt(w.f[k])), "C16", "C17", "C21")
                if isy:
                    w.arr(f"{what}:response", y, (D.n,), lambda i: w.working(i)[2], "C16")
                tok = ("H" if isy else "A")
                sh = (m, ONE) if isy else (m, m)
                w.ob(f"{what}:kind", (gram is None) == (D.s == 0), "C16", "C17")
                if gram is not None:
                    w.arr(f"{what}:stored", gram, sh, lambda *i: tm.app(f"{tok}{k}", i), "C17")
                nm = p.freshname(tok)
                J[tok] = nm
                J["calls"].append(what)
                lim = J.get("limit")
                if lim is not None:
                    w.ob(f"{what}:iterations", tm.lt(p.ghost.get("k", N0), lim), "C20")
                return symarr(nm, sh)

            def init_x_gram(self, X, weights, forget):
                return self._gram("init_x_gram", X, weights, forget)

            def init_y_gram(self, X, y, weights, forget):
                return self._gram("init_y_gram", X, weights, forget, y)

            def update_x_gram(self, gram, X, weights, forget):
                return self._gram("update_x_gram", X, weights, forget, None, gram)

            def update_y_gram(self, gram, X, y, weights, forget):
                return self._gram("update_y_gram", X, weights, forget, y, gram)

            def _solve(self, what, x_gram, y_gram, is_regularized, path):
                J = w.J
                k = J["param"]
                m = w.m_[k]
                w.ob(f"{what}:kind", path == w.path, "C16", "C17", "C22")
                if "A" not in J or "H" not in J:
                    w.ob(f"{what}:statistics", tm.FALSE, "C16", "C17")
                    raise PathEnd()
                w.arr(f"{what}:x_gram", x_gram, (m, m), lambda a, b: tm.app(J["A"], (a, b)), "C16", "C17")
                w.arr(f"{what}:y_gram", y_gram, (m, ONE), lambda a, b: tm.app(J["H"], (a, b)), "C16", "C17")
                free0 = w.icpt[k] and not w.regint[k] and w.eqs[k] != "intercept"
                w.arr(f"{what}:regularized", is_regularized, (m,), lambda a: tm.bor(tm.bnot(tm.eq(a, N0)), tm.btrue(not free0)), "C16", "C21")
                if path:
                    nm = J["P"] = p.freshname("P")
                    return symarr(nm, (w.nl, m))
                nm = p.freshname("beta")
                J["beta"] = lambda j: tm.app(nm, (j,))
                return symarr(nm, (m,))

            def fit_beta(self, x_gram, y_gram, is_regularized):
                return self._solve("fit_beta", x_gram, y_gram, is_regularized, False)

            def update_beta(self, x_gram, y_gram, beta, is_regularized):
                return self._solve("update_beta", x_gram, y_gram, is_regularized, False)

            def fit_beta_path(self, x_gram, y_gram, is_regularized):
                return self._solve("fit_beta_path", x_gram, y_gram, is_regularized, True)

            def update_beta_path(self, x_gram, y_gram, beta_path, is_regularized):
                return self._solve("update_beta_path", x_gram, y_gram, is_regularized, True)
        return Ghost

    # criterion ------------------------------------------------------------------------
    def measure(self, l, part=False):
        """the fit of path row l by the configured measure (C22); part: the log-likelihood of the batch only"""
        J = self.J
        k, D, K = J["param"], J["D"], self.K
        g = self.g[k]
        co = lambda j: tm.app(J["P"], (l, j))
        age = lambda i: tm.power(g, tm.sub(tm.sub(D.n, ONE), i))
        v = tm.fresh_bound()
        new = D.s == 0
        disc = tm.power(g, D.n)
        if self.sel == "local_rss":
            eta, wt, wv = self.working(v)
            r = tm.sub(wv, self.linpred(k, v, co))
            s = tm.sumt(v, D.n, tm.mul(r, r, D.W(v), wt, age(v)))
            u = tm.fresh_bound()
            sw = tm.sumt(u, D.n, tm.mul(D.W(u), self.working(u)[1], age(u)))
            if new:
                return tm.div(s, tm.div(sw, D.n))
            mean = tm.div(tm.add(sw, tm.mul(disc, tm.var(f"SW{k}"))), self.eff(k))
            return tm.div(tm.add(s, tm.mul(disc, tm.app(f"MSD{k}", (l,)), tm.var(f"MW{k}"))), mean)
        th = [tm.app("FV", (v, tm.num(j))) for j in range(K)]
        th[k] = self.at("linv", k, self.linpred(k, v, co))
        s = tm.sumt(v, D.n, tm.mul(D.W(v), age(v), self.logpdf(D.yy(v), th)))
        return s if new or part else tm.add(s, tm.mul(disc, tm.app(f"MSD{k}", (l,))))

    def eff(self, k):
        return tm.app("eff", (tt(self.f[k]), self.J["tot"]))

    def _ic(self):
        w, p = self, self.p

        class IC:
            def __init__(self, n_observations, n_parameters, criterion):
                J = w.J
                k = J.get("param")
                if k is None:
                    raise Unsupported("criterion outside of a visit")
                w.ob("criterion:size", tm.eq(tt(n_observations), w.eff(k)), "C22")
                w.ob("criterion:kind", criterion == w.crit[k], "C22", "C21")

                def count(l):
                    tot = N0
                    for j in range(w.K):
                        v = tm.fresh_bound()
                        e = tm.app(J["P"], (l, v)) if j == k else tm.app(f"C{j}", (v,))
                        tot = tm.add(tot, tm.sumt(v, w.m_[j], tm.ite(tm.eq(e, N0), N0, ONE)))
                    return tot
                w.arr("criterion:parameters", n_parameters, (w.nl,), count, "C22")

            def _from(self, kind, x):
                w.ob("criterion:measure", kind == w.sel, "C22")
                if kind == w.sel:
                    w.arr("criterion:" + kind, x, (w.nl,), w.measure, "C22")
                nm = w.J["IC"] = p.freshname("IC")
                return symarr(nm, (w.nl,))

            def from_rss(self, rss):
                return self._from("local_rss", rss)

            def from_ll(self, log_likelihood):
                return self._from("global_ll", log_likelihood)
        return IC

    # the selected row -----------------------------------------------------------------
    def beta(self):
        """coefficients of this iteration as a function of the index"""
        if not self.path:
            return self.J.get("beta")
        ic = self.J.get("IC")
        if ic is None:
            return None
        q = tm.var("B_q", "I")
        am = [x for x in self.p.ghost.get("argmins", []) if self.p.ctx.entails(tm.eq(x[2]((q,)), tm.app(ic, (q,))))]
        P = self.J["P"]
        if am:
            best = am[-1][0]
        else:
            best = self.p.fresh("best", "I")
            v = tm.fresh_bound()
            self.p.assume(tm.band(tm.le(N0, best), tm.lt(best, self.nl)))
            self.p.assume(tm.forall(v, self.nl, tm.le(tm.app(ic, (best,)), tm.app(ic, (v,)))))
        self.J["best"] = best
        return lambda j: tm.app(P, (best, j))

    # state ------------------------------------------------------------------------------
    def need(self, m, *names):
        for n in names:
            if not hasattr(m, n):
                raise Unsupported(f"the model has no attribute {n}")

    def arbitrary(self, m, late):
        """an arbitrary state of the fit in progress (late: after the first outer iteration)"""
        K, D = self.K, self.J["D"]
        self.need(m, "_fv", "coef_", "coef_path_", "_x_gram", "_y_gram", "_rss", "_model_selection_data", "_sum_of_weights", "_mean_of_weights")
        m._fv = symarr("FV", (D.n, K))
        for k in range(K):
            mk = self.m_[k]
            m.coef_[k] = symarr(f"C{k}", (mk,))
            if late:
                m._x_gram[k] = symarr(f"A{k}", (mk, mk))
                m._y_gram[k] = symarr(f"H{k}", (mk, ONE))
                m.coef_path_[k] = symarr(f"CP{k}", (self.nl, mk)) if self.path else None
                m._sum_of_weights[k] = SV(tm.var(f"SW{k}"))
                m._mean_of_weights[k] = SV(tm.var(f"MW{k}"))
                if self.path:
                    m._model_selection_data[k] = symarr(f"MSD{k}", (self.nl,))
        m._rss = symarr("RSS", (K,))

    def fitted_model(self, state=0):
        """the model after an arbitrary history (the outer loop of fit is replaced by its contract)"""
        w = self
        D = self.data(state)
        hit = []

        def outer(self):
            hit.append(1)
            w.arbitrary(self, True)
            return SV(tm.var("GD")), 1
        if getattr(self.C, "_outer_fit", None) is None:
            raise Unsupported("no _outer_fit")
        contract(self.C, "_outer_fit", outer)
        self.m.fit(D.X, D.y, sample_weight=D.w)
        if not hit:
            raise Unsupported("fit does not go through _outer_fit")
        return self.m

    def in_update(self, m):
        """an arbitrary state of the update in progress: what visits of parameters write is arbitrary"""
        K, D = self.K, self.J["D"]
        self.need(m, "_fv", "coef_", "coef_path_", "_x_gram", "_y_gram", "_x_gram_new", "_y_gram_new", "_sum_of_weights", "_mean_of_weights", "_sum_of_weights_new", "_mean_of_weights_new", "_model_selection_data")
        m._fv = symarr("FV", (D.n, K))
        for k in range(K):
            mk = self.m_[k]
            m.coef_[k] = symarr(f"C{k}", (mk,))
            m.coef_path_[k] = symarr(f"CP{k}", (self.nl, mk)) if self.path else None
            m._x_gram_new[k] = symarr(f"AN{k}", (mk, mk))
            m._y_gram_new[k] = symarr(f"HN{k}", (mk, ONE))
            m._sum_of_weights_new[k] = SV(tm.var(f"SWN{k}"))
            m._mean_of_weights_new[k] = SV(tm.var(f"MWN{k}"))
            m._model_selection_data[k] = symarr(f"MSDN{k}", (self.nl,)) if self.path else None

    def deviance(self, th):
        """deviance of the batch at parameter values th(i, j), discounted history included"""
        D = self.J["D"]
        v = tm.fresh_bound()
        t = tm.sumt(v, D.n, tm.mul(tm.num(-2), D.W(v), self.logpdf(D.yy(v), [th(v, j) for j in range(self.K)])))
        return t if D.s == 0 else tm.add(t, tm.mul(tm.power(self.g[0], D.n), tm.var("GD")))

    def visit_contract(self, param, it_outer):
        """loop contract of the inner iterations of one visit"""
        w, p, J = self, self.p, self.J

        def arrays(env, L):
            """local copies of the parameter values: the columns of the other parameters stay"""
            out = {}
            for n, a in env.items():
                if not isinstance(a, SArr) or a.ndim != 2 or cdim(a._shape[1]) != w.K or not dim_eq(a._shape[0], J["D"].n):
                    continue
                i = tm.var("B_fv", "I")
                if all(p.ctx.entails(tm.eq(a.el(i, tm.num(j)), tm.app("FV", (i, tm.num(j))))) for j in range(w.K) if j != param):
                    out[n] = lambda k, i: (tm.bnot(tm.eq(i[1], tm.num(param))), npshim.pick(i[1], [tm.app("FV", (i[0], tm.num(j))) for j in range(w.K)]))
            return out

        def current(env, L):
            n = p.ex.auto.get(L.id + ":theta", "fv_it")
            if not isinstance(env.get(n), SArr):
                raise Unsupported(f"no variable {n} holds the parameter values")
            return env[n]

        def detect(env, L):
            """the variable that holds the parameter values is the one whose score is taken"""
            b = J.get("score_at")
            own = [n for n, a in env.items() if isinstance(a, SArr) and a.buf is b]
            if own and p.ex.auto.get(L.id + ":theta", "fv_it") not in own:
                if L.id + ":theta" in p.ex.auto:
                    raise Unsupported("several variables hold the parameter values")
                p.ex.auto[L.id + ":theta"] = own[0]
                raise Restart()

        def onhavoc(k, env, L):
            a = current(env, L).snapshot()
            J["theta"] = lambda i, j: a((i, tm.num(j)))
            J["step"] = None
            s = getattr(env["self"], "_schedule_step_size", None)
            if isinstance(s, SArr) and s.ndim == 3:
                J["step"] = s.el(tm.sub(it_outer, ONE), k, tm.num(param))

        def onend(k, env, L):
            """the next iteration starts from the fitted values of this one, or from the same values"""
            detect(env, L)
            a = current(env, L)
            i = index(p, J["D"].n, "i")
            e = a.el(i, tm.num(param))
            old = J["theta"](i, param)
            if e is old or p.ctx.entails(tm.eq(e, old)):
                w.ob("stays", w.worse(), "C16")
            elif e.op == "ite" and not p.ctx.entails(e.args[0]) and not p.ctx.entails(tm.bnot(e.args[0])):
                raise Unsupported("undecided step of the inner iteration")
            else:
                w.ob("continues", tm.eq(e, w.fitted(i)), "C16")
        return Inv(lambda k, env, L: [], peel=True, modifies="auto", arrays=arrays, onhavoc=onhavoc, onend=onend)

    def worse(self):
        """on this path the deviance at the new values was found larger than some deviance"""
        J, p = self.J, self.p
        D, k = J["D"], J["param"]
        v = tm.fresh_bound()
        th = [J["theta"](v, j) for j in range(self.K)]
        th[k] = self.fitted(v)
        new = tm.sumt(v, D.n, tm.mul(tm.num(-2), D.W(v), self.logpdf(D.yy(v), th)))
        if D.s:
            new = tm.add(new, tm.mul(tm.power(self.g[0], D.n), tm.var("GD")))
        for c, v in list(p.known.items()):
            if not has_sum(c):
                continue
            while c.op == "not":
                c, v = c.args[0], not v
            big = c.args[1] if c.op == "lt" and v else c.args[0] if c.op == "le" and not v else None
            if big is not None and has_sum(big) and p.ctx.prove(tm.eq(big, new))[0] == "proved":
                return True
        return False

    def fitted(self, i):
        J = self.J
        k = J["param"]
        b = self.beta()
        if b is None:
            return None
        lp = self.linpred(k, i, b)
        if J["D"].s == 0:
            if J["step"] is None:
                raise Unsupported("no step size")
            eta = self.working(i)[0]
            lp = tm.add(tm.mul(J["step"], lp), tm.mul(tm.sub(ONE, J["step"]), eta))
        return self.at("linv", k, lp)

    def data(self, s, wk=None):
        D = self.J["D"] = Data(self.p, s, self.d, wk or self.wk)
        self.J["tot"] = tm.add(self.J.get("tot", N0), D.total())
        return D

    def begin(self, param, it_outer, limit, fn):
        J = self.J
        J.update(param=param, calls=[], fn=fn, step=self.step[param], limit=limit)
        J["theta"] = lambda i, j: tm.app("FV", (i, tm.num(j)))
        for t in ("A", "H", "P", "IC", "beta"):
            J.pop(t, None)


def options(p, W, it):
    """it_outer of the unit: the first, or any later one"""
    if it == "first":
        return ONE
    t = tm.var("it_outer", "I")
    p.assume(tm.band(tm.le(tm.num(2), t), tm.le(t, W.mo)))
    return t
