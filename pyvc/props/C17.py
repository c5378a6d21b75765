"""C17: one update of the distributional regression: the statistics stored before the update are extended by the batch once."""
from .gam import *
from .C16 import check_frames, select_contract

ASSUMPTIONS = ASSUME


def u_update(K, param, it, path, zero=False, wk="vec", eqs=("all", "intercept", "int"), icpt=(True, True, True), regint=False, sel="local_rss", prefit=False, on=("C17",), pid="C17", **kw):
    fn = Q + "_inner_update"

    def body(p, L):
        kk = dict(kw)
        if prefit:
            kk["prefit_update"] = SV(dimvar(p, "prefit"))
        W = World(p, L, K=K, path=path, zero=zero, wk=wk, eqs=eqs, icpt=icpt, regint=regint, sel=sel, on=on, **kk)
        m = W.fitted_model()
        D = W.data(1)
        J = W.J
        done = []

        def outer(self, X, y, w):
            for k in range(K):
                W.ob("length", tm.eq(tt(self.n_training_[k]), W.eff(k)), "C17")
            W.in_update(self)
            before = {at: dict(getattr(self, at)) for at in ("coef_", "coef_path_", "_x_gram", "_y_gram", "_x_gram_new", "_y_gram_new", "_sum_of_weights", "_mean_of_weights", "_sum_of_weights_new", "_mean_of_weights_new")}
            t = options(p, W, it)
            limit = W.mi
            if prefit:
                limit = tm.ite(tm.le(t, tm.var("prefit", "I")), ONE, W.mi)
            W.begin(param, t, limit, fn)
            p.invs["_inner_update#1"] = W.visit_contract(param, t)
            p.invs["for"] = select_contract(W, param)
            dv = self._inner_update(X=X, y=y, w=w, it_outer=wrap(t), param=param, dv=SV(tm.var("dv")))
            check_frames(W, self, before, param, ("C16", "C17"))
            for at in ("_x_gram", "_y_gram", "_sum_of_weights", "_mean_of_weights"):
                W.ob(f"stored:{at}", getattr(self, at).get(param) is before[at].get(param), "C17", "C22")
            c = self.coef_[param]
            mk = W.m_[param]
            b = W.beta()
            i = index(p, D.n, "i")
            e = self._fv.el(i, tm.num(param))
            if b is None:
                W.ob("estimated", tm.FALSE, "C16", "C17", "C22")
                raise PathEnd()
            W.arr("coefficients", c, (mk,), b, "C16", "C17", "C22")
            W.ob("fitted", tm.eq(e, W.fitted(i)), "C16")
            if path:
                W.arr("path", self.coef_path_[param], (W.nl, mk), lambda l, a: tm.app(J["P"], (l, a)), "C16", "C22")
            F = self._fv.snapshot()
            W.ob("deviance", tm.eq(tt(dv), W.deviance(lambda v, j: F((v, tm.num(j))))), "C17")
            done.append(dv)
            return SV(tm.var("dvout")), 1
        contract(W.C, "_outer_update", outer)
        fr = D.frame(p)
        r = m.update(D.X, D.y, sample_weight=D.w)
        if not done:
            raise Unsupported("update does not go through _outer_update")
        W.ob("returns", r is None or r is m, "C17")
        W.caller(Q + "update")
        mk = W.m_[param]
        W.ob("count", tm.eq(tt(m.n_observations_), J["tot"]), "C17")
        W.ob("global_deviance", tm.eq(tt(m._global_dev), tm.var("dvout")), "C17")
        for k in range(K):
            W.ob("length", tm.eq(tt(m.n_training_[k]), W.eff(k)), "C17")
            mm = W.m_[k]
            W.arr("statistics:x", m._x_gram.get(k), (mm, mm), (lambda a, q: tm.app(J["A"], (a, q))) if k == param else (lambda a, q, k=k: tm.app(f"AN{k}", (a, q))), "C17")
            W.arr("statistics:y", m._y_gram.get(k), (mm, ONE), (lambda a, q: tm.app(J["H"], (a, q))) if k == param else (lambda a, q, k=k: tm.app(f"HN{k}", (a, q))), "C17")
            if k == param:
                v = tm.fresh_bound()
                sw = tm.add(tm.sumt(v, D.n, tm.mul(D.W(v), W.working(v)[1], tm.power(W.g[k], tm.sub(tm.sub(D.n, ONE), v)))), tm.mul(tm.power(W.g[k], D.n), tm.var(f"SW{k}")))
                W.ob("sum_of_weights", tm.eq(tt(m._sum_of_weights[k]), sw), "C17", "C22")
                W.ob("mean_of_weights", tm.eq(tt(m._mean_of_weights[k]), tm.div(sw, W.eff(k))), "C17", "C22")
                if path:
                    W.arr("measure", m._model_selection_data[k], (W.nl,), W.measure, "C22")
            else:
                W.ob("other:sum_of_weights", tm.eq(tt(m._sum_of_weights[k]), tm.var(f"SWN{k}")), "C17")
        if "C17" in W.on:
            fr.check()
    return Unit(f"{pid}.update.K{K}.p{param}.{it}.{sel if path else 'direct'}{'.prefit' if prefit else ''}.{'0' if zero else 'f'}.{wk}.{'-'.join(eqs[:K])}.{''.join('ir'[not x] for x in icpt[:K])}{'.reg' if regint else ''}{''.join('.' + kw[x] for x in ('form', 'eqform') if x in kw)}",
                body, [Q + "_inner_update", Q + "update", Q + "make_model_array", Q + "_update_select_model"], max_paths=900, cost=3)


def units(tier):
    from .C20 import u_outer
    on = ("C17",)
    return [u_outer("update", 1, None, on=on, pid="C17"), u_outer("update", 2, (1, 0), on=on, pid="C17", wk="none"),
            u_update(1, 0, "first", False), u_update(2, 0, "later", False, zero=True), u_update(2, 1, "first", False, wk="none"), u_update(3, 1, "later", False, eqs=("intercept", "all", "all")),
            u_update(2, 0, "first", True), u_update(2, 1, "later", True, eqs=("intercept", "int"))]
