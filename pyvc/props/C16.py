"""C16: the scoring step of one visit of one distribution parameter, for any number of inner iterations."""
from .gam import *
from .dist import u_links, NAMES

ASSUMPTIONS = ASSUME


def same(p, a, b):
    return a is b or (isinstance(a, SArr) and isinstance(b, SArr) and a.buf is b.buf)


def check_frames(W, m, before, param, cats=("C16",)):
    """the other parameters keep coefficients, path, statistics and fitted values"""
    p = W.p
    for k in range(W.K):
        if k == param:
            continue
        for at, old in before.items():
            W.ob(f"other:{at}", getattr(m, at).get(k) is old.get(k), *cats)
    if W.K > 1:
        i = index(p, W.J["D"].n, "i")
        for k in range(W.K):
            if k != param:
                W.ob("other:fitted", tm.eq(m._fv.el(i, tm.num(k)), tm.app("FV", (i, tm.num(k)))), *cats)


def u_fit(K, param, it, path, zero=False, wk="vec", cond=False, eqs=("all", "intercept", "int"), icpt=(True, True, True), regint=False, sel="local_rss", prefit=False, on=("C16",), pid="C16", **kw):
    fn = Q + "_inner_fit"

    def body(p, L):
        if prefit:
            kw["prefit_initial"] = SV(dimvar(p, "prefit"))
        W = World(p, L, K=K, path=path, zero=zero, wk=wk, eqs=eqs, icpt=icpt, regint=regint, sel=sel, on=on, cond_start_val=cond, **kw)
        D = W.data(0)
        done = []

        def outer(self, X, y, w):
            W.arbitrary(self, it != "first")
            before = {at: dict(getattr(self, at)) for at in ("coef_", "coef_path_", "_x_gram", "_y_gram")}
            t = options(p, W, it)
            limit = W.mi
            if prefit:
                limit = tm.ite(tm.le(t, tm.var("prefit", "I")), ONE, W.mi)
            W.begin(param, t, limit, fn)
            p.invs["_inner_fit#1"] = W.visit_contract(param, t)
            p.invs["for"] = select_contract(W, param)
            dv = self._inner_fit(X=X, y=y, w=w, it_outer=wrap(t), param=param, dv=SV(tm.var("dv")))
            post_fit(W, self, before, param, dv)
            done.append(1)
            return SV(tm.var("dvout")), 1
        contract(W.C, "_outer_fit", outer)
        fr = D.frame(p)
        r = W.m.fit(D.X, D.y, sample_weight=D.w)
        if not done:
            raise Unsupported("fit does not go through _outer_fit")
        W.ob("returns", r is W.m, "C16")
        W.caller(Q + "fit")
        if "C16" in W.on:
            fr.check()
    return Unit(f"{pid}.fit.K{K}.p{param}.{it}.{sel if path else 'direct'}{'.cond' if cond else ''}{'.prefit' if prefit else ''}.{'0' if zero else 'f'}.{wk}.{'-'.join(eqs[:K])}.{''.join('ir'[not x] for x in icpt[:K])}{'.reg' if regint else ''}{''.join('.' + kw[x] for x in ('form', 'eqform') if x in kw)}",
                body, [Q + "_inner_fit", Q + "fit", Q + "make_model_array", Q + "_fit_select_model", Q + "get_J_from_equation"], max_paths=900, cost=3)


def post_fit(W, m, before, param, dv):
    p, J = W.p, W.J
    c = m.coef_[param]
    mk = W.m_[param]
    i = index(p, J["D"].n, "i")
    e = m._fv.el(i, tm.num(param))
    check_frames(W, m, before, param)
    if c is before["coef_"][param]:
        W.ob("rejected:fitted", tm.eq(e, tm.app("FV", (i, tm.num(param)))), "C16")
        for at in ("coef_path_", "_x_gram", "_y_gram"):
            W.ob(f"rejected:{at}", getattr(m, at).get(param) is before[at].get(param), "C16", "C22")
        return
    b = W.beta()
    if b is None:
        W.ob("estimated", tm.FALSE, "C16", "C22")
        return
    W.arr("coefficients", c, (mk,), b, "C16", "C22")
    W.ob("fitted", tm.eq(e, W.fitted(i)), "C16", "C21")
    W.arr("statistics:x", m._x_gram.get(param), (mk, mk), lambda a, q: tm.app(J["A"], (a, q)), "C16")
    W.arr("statistics:y", m._y_gram.get(param), (mk, ONE), lambda a, q: tm.app(J["H"], (a, q)), "C16")
    D = J["D"]
    if "C22" in W.on:
        v = tm.fresh_bound()
        sw = tm.sumt(v, D.n, tm.mul(D.W(v), W.working(v)[1], tm.power(W.g[param], tm.sub(tm.sub(D.n, ONE), v))))
        W.ob("sum_of_weights", tm.eq(tt(m._sum_of_weights[param]), sw), "C22")
        W.ob("mean_of_weights", tm.eq(tt(m._mean_of_weights[param]), tm.div(sw, D.n)), "C22")
        W.arr("measure", m._model_selection_data[param], (W.nl,), W.measure, "C22")
    if W.path:
        W.arr("path", m.coef_path_[param], (W.nl, mk), lambda l, a: tm.app(J["P"], (l, a)), "C16", "C22")


def select_contract(W, param):
    """loop over the path rows (log-likelihood of each): the vector over the path is filled row by row, parameter values keep the other columns"""
    def arrays(env, L):
        out = {}
        for n, a in env.items():
            if not isinstance(a, SArr) or n not in L.modifies:
                continue
            if a.ndim == 2 and cdim(a._shape[1]) == W.K:
                out[n] = lambda k, i: (tm.bnot(tm.eq(i[1], tm.num(param))), npshim.pick(i[1], [tm.app("FV", (i[0], tm.num(j))) for j in range(W.K)]))
            elif a.ndim == 1 and W.sel == "global_ll" and "P" in W.J and dim_eq(a._shape[0], W.nl):
                out[n] = [lambda k, i: (tm.lt(i[0], k), W.measure(i[0], True)), lambda k, i: (tm.lt(i[0], k), W.measure(i[0]))]
        return out
    return Inv(lambda k, env, L: [], modifies="auto", arrays=arrays)


def units(tier):
    from .C20 import u_outer
    from .C17 import u_update
    on = ("C16",)
    out = [u_outer("fit", 2, (1, 0), on=on, pid="C16"), u_outer("update", 2, None, on=on, pid="C16", wk="none"),
           u_update(1, 0, "first", False, on=on, pid="C16"), u_update(2, 1, "later", False, on=on, pid="C16", eqs=("intercept", "int")), u_update(2, 0, "first", True, on=on, pid="C16"),
           u_fit(1, 0, "first", False), u_fit(1, 0, "later", False, icpt=(False,)),
           u_fit(2, 0, "first", False, zero=True), u_fit(2, 0, "later", False), u_fit(2, 1, "first", False, wk="none"), u_fit(2, 1, "later", False, eqs=("all", "int")),
           u_fit(2, 1, "first", False, cond=True),
           u_fit(2, 0, "first", True), u_fit(2, 1, "later", True, regint=True, eqs=("intercept", "all")),
           u_fit(3, 2, "first", False, eqs=("all", "intercept", "mask")), u_fit(3, 1, "later", False, eqs=("int", "all", "intercept"), icpt=(True, False, True)), u_fit(3, 2, "later", True),
           u_fit(2, 0, "first", True, sel="global_ll"), u_fit(2, 1, "later", True, sel="global_ll"), u_update(2, 1, "later", True, sel="global_ll", on=on, pid="C16")]
    return out + [u_links(n, "C16") for n in NAMES]
