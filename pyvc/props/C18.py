"""C18: predictions of the distributional regression from an arbitrary fitted model."""
from .gam import *
from .dist import u_links, NAMES
from .C20 import state_of

ASSUMPTIONS = ASSUME


class Points:
    """the data to predict for"""

    def __init__(self, p, d):
        self.n = dimvar(p, "np")
        self.X = symarr("XP", (self.n, d))
        self.x = lambda i, j: tm.app("XP", (i, j))
        self.s = None


class Keeps:
    """the model stays as it is: same objects, same contents"""

    def __init__(self, p, m):
        self.p, self.m = p, m
        self.before = state_of(m)
        self.scaler = getattr(getattr(m, "_scaler", None), "state", None)
        self.fr = Frame(p, **{f"model{i}": a for i, a in enumerate(v for v in self.before.values() if isinstance(v, SArr))})

    def same(self, x, z):
        return x is z or (isinstance(x, (SV, int, float)) and isinstance(z, (SV, int, float)) and self.p.ctx.entails(tm.eq(tt(x), tt(z)))) or (isinstance(x, str) and x == z)

    def check(self, oid, fn):
        now = state_of(self.m)
        # new attributes and the working values of the last call (overwritten before they are read) are not part of the fitted model
        changed = [a for a in self.before if a != "_fv" and not self.same(now.get(a, self), self.before.get(a, self)) and not isinstance(now.get(a), dict)]
        if getattr(getattr(self.m, "_scaler", None), "state", None) != self.scaler:
            changed.append("scaler")
        self.p.prove(f"{self.p.ex.name}:{oid}", tm.btrue(not changed), function=fn)
        if changed:
            self.p.ghost.setdefault("notes", []).append(f"changed: {sorted(map(str, changed))[:4]}")
        self.fr.check()


def u_predict(K, eqs, icpt, after="fit", scale=True):
    def body(p, L):
        W = World(p, L, K=K, eqs=eqs, icpt=icpt, on=("C18",), scale_inputs=scale)
        m = W.fitted_model()
        st = 0
        if after == "update":
            D = W.data(1)
            hit = []

            def outer(self):
                hit.append(1)
                W.in_update(self)
                return SV(tm.var("GD2")), 1
            contract(W.C, "_outer_update", outer)
            m.update(D.X, D.y, sample_weight=D.w)
            if not hit:
                raise Unsupported("update does not go through _outer_update")
            st = 1
        P = Points(p, W.d)
        fr = Frame(p, X=P.X)
        W.J["fn"] = fn = Q + "predict_distribution_parameters"
        co = lambda k: (lambda j: tm.app(f"C{k}", (j,)))
        lin = lambda i, k: W.linpred(k, i, co(k), D=P, state=st)
        th = lambda i, k: W.at("linv", k, lin(i, k))
        cols = lambda f: (lambda i, k: npshim.pick(k, [f(i, j) for j in range(K)]))
        keep = Keeps(p, m)
        for what, f in (("link", lin), ("response", th), (None, th)):
            r = m.predict_distribution_parameters(P.X, what=what) if what else m.predict_distribution_parameters(P.X)
            need_array(p, r, (P.n, tm.num(K)), f"{what}:shape")
            i = index(p, P.n, "i")
            for k in range(K):
                W.ob(f"{what}", tm.eq(r.el(i, tm.num(k)), f(i, k)), "C18", fn=fn)
        for what, f in (("link", lin), ("response", th)):
            r = m.predict_distribution_parameters(P.X, what=what, return_contributions=True)
            if not isinstance(r, tuple) or len(r) != 2:
                fail(p, "contributions", "no pair of prediction and contributions")
                raise PathEnd()
            r, c = r
            need_array(p, r, (P.n, tm.num(K)), f"{what}:shape")
            if len(c) != K:
                fail(p, "contributions", "not one block per parameter")
                raise PathEnd()
            i = index(p, P.n, "i")
            for k in range(K):
                W.ob(f"{what}", tm.eq(r.el(i, tm.num(k)), f(i, k)), "C18", fn=fn)
                z = W.design(k, P, st)
                W.arr("contributions", c[k], (P.n, W.m_[k]), lambda a, j: tm.mul(z(a, j), tm.app(f"C{k}", (j,))), "C18")
                v = tm.fresh_bound()
                W.ob("contributions:sum", tm.eq(tm.sumt(v, W.m_[k], c[k].el(i, v)), lin(i, k)), "C18", fn=fn)
        for bad in ("Response", "", "predictor", None, "resp"):
            for rc in (False, True):
                expect_raises(p, "request", ValueError, lambda: m.predict_distribution_parameters(P.X, what=bad, return_contributions=rc))
        i = index(p, P.n, "i")
        ths = [th(i, k) for k in range(K)]
        for nm, f in (("predict", "mean"), ("predict_median", "median")):
            r = getattr(m, nm)(P.X)
            need_array(p, r, (P.n,), f"{nm}:shape")
            W.ob(nm, tm.eq(r.el(i), tm.app(f, tuple(ths))), "C18", fn=Q + nm)
        q = tm.var("q")
        r = m.predict_quantile(P.X, SV(q))
        need_array(p, r, (P.n, ONE), "quantile:shape")
        W.ob("quantile", tm.eq(r.el(i, N0), tm.app("ppf", (q,) + tuple(ths))), "C18", fn=Q + "predict_quantile")
        nq = dimvar(p, "nq")
        qs = symarr("qs", (nq,))
        fq = Frame(p, quantile=qs)
        r = m.predict_quantile(P.X, qs)
        need_array(p, r, (P.n, nq), "quantiles:shape")
        j = index(p, nq, "j")
        W.ob("quantiles", tm.eq(r.el(i, j), tm.app("ppf", (tm.app("qs", (j,)),) + tuple(ths))), "C18", fn=Q + "predict_quantile")
        fq.check()
        fr.check()
        keep.check("model", fn)
    return Unit(f"C18.predict.K{K}.{after}.{'-'.join(eqs[:K])}.{''.join('ir'[not x] for x in icpt[:K])}{'' if scale is True else '.' + str(scale)}", body,
                [Q + n for n in ("predict", "predict_median", "predict_quantile", "predict_distribution_parameters", "make_model_array")], max_paths=60)


def units(tier):
    t, f = True, False
    return [u_predict(1, ("all",), (t,)), u_predict(1, ("int",), (f,), "update"), u_predict(2, ("all", "intercept"), (f, t)), u_predict(2, ("mask", "int"), (t, f), "update"), u_predict(2, ("all", "int"), (t, t), "update", "some"), u_predict(1, ("all",), (t,), "fit", False),
            u_predict(2, ("intercept", "mask"), (t, f)), u_predict(3, ("int", "all", "intercept"), (t, t, t), "update"), u_predict(3, ("mask", "int", "all"), (t, t, f)),
            u_predict(4, ("all", "intercept", "int", "intercept"), (t, t, t, t))] + [u_links(n, "C18") for n in NAMES]
