"""C05: moments of the scaler.  State: W = S0, mean = S1/S0, M = S2 - S1^2/S0, var = M/W with S_k the discounted weighted power sums."""
from .common import *
from .C13 import forget, ONE
from . import C01

ASSUMPTIONS = ["sample weights non-negative, total weight positive, 0 <= forget < 1", "scikit-learn validation passes finite float data unchanged",
               "integer selections have distinct entries"]
FUN = ["ondil.scaler.OnlineScaler.fit", "ondil.scaler.OnlineScaler.update", "ondil.scaler.OnlineScaler._prepare_estimator"]
TWO = tm.num(2)


def selection(p, kind, d):
    """-> (to_scale argument, number of scaled columns, c -> column)"""
    if kind == "all":
        return True, d, lambda c: c
    if kind == "int":
        m = dimvar(p, "m")
        p.assume(tm.le(m, d))
        a = symarr("sel", (m,), sort="I", axiom=lambda a, t: [tm.implies(tm.band(tm.le(N0, a[0]), tm.lt(a[0], m)), tm.band(tm.le(N0, t), tm.lt(t, d)))])
        p.spec.appsamplers["sel"] = lambda rng, args, env, apps: int(args[0])
        from ..arr import selpair
        sel, pos = selpair("sel", "selpos")
        p.spec.appsort["selpos"] = "I"
        p.spec.appsort["?insel"] = "B"
        p.spec.appsamplers["selpos"] = lambda rng, args, env, apps: int(args[0])
        p.spec.appsamplers["?insel"] = lambda rng, args, env, apps: int(args[0]) < env[m]

        def hook(k):
            if k.el(tm.var("B_s", "I")) is not tm.app("sel", (tm.var("B_s", "I"),), "I"):
                raise Unsupported("unknown selection")
            return (lambda b: tm.mk("bapp", ("?insel", b), "B")), pos
        p.ghost["intsel"] = hook
        return SArr.new((m,), lambda i: sel(i[0]), "I"), m, sel
    a = symarr("mask", (d,), sort="B")
    from ..arr import mask_select
    n, sel = mask_select(a)
    p.assume(tm.le(ONE, n))
    return a, n, sel


def weights(p, kind, n, nm="w"):
    if kind == "none":
        return None, lambda k: ONE
    w = symarr(nm, (n,), sign="0+")
    return w, lambda k: tm.app(nm, (k,))


def power_sum(g, n, W, x, e):
    k = tm.fresh_bound()
    return tm.sumt(k, n, tm.mul(tm.power(g, tm.sub(tm.sub(n, ONE), k)), W(k), *([x(k)] * e)))


def scaler(L, f, to_scale):
    return L.load("ondil.scaler").OnlineScaler(forget=f, to_scale=to_scale)


def state(p, s, m, S, oid, fn):
    """the moments of the scaler are those of the power sums S(e, c)"""
    need_array(p, s.mean_, (m,), f"{oid}:mean_shape")
    need_array(p, s.var_, (m,), f"{oid}:var_shape")
    c = index(p, m, "c")
    S0, S1, S2 = S(0, c), S(1, c), S(2, c)
    p.prove(f"{p.ex.name}:{oid}:mean", tm.eq(tm.mul(s.mean_.el(c), S0), S1), function=fn)
    p.prove(f"{p.ex.name}:{oid}:variance", tm.eq(tm.mul(s.var_.el(c), S0, S0), tm.sub(tm.mul(S2, S0), tm.mul(S1, S1))), function=fn)


def u_fit(zero, sel, wk):
    def body(p, L):
        f, g = forget(p, zero)
        C01.forget_contract(p, L.load("ondil.gram"), f, g)
        n, d = dimvar(p, "n", 2), dimvar(p, "d")
        X = symarr("X", (n, d))
        w, W = weights(p, wk, n)
        ts, m, col = selection(p, sel, d)
        fr = Frame(p, X=X, **({"w": w} if w is not None else {}))
        s = scaler(L, f, ts)
        C01.forget_contract(p, L.load("ondil.scaler"), f, g)
        S = lambda e, c: power_sum(g, n, W, lambda k: tm.app("X", (k, col(c))), e)
        p.assume(tm.lt(N0, S(0, N0)))
        r = s.fit(X, sample_weight=w) if w is not None else s.fit(X)
        state(p, s, m, S, "fit", FUN[0])
        k = tm.fresh_bound()
        p.prove(f"{p.ex.name}:count", tm.eq(tt(s.n_observations_), tm.sumt(k, n, W(k))), function=FUN[0])
        # representation invariant the update relies on
        c = index(p, m, "c")
        p.prove(f"{p.ex.name}:rep:W", tm.eq(tt(s._cumulative_w), S(0, c)), function=FUN[0])
        p.prove(f"{p.ex.name}:rep:M", tm.eq(tm.mul(s._M.el(c), S(0, c)), tm.sub(tm.mul(S(2, c), S(0, c)), tm.mul(S(1, c), S(1, c)))), function=FUN[0])
        fr.check()
    return Unit(f"C05.fit.{sel}.{wk}.{'0' if zero else 'f'}", body, FUN)


def u_update(zero, sel, wk):
    def body(p, L):
        f, g = forget(p, zero)
        n, d = dimvar(p, "n"), dimvar(p, "d")
        X = symarr("X", (n, d))
        w, W = weights(p, wk, n)
        ts, m, col = selection(p, sel, d)
        fr = Frame(p, X=X, **({"w": w} if w is not None else {}))
        s = scaler(L, f, ts)
        # any fitted state that satisfies the representation invariant
        T0 = tm.var("T0")
        p.spec.varsigns["T0"] = "+"
        p.assume(tm.lt(N0, T0))
        T1, T2 = symarr("T1", (m,)), symarr("T2", (m,))
        cnt = tm.var("cnt")
        s._prepare_estimator(X)
        s.n_features_in_ = SV(d)
        s.mean_ = SArr.new((m,), lambda i: tm.div(T1.el(*i), T0), "R")
        Mf = lambda i: tm.sub(T2.el(*i), tm.div(tm.mul(T1.el(*i), T1.el(*i)), T0))
        s._M = SArr.new((m,), Mf, "R")
        s.var_ = SArr.new((m,), lambda i: tm.div(Mf(i), T0), "R")
        s._cumulative_w = SV(T0)
        s.n_observations_ = SV(cnt)
        T = [lambda c: T0, lambda c: T1.el(c), lambda c: T2.el(c)]

        def S(e, c, r):
            return tm.add(tm.mul(tm.power(g, r), T[e](c)), power_sum(g, r, W, lambda k: tm.app("X", (k, col(c))), e))

        arr = lambda h: SArr.new((m,), h, "R")

        def defs(k):
            S0 = S(0, N0, k)
            M = lambda i: tm.sub(S(2, i[0], k), tm.div(tm.mul(S(1, i[0], k), S(1, i[0], k)), S0))
            return {("self", "_cumulative_w"): SV(S0), ("self", "mean_"): arr(lambda i: tm.div(S(1, i[0], k), S0)),
                    ("self", "_M"): arr(M), ("self", "var_"): arr(lambda i: tm.div(M(i), S0))}
        p.invs["*"] = Inv(lambda k, env, Lp: [], defs=defs)
        r = s.update(X, sample_weight=w) if w is not None else s.update(X)
        state(p, s, m, lambda e, c: S(e, c, n), "update", FUN[1])
        k = tm.fresh_bound()
        p.prove(f"{p.ex.name}:count", tm.eq(tt(s.n_observations_), tm.add(cnt, tm.sumt(k, n, W(k)))), function=FUN[1])
        fr.check()
    return Unit(f"C05.update.{sel}.{wk}.{'0' if zero else 'f'}", body, FUN)


def units(tier):
    return [u for z in (True, False) for sel in ("all", "int", "mask") for wk in ("none", "vec") for u in (u_fit(z, sel, wk), u_update(z, sel, wk))] + [C01.u_cat(z) for z in (True, False)]
