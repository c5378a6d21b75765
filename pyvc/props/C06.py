"""C06: scaling is exact, reversible, selective and free of side effects."""
from .common import *
from .C13 import ONE
from . import C05

ASSUMPTIONS = ["variances positive", "scikit-learn validation passes finite float data unchanged", "integer selections have distinct entries"]
FUN = ["ondil.scaler.OnlineScaler.transform", "ondil.scaler.OnlineScaler.inverse_transform", "ondil.scaler.OnlineScaler._prepare_estimator", "ondil.scaler.OnlineScaler.std_"]


def fitted(p, L, sel, d):
    if sel == "off":
        ts, m, col = False, ONE, lambda c: c
    else:
        ts, m, col = C05.selection(p, sel, d)
    s = C05.scaler(L, 0.0, ts)
    s._prepare_estimator(symarr("Xf", (p.fresh("nf", "I"), d)))
    s.n_features_in_ = SV(d)
    mean, var = symarr("mean", (m,)), symarr("var", (m,), sign="+")
    if sel != "off":
        s.mean_, s.var_ = mean, var
        s._cumulative_w, s._M = SV(tm.var("W")), symarr("M", (m,))
    return s, ts, m, mean, var


def chosen(p, sel, ts, j):
    """condition: column j is scaled, and its place in the selection"""
    from ..arr import mask_select
    if sel == "all":
        return tm.TRUE, j
    if sel == "mask":
        return ts.el(j), mask_select(ts, want_pos=True)[2](j)
    if sel == "int":
        return tm.mk("bapp", ("?insel", j), "B"), tm.app("selpos", (j,), "I")
    return tm.FALSE, N0


def frozen(s):
    return {k: v for k, v in vars(s).items()}


def u(sel, sort="R"):
    def body(p, L):
        n, d = dimvar(p, "n"), dimvar(p, "d")
        s, ts, m, mean, var = fitted(p, L, sel, d)
        X = symarr("X", (n, d), sort=sort)
        fr = Frame(p, X=X, mean=mean, var=var)
        before = frozen(s)
        i, j = index(p, n, "i"), index(p, d, "j")
        c, q = chosen(p, sel, ts, j)
        x = X.el(i, j)
        sd = tm.power(var.el(q), tm.div(ONE, tm.num(2)))
        z = s.transform(X)
        need_array(p, z, (n, d), "transform:shape")
        p.prove(f"{p.ex.name}:transform:exact", tm.implies(c, tm.eq(tm.mul(z.el(i, j), sd), tm.sub(x, mean.el(q)))), function=FUN[0])
        p.prove(f"{p.ex.name}:transform:selective", tm.implies(tm.bnot(c), tm.eq(z.el(i, j), x)), function=FUN[0])
        zf = Frame(p, Z=z)
        b = s.inverse_transform(z)
        need_array(p, b, (n, d), "inverse:shape")
        p.prove(f"{p.ex.name}:inverse:round_trip", tm.eq(b.el(i, j), x), function=FUN[1])
        v = s.inverse_transform(X)
        p.prove(f"{p.ex.name}:inverse:exact", tm.implies(c, tm.eq(v.el(i, j), tm.add(tm.mul(x, sd), mean.el(q)))), function=FUN[1])
        p.prove(f"{p.ex.name}:inverse:selective", tm.implies(tm.bnot(c), tm.eq(v.el(i, j), x)), function=FUN[1])
        sdv = s.std_
        if sel == "off":
            p.prove(f"{p.ex.name}:std", tm.eq(tt(sdv), ONE), function=FUN[3])
        else:
            need_array(p, sdv, (m,), "std:shape")
            k = index(p, m, "k")
            p.prove(f"{p.ex.name}:std", tm.eq(tm.mul(sdv.el(k), sdv.el(k)), var.el(k)), function=FUN[3])
        zf.check()
        fr.check()
        after = frozen(s)
        if set(after) != set(before) or any(after[k] is not before[k] for k in before):
            ch = [k for k in set(after) | set(before) if after.get(k, 0) is not before.get(k, 1)]
            fail(p, "state", f"the fitted state changes: {ch}")
        else:
            p.prove(f"{p.ex.name}:state", tm.TRUE)
    return Unit(f"C06.{sel}{'' if sort == 'R' else '.integer'}", body, FUN)


def units(tier):
    return [u(s) for s in ("all", "int", "mask", "off")] + [u("all", "I"), u("mask", "I")]
