"""C12: information criteria, for vectors of models of arbitrary length and for scalars."""
from fractions import Fraction
from .common import *

CRIT = ["aic", "aicc", "bic", "hqc", "max"]
log = lambda t: tm.fn("log", t)
TWO = tm.num(2)


def spec(c, n, p, ll):
    m2 = tm.mul(tm.num(-2), ll)
    if c == "aic":
        return tm.add(m2, tm.mul(TWO, p))
    if c == "aicc":
        return tm.add(m2, tm.div(tm.mul(TWO, p, n), tm.sub(tm.sub(n, p), tm.num(1))))
    if c == "bic":
        return tm.add(m2, tm.mul(p, log(n)))
    if c == "hqc":
        return tm.add(m2, tm.mul(TWO, p, log(log(n))))
    return tm.neg(ll)


def gauss(n, rss):
    return tm.mul(tm.num(Fraction(-1, 2)), n, tm.add(log(tm.div(rss, n)), tm.num(1), log(tm.mul(TWO, tm.PI))))


def unit(c, kind, frm):
    def body(p, L):
        IC = L.load("ondil.information_criteria").InformationCriterion
        m = dimvar(p, "m")
        i = index(p, m)
        pv, lv = tm.app("ks", (i,)), tm.app("vs", (i,))
        if kind != "scalar":
            ps, ls = symarr("ks", (m,), sign="0+"), symarr("vs", (m,))
        if kind == "vector":
            nv = tm.var("n")
            n = SV(nv)
        elif kind == "matrix_n":
            nv = tm.app("ns", (i,))
            n = symarr("ns", (m,), sign="+")
        else:
            nv = tm.var("n"); pv = tm.var("k"); lv = tm.var("v")
            n, ps, ls = SV(nv), SV(pv), SV(lv)
        p.spec.varsigns.update(n="+")
        p.assume(tm.lt(tm.num(1), nv))
        p.assume(tm.le(N0, pv))
        if frm == "rss":
            p.assume(tm.lt(N0, lv))
            p.spec.varsigns["v"] = p.spec.appsigns["vs"] = "+"
        fr = Frame(p, **{k: a for k, a in (("n", n), ("p", ps), ("v", ls)) if isinstance(a, SArr)})
        ic = IC(n_observations=n, n_parameters=ps, criterion=c)
        e = tm.sub(tm.sub(nv, pv), tm.num(1))
        try:
            r = ic.from_rss(ls) if frm == "rss" else ic.from_ll(ls)
        except ValueError:
            if c != "aicc":
                if not p.infeasible():
                    fail(p, "raises", "raises ValueError for a valid criterion")
                return
            # rejected only if some denominator is zero
            if kind == "scalar":
                p.prove(f"{p.ex.name}:reject_only_zero", tm.eq(e, N0))
            else:
                j = tm.fresh_bound()
                nn = nv if kind == "vector" else tm.app("ns", (j,))
                ej = tm.sub(tm.sub(nn, tm.app("ks", (j,))), tm.num(1))
                p.prove(f"{p.ex.name}:reject_only_zero", tm.exists(j, m, tm.eq(ej, N0)))
            return
        instantiate(p, i)
        if c == "aicc":
            p.prove(f"{p.ex.name}:accept_only_nonzero", tm.bnot(tm.eq(e, N0)))
        ll = gauss(nv, lv) if frm == "rss" else lv
        if kind == "scalar":
            if isinstance(r, SArr):
                fail(p, "shape", "array result for a scalar")
                return
            v = tt(r)
        else:
            v = need_array(p, r, (m,), "shape").el(i)
        p.prove(f"{p.ex.name}:value", tm.eq(v, spec(c, nv, pv, ll)))
        fr.check()
    return Unit(f"C12.{c}.from_{frm}.{kind}", body, [f"ondil.information_criteria.InformationCriterion.from_{frm}"])


def u_unknown():
    def body(p, L):
        IC = L.load("ondil.information_criteria").InformationCriterion
        for bad in ("", "AIC", "foo", "aic ", "bicc", None, 1):
            expect_raises(p, "rejects", ValueError, lambda: IC(SV(tm.var("n")), SV(tm.var("k")), criterion=bad).from_ll(SV(tm.var("v"))))
    return Unit("C12.unknown", body, ["ondil.information_criteria.InformationCriterion.__init__"])


BOUNDED = ["'unknown criterion raises ValueError' is evaluated for seven names outside the list (the code compares with the literal tuple); all numeric arguments are symbolic"]
ASSUMPTIONS = ["n > 1 (so that log n and log log n are those of a positive number where used), rss > 0"]


def units(tier):
    return [unit(c, k, f) for c in CRIT for k in ("vector", "matrix_n", "scalar") for f in ("ll", "rss")] + [u_unknown()]
