"""C07: links.  For an arbitrary array of arbitrary length and an arbitrary entry x of it."""
from .common import *

SHIFTV = {"LogShiftValue", "InverseSoftPlusShiftValue", "SqrtShiftValue"}
NAMES = ["Identity", "Log", "LogShiftValue", "LogShiftTwo", "LogIdent", "Logit", "InverseSoftPlus", "InverseSoftPlusShiftValue",
         "InverseSoftPlusShiftTwo", "Sqrt", "SqrtShiftValue", "SqrtShiftTwo"]
SMALL, LARGE = tm.num(1e-10), tm.num(10 ** 15, "R")
F = tm.fn
ONE, TWO = tm.num(1), tm.num(2)
ASSUMPTIONS = [
    "round trip and derivatives are claimed away from the documented clamps: 1e-10 < distance to the end of the support, values below 1e15 (log links), predictors between -34 and 34 (soft-plus derivatives, |denominator| > 1e-8)",
    "np.nextafter(0, 1) and np.nextafter(1, 0) are read as the open bounds 0 and 1",
]


def make(L, name):
    m = L.load("ondil.links")
    c = getattr(m, name)
    if name in SHIFTV:
        v = tm.var("shift")
        return c(SV(v)), v
    l = c()
    return l, (TWO if name.endswith("Two") else N0)


def setup(p, L, name, hint):
    l, v = make(L, name)
    n = dimvar(p, "n")
    i = index(p, n)
    x = tm.var(hint)
    return l, v, n, i, x, pointarr(p, hint + "s", (n,), (i,), x)


def dist_hyp(p, name, x, v, derivative=False):
    """x inside the support and away from the clamps"""
    if name == "Identity":
        return
    if name == "Logit":
        p.assume(tm.lt(N0, x)); p.assume(tm.lt(x, ONE))
        p.assume(tm.lt(SMALL, tm.div(x, tm.sub(ONE, x))))
        p.assume(tm.le(tm.div(x, tm.sub(ONE, x)), LARGE))
        return
    z = tm.sub(x, v)
    p.assume(tm.lt(SMALL, z))
    if name.startswith("Log"):
        p.assume(tm.lt(z, tm.num(10 ** 14, "R")))


def link_spec(name, x, v):
    z = tm.sub(x, v)
    if name == "Identity":
        return x
    if name == "Logit":
        return tm.sub(F("log", x), F("log", tm.sub(ONE, x)))
    if name == "LogIdent":
        return tm.ite(tm.le(x, ONE), F("log", x), tm.sub(x, ONE))
    if name == "Log":
        return F("log", x)
    if name.startswith("LogShift"):
        return F("log", tm.add(z, SMALL))
    if name == "Sqrt":
        return tm.power(x, tm.num(H))
    if name.startswith("SqrtShift"):
        return tm.power(tm.add(z, SMALL), tm.num(H))
    return tm.ite(tm.lt(tm.num(40), z), z, F("log", tm.sub(F("exp", z), ONE)))


from fractions import Fraction
H = Fraction(1, 2)


def inv_spec(name, e, v):
    if name == "Identity":
        return e
    if name == "Logit":
        return tm.div(ONE, tm.add(ONE, F("exp", tm.neg(e))))
    if name == "LogIdent":
        return tm.ite(tm.le(e, N0), F("exp", e), tm.add(e, ONE))
    if name.startswith("Log"):
        return tm.add(v, F("exp", e))
    if name.startswith("Sqrt"):
        return tm.add(v, tm.mul(e, e))
    return tm.add(v, tm.ite(tm.lt(tm.num(40), e), e, F("log", tm.add(ONE, F("exp", e)))))


def rp(name, contract, key):
    def f(inst):
        return {"contract": contract, "case": {"__d__": [["name", name], ["v", float(inst.get("shift", 0.0))],
                [key, {"__nd__": [float(inst["x" if key == "x" else "e"])], "shape": [1], "dtype": "float64"}]]}}
    return f


def u_round(name):
    def body(p, L):
        l, v, n, i, x, xs = setup(p, L, name, "x")
        dist_hyp(p, name, x, v)
        fr = Frame(p, x=xs)
        e = need_array(p, l.link(xs), (n,), "link:shape")
        ei = e.el(i)
        p.prove(f"{p.ex.name}:link", tm.eq(ei, link_spec(name, x, v)), replay=rp(name, "round_trip", "x"), function=f"ondil.links.{name}.link")
        b = need_array(p, l.inverse(e), (n,), "inverse:shape").el(i)
        off = SMALL if "Shift" in name and not name.startswith("Inverse") else N0
        decide_branches(p, b)
        if p.infeasible():
            raise PathEnd()
        p.prove(f"{p.ex.name}:roundtrip", tm.eq(b, tm.add(x, off)), replay=rp(name, "round_trip", "x"), function=f"ondil.links.{name}.inverse")
        fr.check()
    return Unit(f"C07.{name}.round_trip", body, [f"ondil.links.{name}.link", f"ondil.links.{name}.inverse"])


def u_range(name):
    def body(p, L):
        l, v, n, i, e, es = setup(p, L, name, "e")
        if name.startswith("Sqrt"):
            p.assume(tm.lt(N0, e))   # a predictor of zero maps to the open end of the support
        fr = Frame(p, e=es)
        m = need_array(p, l.inverse(es), (n,), "inverse:shape").el(i)
        lo, hi = l.link_support
        lo, hi = tt(lo), tt(hi)
        f = f"ondil.links.{name}.inverse"
        if name != "Identity":
            p.prove(f"{p.ex.name}:support", tm.band(tm.eq(lo, v), tm.eq(hi, ONE) if name == "Logit" else tm.btrue(hi is tm.INF)), function=f"ondil.links.{name}.link_support")
            p.prove(f"{p.ex.name}:above", tm.lt(v, m), replay=rp(name, "range", "e"), function=f)
        if name == "Logit":
            p.prove(f"{p.ex.name}:below", tm.lt(m, ONE), replay=rp(name, "range", "e"), function=f)
        p.assume(tm.lt(tm.num(-34), e)); p.assume(tm.lt(e, tm.num(34)))
        decide_branches(p, m)
        if p.infeasible():
            raise PathEnd()
        p.prove(f"{p.ex.name}:inverse", tm.eq(m, inv_spec(name, e, v)), replay=rp(name, "range", "e"), function=f)
        fr.check()
    return Unit(f"C07.{name}.range", body, [f"ondil.links.{name}.inverse", f"ondil.links.{name}.link_support"])


def u_deriv(name):
    def body(p, L):
        l, v, n, i, x, xs = setup(p, L, name, "x")
        dist_hyp(p, name, x, v, True)
        if "SoftPlus" in name:
            z = tm.sub(x, v)
            p.assume(tm.lt(z, tm.num(40)))
            p.assume(tm.lt(tm.num(Fraction(1, 1000)), z))
        fr = Frame(p, x=xs)
        li = l.link(xs).el(i)
        decide_branches(p, li)
        if p.infeasible():
            raise PathEnd()
        d1 = dterm(p, li, x)
        try:
            r1 = need_array(p, l.link_derivative(xs), (n,), "d1:shape").el(i)
        except NotImplementedError:
            r1 = None
        try:
            r2 = need_array(p, l.link_second_derivative(xs), (n,), "d2:shape").el(i)
        except NotImplementedError:
            r2 = None
        if r1 is not None:
            denominators(p, name, x, v)
            p.prove(f"{p.ex.name}:d1", tm.eq(r1, d1), replay=rp(name, "derivatives", "x"), function=f"ondil.links.{name}.link_derivative")
        if r2 is not None:
            p.prove(f"{p.ex.name}:d2", tm.eq(r2, dterm(p, d1, x)), replay=rp(name, "derivatives", "x"), function=f"ondil.links.{name}.link_second_derivative")
        fr.check()
        if r1 is None:
            p.prove(f"{p.ex.name}:not_offered", tm.TRUE)
    return Unit(f"C07.{name}.derivatives", body, [f"ondil.links.{name}.link_derivative", f"ondil.links.{name}.link_second_derivative"])


def denominators(p, name, x, v):
    """the divisions are outside the documented clamp of zero_safe_division (|b| <= 1e-8 counts as zero)"""
    if "SoftPlus" in name:
        z = tm.sub(x, v)
        e, em = F("exp", z), F("exp", tm.neg(z))
        t8 = tm.num(Fraction(1, 10 ** 8))
        p.assume(tm.lt(t8, tm.sub(ONE, em)))
        p.assume(tm.lt(t8, tm.sub(tm.add(e, em), TWO)))


def u_inv(name):
    def body(p, L):
        l, v, n, i, e, es = setup(p, L, name, "e")
        p.assume(tm.lt(tm.num(-34), e)); p.assume(tm.lt(e, tm.num(34)))
        if name == "LogIdent":
            p.assume(tm.bnot(tm.eq(e, N0)))
        fr = Frame(p, e=es)
        m = l.inverse(es).el(i)
        decide_branches(p, m)
        if p.infeasible():
            raise PathEnd()
        d = need_array(p, l.inverse_derivative(es), (n,), "di:shape").el(i)
        if "SoftPlus" in name:
            decide_branches(p, d)
            if p.infeasible():
                raise PathEnd()
        p.prove(f"{p.ex.name}:di", tm.eq(d, dterm(p, m, e)), replay=rp(name, "inverse_derivative", "e"), function=f"ondil.links.{name}.inverse_derivative")
        fr.check()
    return Unit(f"C07.{name}.inverse_derivative", body, [f"ondil.links.{name}.inverse_derivative"])


def units(tier):
    out = []
    for nme in NAMES:
        out += [u_round(nme), u_range(nme), u_deriv(nme), u_inv(nme)]
    return out
