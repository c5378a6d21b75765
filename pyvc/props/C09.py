"""C09: second and cross derivatives, their sign, and rejected requests."""
from .dist import *

tri = lambda t: F("trigamma", t)
nm = tm.num
neg = tm.neg


def P(b, e):
    return tm.power(b, nm(e))


def info(name, y, t, k, mass):
    if name in ("Normal", "LogNormal"):
        return [neg(P(t[1], -2)), tm.mul(nm(-2), P(t[1], -2))][k]
    if name == "NormalMeanVariance":
        return [neg(inv(t[1])), tm.mul(nm(Fraction(-1, 2)), P(t[1], -2))][k]
    if name == "LogNormalMedian":
        return [neg(tm.mul(P(t[0], -2), P(t[1], -2))), tm.mul(nm(-2), P(t[1], -2))][k]
    if name == "Exponential":
        return neg(P(t[0], -2))
    if name == "Logistic":
        third = tm.mul(nm(Fraction(-1, 3)), P(t[1], -2))
        return [third, tm.mul(third, tm.add(N1, tm.mul(nm(Fraction(1, 3)), sq(tm.PI))))][k]
    if name in ("Gumbel", "ReverseGumbel"):
        return [neg(P(t[1], -2)), tm.mul(nm(-1.82368), P(t[1], -2))][k]
    if name in ("Gamma", "ZeroAdjustedGamma"):
        if k == 2:
            return neg(inv(tm.mul(t[2], tm.sub(N1, t[2]))))
        if mass:
            return N0
        return [neg(tm.mul(P(t[0], -2), P(t[1], -2))),
                tm.sub(tm.mul(nm(4), P(t[1], -4)), tm.mul(nm(4), P(t[1], -6), tri(P(t[1], -2))))][k]
    if name == "InverseGamma":
        s2 = sq(t[1])
        return [neg(tm.mul(inv(s2), P(t[0], -2))),
                tm.mul(nm(-4), P(s2, -3), tm.sub(tri(inv(s2)), tm.div(tm.mul(s2, tm.add(N1, tm.mul(TWO, s2))), sq(tm.add(N1, s2)))))][k]
    if name == "InverseGaussian":
        return [neg(tm.mul(P(t[0], -3), P(t[1], -2))), tm.mul(nm(-2), P(t[1], -2))][k]
    if "Beta" in name:
        if name == "BetaInflated" and k >= 2:
            a, b = (t[2], t[3]) if k == 2 else (t[3], t[2])
            return neg(tm.div(tm.add(N1, b), tm.mul(a, sq(tm.add(N1, a, b)))))
        if k == 2:
            return neg(inv(tm.mul(t[2], sq(tm.add(N1, t[2])))))
        if mass:
            return N0
        al, be, s = ab(t)
        if k == 0:
            return neg(tm.mul(sq(s), tm.add(tri(al), tri(be))))
        return tm.mul(nm(-4), P(t[1], -6), tm.sub(tm.add(tm.mul(sq(t[0]), tri(al)), tm.mul(sq(tm.sub(N1, t[0])), tri(be))), tri(tm.add(al, be))))
    if name == "StudentT":
        nu = t[2]
        if k == 0:
            return neg(tm.div(tm.add(nu, N1), tm.mul(tm.add(nu, nm(3)), sq(t[1]))))
        if k == 1:
            return neg(tm.div(tm.mul(TWO, nu), tm.mul(tm.add(nu, nm(3)), sq(t[1]))))
        v = tm.mul(nm(Fraction(1, 4)), tm.add(tri(tm.mul(H, tm.add(nu, N1))), neg(tri(tm.mul(H, nu))),
                   tm.div(tm.mul(TWO, tm.add(nu, nm(5))), tm.mul(nu, tm.add(nu, N1), tm.add(nu, nm(3))))))
        c = nm(-1e-15)
        return tm.ite(tm.lt(c, v), c, v)
    return None


def ab(t):
    s = tm.div(tm.sub(N1, sq(t[1])), sq(t[1]))
    return tm.mul(t[0], s), tm.mul(tm.sub(N1, t[0]), s), s


def cross(name, t, a, b, mass):
    a, b = min(a, b), max(a, b)
    if name == "Gumbel":
        return tm.mul(nm(-0.422784), P(t[1], -2))
    if name == "ReverseGumbel":
        return tm.mul(nm(0.422784), P(t[1], -2))
    if name == "InverseGamma":
        return tm.div(nm(-2), tm.mul(t[0], t[1], tm.add(N1, sq(t[1]))))
    if "Beta" in name:
        if (a, b) == (0, 1):
            if mass:
                return N0
            al, be, s = ab(t)
            return tm.mul(TWO, tm.sub(N1, sq(t[1])), P(t[1], -5), tm.sub(tm.mul(t[0], tri(al)), tm.mul(tm.sub(N1, t[0]), tri(be))))
        if (a, b) == (2, 3):
            return P(tm.add(N1, t[2], t[3]), -2)
        return N0
    if name == "StudentT" and (a, b) == (1, 2):
        return tm.div(TWO, tm.mul(t[1], tm.add(t[2], nm(3)), tm.add(t[2], N1)))
    return N0


def trifacts(x):
    """trusted bounds of the trigamma function on the positive half line"""
    T_ = tri(x)
    return [tm.lt(tm.add(inv(x), tm.mul(H, P(x, -2))), T_),
            tm.lt(T_, tm.add(inv(x), tm.mul(H, P(x, -2)), tm.mul(nm(Fraction(1, 6)), P(x, -3)))),
            tm.lt(P(x, -2), T_), tm.lt(T_, tm.add(P(x, -2), nm(Fraction(1645, 1000))))]


def lemma():
    """x^2 trigamma(x) is subadditive: proved from the bounds, used for the sign of the Beta information"""
    def body(p, L):
        a, b, s = tm.var("a"), tm.var("b"), tm.var("s")
        ta, tb, ts = tm.var("ta"), tm.var("tb"), tm.var("ts")
        for v in "abs":
            p.spec.varsigns[v] = "+"
            p.assume(tm.lt(N0, tm.var(v)))
        p.assume(tm.eq(s, tm.add(a, b)))
        # h = x^2 trigamma(x):  x + 1/2 < h(x), 1 < h(x), h(x) < x + 1/2 + 1/(6x), h(x) < 1 + 1.645 x^2
        for x, h in ((a, ta), (b, tb)):
            p.assume(tm.lt(tm.add(x, H), h)); p.assume(tm.lt(N1, h))
        p.assume(tm.lt(tm.mul(nm(6), s, ts), tm.add(tm.mul(nm(6), sq(s)), tm.mul(nm(3), s), N1)))
        p.assume(tm.lt(ts, tm.add(N1, tm.mul(nm(Fraction(1645, 1000)), sq(s)))))
        p.prove(f"{p.ex.name}:subadditive", tm.lt(ts, tm.add(ta, tb)))
    return Unit("C09.lemma.trigamma", body, [])


def unit(name, k, region):
    def body(p, L):
        s = Point(p, L, name, region)
        t, mass = s.t, region != "in"
        if name == "StudentT":
            p.assume(tm.le(t[2], tm.num(10 ** 15, "R")))
        got = s.d.dl2_dp2(s.y, s.theta, param=k)
        got = s.cell(got, "second")
        if name == "JSU":
            want = neg(sq(s.cell(s.d.dl1_dp1(s.y, s.theta, param=k), "score")))
        else:
            want = info(name, s.yv, t, k, mass)
        p.prove(f"{p.ex.name}:second", tm.eq(got, want), replay=s.replay("information"), function=fq(name, "dl2_dp2"))
        if want is N0 or name == "JSU":
            p.prove(f"{p.ex.name}:sign", tm.le(want, N0), function=fq(name, "dl2_dp2"))
        elif name == "StudentT" and k == 2:
            p.prove(f"{p.ex.name}:sign", tm.lt(want, N0), function=fq(name, "dl2_dp2"))
        elif "Beta" in name and k == 1:
            # with the lemma: s^2 times the bracket is h(alpha) + h(beta) - h(alpha + beta) > 0
            al, be, S = ab(t)
            h = lambda x: tm.mul(sq(x), tri(x))
            D = tm.sub(tm.add(h(al), h(be)), h(tm.add(al, be)))
            p.prove(f"{p.ex.name}:sign_form", tm.eq(want, tm.mul(nm(-4), P(t[1], -6), P(S, -2), D)), function=fq(name, "dl2_dp2"))
            d = tm.var("lemma_D")
            p.assume(tm.lt(N0, d))
            p.prove(f"{p.ex.name}:sign", tm.lt(tm.mul(nm(-4), P(t[1], -6), P(S, -2), d), N0), function=fq(name, "dl2_dp2"))
        elif name in ("Gamma", "ZeroAdjustedGamma", "InverseGamma") and k == 1:
            a = tm.var("a")
            p.spec.varsigns["a"] = "+"
            p.assume(tm.lt(N0, a))
            tv = tm.var("tri_a")
            p.assume(tm.lt(tm.add(tm.mul(TWO, a), N1), tm.mul(TWO, sq(a), tv)))
            # sigma^2 = 1/a turns the reported value into this expression
            form = tm.mul(nm(-4), P(a, 3), tm.sub(tv, inv(a) if name != "InverseGamma" else tm.div(tm.add(a, TWO), sq(tm.add(a, N1)))))
            back = tm.subst(form, {tv: tri(a)})
            back = tm.subst(back, {a: P(t[1], -2)})
            p.prove(f"{p.ex.name}:sign_form", tm.eq(want, back), function=fq(name, "dl2_dp2"))
            p.prove(f"{p.ex.name}:sign", tm.lt(tm.mul(TWO, sq(a), sq(tm.add(a, N1)), form), N0), function=fq(name, "dl2_dp2"))
        else:
            p.prove(f"{p.ex.name}:sign", tm.lt(want, N0), function=fq(name, "dl2_dp2"))
        s.frame_check()
    return Unit(f"C09.{name}.{k}.{region}", body, [fq(name, "dl2_dp2")])


def cunit(name, a, b, region):
    def body(p, L):
        s = Point(p, L, name, region)
        got = s.cell(s.d.dl2_dpp(s.y, s.theta, params=(a, b)), "cross")
        if name == "JSU":
            want = neg(tm.mul(*[s.cell(s.d.dl1_dp1(s.y, s.theta, param=k), "score") for k in (a, b)]))
        else:
            want = cross(name, s.t, a, b, region != "in")
        p.prove(f"{p.ex.name}:cross", tm.eq(got, want), replay=s.replay("information"), function=fq(name, "dl2_dpp"))
        s.frame_check()
    return Unit(f"C09.{name}.{a}{b}.{region}", body, [fq(name, "dl2_dpp")])


def runit(name, neg=False):
    """requests for parameters that do not exist, for every such index"""
    def body(p, L):
        s = Point(p, L, name)
        k = p.fresh("bad", "I")
        p.assume(tm.lt(k, tm.num(0)) if neg else tm.le(tm.num(s.K), k))
        bad = SV(k)
        y, th, d = s.y, s.theta, s.d
        expect_raises(p, "dl1:range", ValueError, lambda: d.dl1_dp1(y, th, param=bad))
        expect_raises(p, "dl2:range", ValueError, lambda: d.dl2_dp2(y, th, param=bad))
        for q in range(s.K):
            expect_raises(p, "dpp:range", ValueError, lambda: d.dl2_dpp(y, th, params=(q, bad)))
            expect_raises(p, "dpp:range", ValueError, lambda: d.dl2_dpp(y, th, params=(bad, q)))
            expect_raises(p, "dpp:same", ValueError, lambda: d.dl2_dpp(y, th, params=(q, q)))
    return Unit(f"C09.{name}.rejects{'.neg' if neg else ''}", body, [fq(name, "dl1_dp1"), fq(name, "dl2_dp2"), fq(name, "dl2_dpp"), "ondil.base.distribution.Distribution._validate_dln_dpn_inputs", "ondil.base.distribution.Distribution._validate_dl2_dpp_inputs"])


ASSUMPTIONS = ASSUMPTIONS + [
    "trigamma bounds on x > 0: 1/x + 1/(2x^2) < trigamma(x) < 1/x + 1/(2x^2) + 1/(6x^3), 1/x^2 < trigamma(x) < 1/x^2 + 1.645",
    "StudentT tail derivative: tail parameter at most 1e15 (the code's documented cap)",
]


def units(tier):
    out = [lemma()]
    for n_ in NAMES:
        K = NP.get(n_, 2)
        out += [unit(n_, k, r) for k in range(K) for r in regions(n_)]
        out += [cunit(n_, a, b, r) for a in range(K) for b in range(K) if a != b for r in regions(n_)]
        out += [runit(n_), runit(n_, True)]
    return out
