"""Shared set-up of the distribution units (C08 - C11): an arbitrary number of observations, an arbitrary row of parameters."""
from fractions import Fraction
from .common import *
from ..scipyshim import LAWS
from .. import npshim

NAMES = ["Normal", "NormalMeanVariance", "LogNormal", "LogNormalMedian", "Exponential", "Logistic", "Gumbel",
         "ReverseGumbel", "Gamma", "InverseGamma", "InverseGaussian", "Beta", "BetaInflated", "BetaInflatedZero",
         "ZeroAdjustedGamma", "StudentT", "JSU"]
REAL = {"Normal", "NormalMeanVariance", "Logistic", "Gumbel", "ReverseGumbel", "StudentT", "JSU"}
POS = {"LogNormal", "LogNormalMedian", "Exponential", "Gamma", "InverseGamma", "InverseGaussian"}
NP = {"Exponential": 1, "StudentT": 3, "BetaInflated": 4, "BetaInflatedZero": 3, "ZeroAdjustedGamma": 3, "JSU": 4}
# domains of the parameters: r real, p positive, u open unit interval
DOM = {"Normal": "rp", "NormalMeanVariance": "rp", "LogNormal": "rp", "LogNormalMedian": "pp", "Exponential": "p", "Logistic": "rp",
       "Gumbel": "rp", "ReverseGumbel": "rp", "Gamma": "pp", "InverseGamma": "pp", "InverseGaussian": "pp", "Beta": "uu",
       "BetaInflated": "uupp", "BetaInflatedZero": "uup", "ZeroAdjustedGamma": "ppu", "StudentT": "rpp", "JSU": "rprp"}
ALIAS = {"ZeroAdjustedGamma": ["ZAGA"], "JSU": ["JohnsonSU"]}
PKG = "ondil.distributions"
F = tm.fn
log, exp = (lambda t: F("log", t)), (lambda t: F("exp", t))
sq = lambda t: tm.mul(t, t)
inv = lambda t: tm.power(t, tm.num(-1))
TWO = tm.num(2)
H = tm.num(Fraction(1, 2))
ASSUMPTIONS = [
    "scipy.stats laws and scipy.special functions as axiomatised in pyvc/scipyshim.py (density, distribution function, quantile of the standardised law; digamma/trigamma as derivatives of gammaln)",
    "np.nextafter(0, 1) and np.nextafter(1, 0) are read as the open bounds 0 and 1",
]


def get_class(L, name):
    m = L.load(PKG)
    for a in [name] + ALIAS.get(name, []):
        if hasattr(m, a):
            return getattr(m, a)
    raise Unsupported("distribution " + name + " is not exported")


def regions(name):
    if name in REAL:
        return ["in"]
    if name == "BetaInflated":
        return ["in", "zero", "one"]
    if name in ("BetaInflatedZero", "ZeroAdjustedGamma"):
        return ["in", "zero"]
    return ["in"]


class Point:
    """n observations; observation i has value y and parameter row t0.., everything else is arbitrary"""

    def __init__(self, p, L, name, region="in", **kw):
        self.p, self.name = p, name
        self.cls = get_class(L, name)
        self.d = self.cls(**kw)
        self.K = NP.get(name, 2)
        self.n = dimvar(p, "n")
        self.i = i = index(p, self.n)
        self.t = [tm.var(f"t{k}") for k in range(self.K)]
        for k, c in enumerate(DOM[name]):
            if c in "pu":
                p.spec.varsigns[f"t{k}"] = "+"
                p.assume(tm.lt(N0, self.t[k]))
            if c == "u":
                p.assume(tm.lt(self.t[k], N1))
        self.yv = tm.var("y")
        if region == "zero":
            self.yv = N0
        elif region == "one":
            self.yv = N1
        elif region == "in":
            if name not in REAL:
                p.spec.varsigns["y"] = "+"
                p.assume(tm.lt(N0, self.yv))
            if "Beta" in name:
                p.assume(tm.lt(self.yv, N1))
        elif region == "below":
            p.assume(tm.lt(self.yv, N0))
        elif region == "above":
            p.assume(tm.lt(N1, self.yv))
        self.y = pointarr(p, "ys", (self.n,), (i,), self.yv)
        t = self.t

        def get(idx):
            r, c = idx
            k = cdim(c)
            if k is None:
                raise Unsupported("symbolic column of theta")
            if r is i or p.ctx.entails(tm.eq(r, i)):
                return t[k]
            return tm.app(f"theta{k}", (r,), "R")
        self.theta = SArr.new((self.n, tm.num(self.K)), get, "R", "theta")
        self.frame = Frame(p, y=self.y)
        self.theta0 = self.theta.copy()

    def cell(self, r, oid):
        """the entry of observation i of a result of one entry per observation"""
        p = self.p
        if not isinstance(r, SArr) or r.ndim != 1:
            p.ex.record(f"{p.ex.name}:{oid}:shape", ("failed", "shape", f"result is {type(r).__name__}, not one value per observation", None), 0)
            raise PathEnd()
        p.prove(f"{p.ex.name}:{oid}:shape", tm.eq(r._shape[0], self.n))
        return r.el(self.i)

    def frame_check(self):
        self.frame.check()
        p = self.p
        r = p.fresh("fr", "I")
        p.prove(f"{p.ex.name}:frame:theta", tm.implies(tm.band(tm.le(N0, r), tm.lt(r, self.n)),
                tm.band(*[tm.eq(self.theta.el(r, tm.num(k)), self.theta0.el(r, tm.num(k))) for k in range(self.K)])))

    def replay(self, contract, extra=()):
        def f(inst):
            row = [float(inst[f"t{k}"]) for k in range(self.K)]
            y = float(self.yv.args[0]) if self.yv.op == "num" else float(inst["y"])
            nd = lambda v, sh: {"__nd__": v, "shape": sh, "dtype": "float64"}
            return {"contract": contract, "case": {"__d__": [["name", self.name], ["theta", nd(row, [1, self.K])], ["y", nd([y], [1])]] + [list(e) for e in extra]}}
        return f


# ---- the documented laws -------------------------------------------------------------
def law(name, t):
    """(standard law, its parameters, mass at 0, mass at 1) of the parameter row t"""
    L = LAWS
    if name == "Normal":
        return L["norm"], [t[0], t[1]], N0, N0
    if name == "NormalMeanVariance":
        return L["norm"], [t[0], tm.power(t[1], H)], N0, N0
    if name == "LogNormal":
        return L["lognorm"], [t[1], N0, exp(t[0])], N0, N0
    if name == "LogNormalMedian":
        return L["lognorm"], [t[1], N0, t[0]], N0, N0
    if name == "Exponential":
        return L["expon"], [N0, t[0]], N0, N0
    if name == "Logistic":
        return L["logistic"], [t[0], t[1]], N0, N0
    if name == "Gumbel":
        return L["gumbel_l"], [t[0], t[1]], N0, N0
    if name == "ReverseGumbel":
        return L["gumbel_r"], [t[0], t[1]], N0, N0
    if name in ("Gamma", "ZeroAdjustedGamma"):
        return L["gamma"], [inv(sq(t[1])), N0, tm.mul(t[0], sq(t[1]))], (t[2] if name != "Gamma" else N0), N0
    if name == "InverseGamma":
        return L["invgamma"], [inv(sq(t[1])), N0, tm.div(tm.mul(t[0], tm.add(N1, sq(t[1]))), sq(t[1]))], N0, N0
    if name == "InverseGaussian":
        return L["invgauss"], [tm.mul(t[0], sq(t[1])), N0, inv(sq(t[1]))], N0, N0
    if "Beta" in name:
        s = tm.div(tm.sub(N1, sq(t[1])), sq(t[1]))
        m0 = m1 = N0
        if name == "BetaInflated":
            den = tm.add(N1, t[2], t[3])
            m0, m1 = tm.div(t[2], den), tm.div(t[3], den)
        if name == "BetaInflatedZero":
            m0 = tm.div(t[2], tm.add(N1, t[2]))
        return L["beta"], [tm.mul(t[0], s), tm.mul(tm.sub(N1, t[0]), s), N0, N1], m0, m1
    if name == "StudentT":
        return L["t"], [t[2], t[0], t[1]], N0, N0
    if name == "JSU":
        return L["johnsonsu"], [t[2], t[3], t[0], t[1]], N0, N0
    raise KeyError(name)


def fq(name, m):
    """function name for the evidence"""
    return f"{PKG}.{name}.{m}"


def u_links(name, pid):
    """the k-th link given to the constructor is the one used for the k-th parameter, and each request reaches the function of that link"""
    fn = "ondil.base.distribution.Distribution."

    def body(p, L):
        import inspect
        cls = get_class(L, name)
        base = L.load("ondil.base.link").LinkFunction
        K = NP.get(name, 2)
        kinds = ("link", "inverse", "link_derivative", "link_second_derivative", "inverse_derivative")

        def mark(k):
            ns = {q: (lambda self, x, q=q: npshim.elementwise(lambda t: tm.app(f"{q}{k}", (t,)), [npshim.asarray(x)])) for q in kinds}
            ns["link_support"] = (float("-inf"), float("inf"))
            ns["__init__"] = lambda self: None
            return type(f"Link{k}", (base,), ns)()
        marks = [mark(k) for k in range(K)]
        pars = [q for q in list(inspect.signature(cls.__init__).parameters)[1:] if q.endswith("link")]
        if len(pars) != K:
            raise Unsupported("constructor with other links than parameters")
        for d in (cls(*marks), cls(**dict(zip(pars, marks)))):
            ok = list(sorted(d.links)) == list(range(K)) and all(d.links[k] is marks[k] for k in range(K))
            p.prove(f"{p.ex.name}:constructor", tm.TRUE if ok else tm.FALSE, function=f"{PKG}.{name}.__init__")
            p.prove(f"{p.ex.name}:n_params", tm.TRUE if d.n_params == K else tm.FALSE, function=fn + "n_params")
            x = symarr("x", (dimvar(p, "n"),))
            for k in range(K):
                for m, q in (("link_function", "link"), ("link_inverse", "inverse"), ("link_function_derivative", "link_derivative"), ("link_inverse_derivative", "inverse_derivative")):
                    for r in (getattr(d, m)(x, param=k), getattr(d, m)(x, k)):
                        i = index(p, x._shape[0], "i")
                        need_array(p, r, (x._shape[0],), f"{m}:shape")
                        p.prove(f"{p.ex.name}:{m}", tm.eq(r.el(i), tm.app(f"{q}{k}", (x.el(i),))), function=fn + m)
    return Unit(f"{pid}.links.{name}", body, [fn + "link_function", fn + "link_inverse", fn + "link_inverse_derivative", f"{PKG}.{name}.__init__"])
