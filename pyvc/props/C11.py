"""C11: starting values and conditional starting values."""
from .dist import *
from .. import npshim as npx

PI = tm.PI
rt = lambda t: tm.power(t, H)


def sample(p, name, hyp=True):
    """a sample of n observations inside the support"""
    n = dimvar(p, "n", 2)
    sign = None if name in REAL else ("+" if name in POS or name == "Beta" else "0+")
    y = symarr("ys", (n,), sign=sign)
    return n, y


def moments(y, n):
    k = tm.fresh_bound()
    S1 = tm.sumt(k, n, y(k))
    m = tm.div(S1, n)
    ss = tm.sumt(k, n, sq(tm.sub(y(k), m)))
    return m, ss


def unit(name, gam=False):
    def body(p, L):
        cls = get_class(L, name)
        d = cls(use_gamlss_init_values=True) if gam else cls()
        K = NP.get(name, 2)
        n, y = sample(p, name)
        yv = lambda i: tm.app("ys", (i,))
        lv = lambda i: log(yv(i))
        m, ss = moments(yv, n)
        lm, ls = moments(lv, n)
        logscale = name in ("LogNormal", "LogNormalMedian")
        if logscale:
            p.assume(tm.lt(N0, ls))        # non-degenerate sample
        else:
            p.assume(tm.lt(N0, ss))
        if "Inflated" in name or name == "ZeroAdjustedGamma":
            p.assume(tm.lt(N0, m))
        if "Beta" in name:
            k = tm.fresh_bound()
            p.assume(tm.lt(tm.sumt(k, n, yv(k)), n))   # a sample inside (0, 1) that is not identically 1
        fr = Frame(p, y=y)
        r = need_array(p, d.initial_values(y), (n, tm.num(K)), "shape")
        i = index(p, n)
        got = [r.el(i, tm.num(k)) for k in range(K)]
        s1 = rt(tm.div(ss, tm.sub(n, N1)))
        s0 = rt(tm.div(ss, n))
        want = {
            "Normal": [m, s1], "NormalMeanVariance": [m, tm.div(ss, tm.sub(n, N1))],
            "LogNormal": [lm, rt(tm.div(ls, tm.sub(n, N1)))], "Exponential": [m],
            "Logistic": [m, tm.div(tm.mul(rt(tm.num(3)), s1), rt(PI))],
            "Gumbel": [m, tm.div(tm.mul(rt(tm.num(6)), s0), PI)],
            "ReverseGumbel": [tm.sub(m, tm.mul(tm.num(0.5772157), tm.div(tm.mul(rt(tm.num(6)), s0), PI))), tm.div(tm.mul(rt(tm.num(6)), s0), PI)],
            "Gamma": [m, N1], "InverseGamma": [m, tm.div(s1, rt(m))], "InverseGaussian": [m, tm.div(s0, rt(m))],
            "Beta": [m, H], "BetaInflated": [m, H, tm.num(5), tm.num(5)], "BetaInflatedZero": [m, H, m], "ZeroAdjustedGamma": [m, N1, H],
        }.get(name)
        if name == "LogNormalMedian":
            want = [exp(tt(npx.median(npx.log(y)))), rt(tm.div(ls, n))]
        if name == "JSU" and gam:
            want = [tm.mul(H, tm.add(m, yv(i))), tm.num(0.1), N0, H]
        f = fq(name, "initial_values")
        if want is None:
            fits = p.ghost.get("fits", [])
            if len(fits) != 1:
                raise Unsupported("starting values that are not one maximum-likelihood fit")
            nm_, ya, pr = fits[0]
            pr = [tt(x) for x in pr]
            j = index(p, n, "j")
            p.prove(f"{p.ex.name}:whole_sample", tm.band(tm.eq(ya._shape[0], n), tm.eq(ya.el(j), yv(j))), function=f)
            p.prove(f"{p.ex.name}:law", tm.btrue(nm_ == {"StudentT": "t", "JSU": "johnsonsu"}[name]), function=f)
            want = [pr[1], pr[2], pr[0]] if name == "StudentT" else [pr[2], pr[3], pr[0], pr[1]]
        for k in range(K):
            p.prove(f"{p.ex.name}:value{k}", tm.eq(got[k], want[k]), function=f)
        for k in range(K):
            lo, hi = d.parameter_support[k]
            g = []
            if tt(lo) is not tm.neg(tm.INF):
                g.append(tm.lt(tt(lo), want[k]))
            if tt(hi) is not tm.INF:
                g.append(tm.lt(want[k], tt(hi)))
            p.prove(f"{p.ex.name}:support{k}", tm.band(*g) if g else tm.TRUE, function=f)
        fr.check()
    return Unit(f"C11.{name}{'.gamlss' if gam else ''}.start", body, [fq(name, "initial_values")])


MLE = ["Normal", "StudentT", "JSU", "Logistic", "Gumbel", "ReverseGumbel", "Exponential"]


class Result:
    def __init__(self, success, x):
        self.success, self.x, self.message, self.fun = success, x, "message", SV(tm.var("fun"))


def cond(name, k0):
    def body(p, L):
        s = Point(p, L, name, "in")
        K, n = s.K, s.n
        m = K - k0
        xs = [tm.var(f"x{j}") for j in range(m)]
        calls = []

        def minimize(fun, x0, args, method, bounds):
            """contract of the bounded optimiser: the point returned satisfies the bounds it was given"""
            calls.append((fun, x0, args))
            if bounds is not None:
                for v, (lo, hi) in zip(xs, bounds):
                    if tt(lo) is not tm.neg(tm.INF):
                        p.assume(tm.le(tt(lo), v))
                    if tt(hi) is not tm.INF:
                        p.assume(tm.le(v, tt(hi)))
            ok = p.branch(tm.lt(N0, tm.var("success")))
            x = SArr.new((tm.num(m),), lambda i: xs[cdim(i[0])], "R")
            return Result(ok, x)
        p.ghost["minimize"] = minimize
        p.ghost["stdout"] = True
        r = need_array(p, s.d.calculate_conditional_initial_values(s.y, s.theta, k0), (n, tm.num(K)), "shape")
        f = "ondil.base.distribution.ScipyMixin.calculate_conditional_initial_values"
        for k in range(k0):
            p.prove(f"{p.ex.name}:kept{k}", tm.eq(r.el(s.i, tm.num(k)), s.t[k]), function=f)
        for k in range(k0, K):
            v = r.el(s.i, tm.num(k))
            lo, hi = s.d.parameter_support[k]
            g = []
            if tt(lo) is not tm.neg(tm.INF):
                g.append(tm.le(tt(lo), v))
            if tt(hi) is not tm.INF:
                g.append(tm.le(v, tt(hi)))
            p.prove(f"{p.ex.name}:support{k}", tm.band(*g) if g else tm.TRUE, function=f)
        s.frame_check()
    return Unit(f"C11.{name}.conditional.{k0}", body, ["ondil.base.distribution.ScipyMixin.calculate_conditional_initial_values", "ondil.base.distribution.ScipyMixin.theta_to_scipy_params"])


ASSUMPTIONS = ASSUMPTIONS + [
    "non-degenerate sample: n >= 2, positive sample variance (of the logarithms for the log-normal laws), positive mean and mean below 1 for the inflated laws",
    "scipy.stats t.fit and johnsonsu.fit return admissible parameter values; scipy.optimize.minimize(method='L-BFGS-B') returns a point inside the bounds it is given; np.median depends on the entries only",
    "conditional starting values: the seven laws whose parameters map one to one to scipy's",
]


def units(tier):
    out = [unit(n_) for n_ in NAMES] + [unit("JSU", True)]
    out += [cond(n_, k) for n_ in MLE for k in range(NP.get(n_, 2))]
    return out
