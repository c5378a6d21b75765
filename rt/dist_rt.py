"""Run-time contracts C08 - C11 (distributions)."""
import numpy as np
import scipy.special as spc
import scipy.stats as st
from .core import *
import ondil.distributions as D
import ondil.base.distribution as BD

NAMES = ["Normal", "NormalMeanVariance", "LogNormal", "LogNormalMedian", "Exponential", "Logistic", "Gumbel",
         "ReverseGumbel", "Gamma", "InverseGamma", "InverseGaussian", "Beta", "BetaInflated", "BetaInflatedZero",
         "ZeroAdjustedGamma", "StudentT", "JSU"]


def cls(name):
    if hasattr(D, name):
        return getattr(D, name)
    alt = {"ZeroAdjustedGamma": ["ZAGA", "ZeroAdjustedGamma"], "JSU": ["JSU", "JohnsonSU"]}[name]
    for a in alt:
        if hasattr(D, a):
            return getattr(D, a)
    raise Fail(f"distribution {name} is not exported")


def dist(name):
    return cls(name)()


REAL = {"Normal", "NormalMeanVariance", "Logistic", "Gumbel", "ReverseGumbel", "StudentT", "JSU"}
POS = {"LogNormal", "LogNormalMedian", "Exponential", "Gamma", "InverseGamma", "InverseGaussian"}
NP = {"Exponential": 1, "StudentT": 3, "BetaInflated": 4, "BetaInflatedZero": 3, "ZeroAdjustedGamma": 3, "JSU": 4}


def g_theta(g, name, n):
    """admissible parameter values (several magnitudes)"""
    r = g.r
    k = NP.get(name, 2)

    def pos(lo=0.15, hi=3.0):
        v = np.exp(r.uniform(np.log(lo), np.log(hi), size=n))
        if r.random() < 0.25:
            fl = [abs(f) for f in g.lits.floats if lo <= abs(f) <= hi] + [1.0]
            v[r.integers(n)] = g.pick(fl)
        return v

    def unit(lo=0.05, hi=0.95):
        return r.uniform(lo, hi, size=n)

    def real():
        v = r.normal(size=n) * 2
        if r.random() < 0.2:
            v[r.integers(n)] = 0.0
        return v
    if name in ("Beta", "BetaInflated", "BetaInflatedZero"):
        cols = [unit(), unit(0.15, 0.9)]
        cols += [pos(0.05, 5) for _ in range(k - 2)]
    elif name == "ZeroAdjustedGamma":
        cols = [pos(0.2, 8), pos(0.2, 2.0), unit()]
    elif name == "Exponential":
        cols = [pos(0.05, 20)]
    elif name in ("Gamma", "InverseGamma", "InverseGaussian"):
        cols = [pos(0.2, 8), pos(0.2, 2.0)]
    elif name == "LogNormalMedian":
        cols = [pos(0.2, 8), pos()]
    elif name == "LogNormal":
        cols = [r.normal(size=n), pos(0.2, 2)]
    elif name == "StudentT":
        cols = [real(), pos(), np.exp(r.uniform(np.log(0.6), np.log(60), size=n))]
    elif name == "JSU":
        cols = [real(), pos(), r.normal(size=n), pos(0.5, 4)]
    else:
        cols = [real(), pos(0.1, 8)]
    return np.column_stack(cols)


def dens(name, theta):
    """documented law as a frozen scipy distribution of the continuous part, plus (mass0, mass1)"""
    t = [theta[:, i] for i in range(theta.shape[1])]
    z = np.zeros(len(theta))
    if name == "Normal":
        return st.norm(t[0], t[1]), z, z
    if name == "NormalMeanVariance":
        return st.norm(t[0], np.sqrt(t[1])), z, z
    if name == "LogNormal":
        return st.lognorm(s=t[1], scale=np.exp(t[0])), z, z
    if name == "LogNormalMedian":
        return st.lognorm(s=t[1], scale=t[0]), z, z
    if name == "Exponential":
        return st.expon(scale=t[0]), z, z
    if name == "Logistic":
        return st.logistic(t[0], t[1]), z, z
    if name == "Gumbel":
        return st.gumbel_l(t[0], t[1]), z, z
    if name == "ReverseGumbel":
        return st.gumbel_r(t[0], t[1]), z, z
    if name in ("Gamma", "ZeroAdjustedGamma"):
        m0 = t[2] if name != "Gamma" else z
        return st.gamma(a=1 / t[1] ** 2, scale=t[0] * t[1] ** 2), m0, z
    if name == "InverseGamma":
        return st.invgamma(a=1 / t[1] ** 2, scale=t[0] * (1 + t[1] ** 2) / t[1] ** 2), z, z
    if name == "InverseGaussian":
        return st.invgauss(mu=t[0] * t[1] ** 2, scale=1 / t[1] ** 2), z, z
    if name in ("Beta", "BetaInflated", "BetaInflatedZero"):
        s = (1 - t[1] ** 2) / t[1] ** 2
        m0 = m1 = z
        if name == "BetaInflated":
            m0, m1 = t[2] / (1 + t[2] + t[3]), t[3] / (1 + t[2] + t[3])
        if name == "BetaInflatedZero":
            m0 = t[2] / (1 + t[2])
        return st.beta(t[0] * s, (1 - t[0]) * s), m0, m1
    if name == "StudentT":
        return st.t(df=t[2], loc=t[0], scale=t[1]), z, z
    if name == "JSU":
        return st.johnsonsu(a=t[2], b=t[3], loc=t[0], scale=t[1]), z, z


def g_y(g, name, theta, masses=True):
    fr, m0, m1 = dens(name, theta)
    u = g.r.uniform(0.02, 0.98, size=len(theta))
    y = fr.ppf(u)
    if name in ("Beta", "BetaInflated", "BetaInflatedZero"):
        y = np.clip(y, 1e-4, 1 - 1e-4)
    if name in POS or name == "ZeroAdjustedGamma":
        y = np.maximum(y, 1e-4)
    if masses and name in ("BetaInflated", "BetaInflatedZero", "ZeroAdjustedGamma"):
        y[g.r.random(len(y)) < 0.3] = 0.0
        if name == "BetaInflated":
            y[g.r.random(len(y)) < 0.25] = 1.0
    return y


def g_pt(g):
    name = NAMES[g.i % len(NAMES)]
    n = g.size(1, 6, 20)
    th = g_theta(g, name, n)
    return dict(name=name, theta=th, y=g_y(g, name, th))


# ---- C08 ---------------------------------------------------------------------
def c_score(c):
    d = dist(c["name"])
    y, th = c["y"], c["theta"]
    y0, th0 = y.copy(), th.copy()
    K = th.shape[1]
    need(d.n_params == K, "number of parameters")
    for p in range(K):
        got = np.asarray(d.dl1_dp1(y, th, param=p), dtype=float)
        need(got.shape == y.shape, f"score of parameter {p} has shape {got.shape}")
        h = 2e-4 * np.maximum(np.abs(th[:, p]), 0.05)

        def f(k):
            t = th.copy()
            t[:, p] += k * h
            return np.asarray(d.logpdf(y, t), dtype=float)
        ref = (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
        # rounding of the difference quotient
        noise = 1e-14 * (np.abs(f(0)) + 10) / h * 20
        bad = np.abs(got - ref) > 2e-6 * (np.abs(ref) + np.abs(got)) + noise + 1e-7
        if bad.any() or not np.isfinite(got).all():
            i = int(np.argmax(bad | ~np.isfinite(got)))
            raise Fail(f"{c['name']}: reported score for parameter {p} at y={y[i]!r}, theta={th[i].tolist()} is {got[i]!r} "
                       f"but the derivative of the reported log-density is {ref[i]!r}")
    same(y0, y, "y")
    same(th0, th, "theta")


# ---- C09 ---------------------------------------------------------------------
PG = lambda x: spc.polygamma(1, x)


def info(name, y, t, p):
    """specification of the reported second derivative"""
    a = [t[:, i] for i in range(t.shape[1])]
    one = np.ones(len(t))
    if name in ("Normal", "LogNormal"):
        return [-1 / a[1] ** 2, -2 / a[1] ** 2][p]
    if name == "NormalMeanVariance":
        return [-1 / a[1], -1 / (2 * a[1] ** 2)][p]
    if name == "LogNormalMedian":
        return [-1 / (a[0] * a[1]) ** 2, -2 / a[1] ** 2][p]
    if name == "Exponential":
        return -1 / a[0] ** 2
    if name == "Logistic":
        return [-1 / (3 * a[1] ** 2), -(1 + np.pi ** 2 / 3) / (3 * a[1] ** 2)][p]
    if name in ("Gumbel", "ReverseGumbel"):
        return [-1 / a[1] ** 2, -1.82368 / a[1] ** 2][p]
    if name in ("Gamma", "ZeroAdjustedGamma"):
        if p == 2:
            return -1 / (a[2] * (1 - a[2]))
        v = [-1 / (a[0] * a[1]) ** 2, 4 / a[1] ** 4 - 4 / a[1] ** 6 * PG(1 / a[1] ** 2)][p]
        return np.where(y == 0, 0.0, v) if name != "Gamma" else v
    if name == "InverseGamma":
        s2 = a[1] ** 2
        return [-1 / (s2 * a[0] ** 2), -4 / s2 ** 3 * (PG(1 / s2) - s2 * (1 + 2 * s2) / (1 + s2) ** 2)][p]
    if name == "InverseGaussian":
        return [-1 / (a[0] ** 3 * a[1] ** 2), -2 / a[1] ** 2][p]
    if name in ("Beta", "BetaInflated", "BetaInflatedZero"):
        if p == 2 and name == "BetaInflated":
            return -(1 + a[3]) / (a[2] * (1 + a[2] + a[3]) ** 2)
        if p == 3:
            return -(1 + a[2]) / (a[3] * (1 + a[2] + a[3]) ** 2)
        if p == 2:
            return -1 / (a[2] * (1 + a[2]) ** 2)
        s2 = a[1] ** 2
        s = (1 - s2) / s2
        al, be = a[0] * s, (1 - a[0]) * s
        if p == 0:
            v = -s ** 2 * (PG(al) + PG(be))
        else:
            v = -4 / s2 ** 3 * (a[0] ** 2 * PG(al) + (1 - a[0]) ** 2 * PG(be) - PG(al + be))
        return np.where((y == 0) | (y == 1), 0.0, v) if name != "Beta" else v
    if name == "StudentT":
        nu = a[2]
        if p == 0:
            return -(nu + 1) / ((nu + 3) * a[1] ** 2)
        if p == 1:
            return -2 * nu / ((nu + 3) * a[1] ** 2)
        v = (PG((nu + 1) / 2) - PG(nu / 2) + 2 * (nu + 5) / (nu * (nu + 1) * (nu + 3))) / 4
        return np.minimum(v, -1e-15)
    return None


def cross(name, y, t, p, q):
    a = [t[:, i] for i in range(t.shape[1])]
    z = np.zeros(len(t))
    p, q = min(p, q), max(p, q)
    if name == "Gumbel":
        return -0.422784 / a[1] ** 2
    if name == "ReverseGumbel":
        return 0.422784 / a[1] ** 2
    if name == "InverseGamma":
        return -2 / (a[0] * a[1] * (1 + a[1] ** 2))
    if name in ("Beta", "BetaInflated", "BetaInflatedZero"):
        if (p, q) == (0, 1):
            s2 = a[1] ** 2
            s = (1 - s2) / s2
            v = 2 * (1 - s2) / a[1] ** 5 * (a[0] * PG(a[0] * s) - (1 - a[0]) * PG((1 - a[0]) * s))
            return np.where((y == 0) | (y == 1), 0.0, v) if name != "Beta" else v
        if (p, q) == (2, 3):
            return 1 / (1 + a[2] + a[3]) ** 2
        return z
    if name == "StudentT" and (p, q) == (1, 2):
        return 2 / (a[1] * (a[2] + 3) * (a[2] + 1))
    return z


def c_info(c):
    name = c["name"]
    d = dist(name)
    y, th = c["y"], c["theta"]
    K = th.shape[1]
    sc = None
    if name == "JSU":
        sc = [np.asarray(d.dl1_dp1(y, th, param=p), dtype=float) for p in range(K)]
    for p in range(K):
        got = np.broadcast_to(np.asarray(d.dl2_dp2(y, th, param=p), dtype=float), y.shape)
        ref = -sc[p] ** 2 if sc else info(name, y, th, p)
        close(got, ref, 1e-6, 1e-12, f"{name}: second derivative for parameter {p} at y={y.tolist()}, theta={th.tolist()}")
        need((got <= 0).all(), f"{name}: second derivative for parameter {p} is positive: {short(got)}")
        for q in range(K):
            if p == q:
                need(raises(ValueError, lambda: d.dl2_dpp(y, th, params=(p, p))), f"{name}: dl2_dpp({p},{p}) does not raise ValueError")
                continue
            got = np.asarray(d.dl2_dpp(y, th, params=(p, q)), dtype=float)
            ref = -sc[p] * sc[q] if sc else cross(name, y, th, p, q)
            close(got, ref, 1e-6, 1e-12, f"{name}: cross derivative {(p, q)} at y={y.tolist()}, theta={th.tolist()}")
    for bad in (K, K + 1, K + 7, -1, -K):
        need(raises(ValueError, lambda: d.dl1_dp1(y, th, param=bad)), f"{name}: dl1_dp1(param={bad}) does not raise ValueError")
        need(raises(ValueError, lambda: d.dl2_dp2(y, th, param=bad)), f"{name}: dl2_dp2(param={bad}) does not raise ValueError")
        if K > 1:
            need(raises(ValueError, lambda: d.dl2_dpp(y, th, params=(0, bad))), f"{name}: dl2_dpp((0,{bad})) does not raise ValueError")
            need(raises(ValueError, lambda: d.dl2_dpp(y, th, params=(bad, 0))), f"{name}: dl2_dpp(({bad},0)) does not raise ValueError")


# ---- C10 ---------------------------------------------------------------------
def g_coh(g):
    name = NAMES[g.i % len(NAMES)]
    n = g.size(1, 6, 12)
    th = g_theta(g, name, n)
    c = dict(name=name, theta=th, y=g_y(g, name, th), q=g.r.uniform(0.01, 0.99, size=n), size=int(g.r.integers(1, 6)))
    if g.r.random() < 0.5:
        _, m0, m1 = dens(name, th)
        k = g.r.integers(n)
        c["q"][k] = [m0[k] / 2 if m0[k] else 0.5, m0[k] if m0[k] else 0.5, 1 - m1[k] / 2 if m1[k] else 0.99][g.r.integers(3)]
    if g.r.random() < 0.5:
        c["out"] = float(-np.exp(g.r.normal())) if g.r.random() < 0.7 else float(1 + np.exp(g.r.normal()))
    return c


def c_coh(c):
    name = c["name"]
    d = dist(name)
    y, th = c["y"], c["theta"]
    y0, th0 = y.copy(), th.copy()
    fr, m0, m1 = dens(name, th)
    pdf, cdf = np.asarray(d.pdf(y, th), float), np.asarray(d.cdf(y, th), float)
    lpdf, lcdf = np.asarray(d.logpdf(y, th), float), np.asarray(d.logcdf(y, th), float)
    for a, w in ((pdf, "pdf"), (cdf, "cdf"), (lpdf, "logpdf"), (lcdf, "logcdf")):
        need(a.shape == y.shape, f"{name}.{w} has shape {a.shape}")
    cont = 1 - m0 - m1
    ref = cont * fr.pdf(y)
    refc = m0 + cont * fr.cdf(y)
    if name in ("BetaInflated", "BetaInflatedZero", "ZeroAdjustedGamma"):
        ref = np.where(y == 0, m0, ref)
        refc = np.where(y == 0, m0, refc)
    if name == "BetaInflated":
        ref = np.where(y == 1, m1, ref)
        refc = np.where(y == 1, 1.0, refc)
    at = f"at y={y.tolist()}, theta={th.tolist()}"
    close(pdf, ref, 1e-7, 1e-12, f"{name}: density {at}")
    close(cdf, refc, 1e-7, 1e-10, f"{name}: distribution function {at}")
    close(np.exp(lpdf), pdf, 1e-6, 1e-12, f"{name}: exp(logpdf) {at}")
    close(np.exp(lcdf), cdf, 1e-6, 1e-10, f"{name}: exp(logcdf) {at}")
    # quantile: generalised inverse
    q = c["q"]
    x = np.asarray(d.ppf(q, th), float)
    need(x.shape == q.shape, f"{name}.ppf shape {x.shape}")
    need(np.isfinite(x).all(), f"{name}: quantile not finite at q={q.tolist()}")
    up = np.asarray(d.cdf(x, th), float)
    # next to the end of the unit interval one rounding step of x moves the distribution function
    fine = np.ones(len(x), bool) if "Beta" not in name else (x < 1 - 1e-6) & ((x > 1e-9) | (x == 0)) | (x == 1)
    need((up >= q - 1e-7)[fine].all(), f"{name}: cdf(ppf(q)) = {short(up)} below q = {q.tolist()}, theta={th.tolist()}")
    eps = 1e-6 * (1e-3 + np.abs(x))
    dn = np.asarray(d.cdf(x - eps, th), float)
    dn = np.where((x - eps < 0) & np.array(name not in REAL), 0.0, dn)
    need((dn <= q + 1e-7)[fine].all(), f"{name}: ppf(q) = {short(x)} is not the smallest value with cdf >= q, q={q.tolist()}, theta={th.tolist()}")
    if hasattr(d, "quantile"):
        close(d.quantile(q, th), x, 1e-12, 1e-15, f"{name}: quantile")
    # monotone with limits
    if name in REAL:
        lo, hi = np.full(len(y), -1e9), np.full(len(y), 1e9)
    else:
        lo, hi = np.full(len(y), -1.0), np.full(len(y), 1e9)
    close(d.cdf(lo, th), fr.cdf(lo), 1e-9, 1e-9, f"{name}: cdf at the far left")
    close(d.cdf(hi, th), m0 + cont * fr.cdf(hi) + m1, 1e-6, 1e-6, f"{name}: cdf at the far right")
    # outside the support
    o = c.get("out")
    if o is not None and name not in REAL:
        if o < 0 or name in ("Beta", "BetaInflated", "BetaInflatedZero"):
            yo = np.full(len(y), o)
            at = f"outside the support at y={o!r}, theta={th.tolist()}"
            close(d.pdf(yo, th), np.zeros(len(y)), 0, 0.0, f"{name}: density {at}")
            close(d.logpdf(yo, th), np.full(len(y), -np.inf), 0, 0.0, f"{name}: log-density {at}")
            close(d.cdf(yo, th), np.full(len(y), 0.0 if o < 0 else 1.0), 0, 0.0, f"{name}: cdf {at}")
            close(d.logcdf(yo, th), np.full(len(y), -np.inf if o < 0 else 0.0), 0, 0.0, f"{name}: logcdf {at}")
    # mean, median
    cm = fr.mean()
    ok = np.isfinite(cm)
    if name == "StudentT":
        ok = ok & (th[:, 2] > 1.0)
    if name == "InverseGamma":
        ok = ok & (1 / th[:, 1] ** 2 > 1.0)
    mean = np.broadcast_to(np.asarray(d.mean(th), float), y.shape)
    close(mean[ok], (m1 + cont * cm)[ok], 1e-6, 1e-9, f"{name}: mean at theta={th.tolist()}")
    med = np.asarray(d.median(th), float)
    need(med.shape == y.shape, f"{name}.median shape {med.shape}")
    close(med, d.ppf(np.full(len(y), 0.5), th), 1e-8, 1e-10, f"{name}: median at theta={th.tolist()}")
    # draws
    s = c["size"]
    dr = np.asarray(d.rvs(s, th), float)
    need(dr.shape == (len(y), s), f"{name}.rvs({s}) with {len(y)} parameter rows has shape {dr.shape}")
    lo, hi = (-np.inf, np.inf) if name in REAL else ((0, 1) if "Beta" in name else (0, np.inf))
    need(((dr >= lo) & (dr <= hi)).all(), f"{name}.rvs draws outside the support: {short(dr)}")
    same(y0, y, "y")
    same(th0, th, "theta")


def g_rvs(g):
    name = NAMES[g.i % len(NAMES)]
    n = int(g.r.integers(2, 4))
    th = g_theta(g, name, n)
    return dict(name=name, theta=th, seed=int(g.r.integers(1 << 30)))


def c_rvs(c):
    """the draws follow the row's own law (probability of a false alarm < 1e-12)"""
    d = dist(c["name"])
    th = c["theta"]
    np.random.seed(c["seed"])
    m = 4000
    dr = np.asarray(d.rvs(m, th), float)
    need(dr.shape == (len(th), m), f"rvs shape {dr.shape}")
    for i in range(len(th)):
        for q in (0.25, 0.5, 0.75, 0.95):
            x = float(np.asarray(d.ppf(np.full(len(th), q), th), float)[i])
            p = float(np.asarray(d.cdf(np.full(len(th), x), th), float)[i])
            f = np.mean(dr[i] <= x)
            need(abs(f - p) < 8 * np.sqrt(max(p * (1 - p), 1e-3) / m) + 1e-3,
                 f"{c['name']}: {f} of the draws of row {i} lie below its {p} quantile, theta={th.tolist()}")


# ---- C11 ---------------------------------------------------------------------
def g_init(g):
    name = NAMES[g.i % len(NAMES)]
    n = g.size(2, 25, 60) if name not in ("StudentT", "JSU") else int(g.r.integers(20, 60))
    th = np.repeat(g_theta(g, name, 1), n, axis=0)
    y = g_y(g, name, th)
    if name not in ("StudentT", "JSU") and g.r.random() < 0.2 and name in REAL:
        y = np.round(y * 4) / 4
    if len(np.unique(y)) < 2 or np.std(y) < 1e-6 or (name in POS and np.std(np.log(y)) < 1e-6):
        return None
    return dict(name=name, y=y, gam=bool(g.r.random() < 0.5))


def c_init(c):
    name = c["name"]
    d = dist(name) if not (name == "JSU" and c["gam"]) else cls(name)(use_gamlss_init_values=True)
    y = c["y"]
    y0 = y.copy()
    n = len(y)
    v = np.asarray(d.initial_values(y), float)
    same(y0, y, "y")
    need(v.shape == (n, d.n_params), f"{name}: starting values have shape {v.shape}")
    for p in range(d.n_params):
        lo, hi = d.parameter_support[p]
        need(np.isfinite(v[:, p]).all() and (v[:, p] >= lo).all() and (v[:, p] <= hi).all(),
             f"{name}: starting value {v[0, p]!r} for parameter {p} outside {lo, hi}, y={y.tolist()}")
    m, s0, s1 = np.mean(y), np.std(y), np.std(y, ddof=1)
    ref = None
    if name == "Normal":
        ref = [m, s1]
    elif name == "NormalMeanVariance":
        ref = [m, s1 ** 2]
    elif name == "LogNormal":
        ref = [np.mean(np.log(y)), np.std(np.log(y), ddof=1)]
    elif name == "LogNormalMedian":
        ref = [np.exp(np.median(np.log(y))), np.std(np.log(y))]
    elif name == "Exponential":
        ref = [m]
    elif name == "Logistic":
        ref = [m, np.sqrt(3) * s1 / np.sqrt(np.pi)]
    elif name == "Gumbel":
        ref = [m, np.sqrt(6) * s0 / np.pi]
    elif name == "ReverseGumbel":
        sg = np.sqrt(6) * s0 / np.pi
        ref = [m - 0.5772157 * sg, sg]
    elif name == "Gamma":
        ref = [m, 1]
    elif name == "InverseGamma":
        ref = [m, s1 / np.sqrt(m)]
    elif name == "InverseGaussian":
        ref = [m, s0 / np.sqrt(m)]
    elif name == "Beta":
        ref = [m, 0.5]
    elif name == "BetaInflated":
        ref = [m, 0.5, 5, 5]
    elif name == "BetaInflatedZero":
        ref = [m, 0.5, m]
    elif name == "ZeroAdjustedGamma":
        ref = [m, 1, 0.5]
    elif name == "JSU" and c["gam"]:
        ref = np.column_stack([(m + y) / 2, np.full(n, 0.1), np.zeros(n), np.full(n, 0.5)])
        close(v, ref, 1e-7, 1e-9, f"{name}: starting values for y={y.tolist()}")
        ref = None
    if ref is not None:
        close(v, np.tile(np.array(ref, float), (n, 1)), 1e-6, 1e-9, f"{name}: starting values for y={y.tolist()}")
    else:
        need(name == "JSU" and c["gam"] or np.ptp(v, axis=0).max() == 0, f"{name}: starting values differ between rows")


MLE = {"Normal", "StudentT", "JSU", "Logistic", "Gumbel", "ReverseGumbel", "Exponential"}


def g_cond(g):
    name = sorted(MLE)[g.i % len(MLE)]
    n = int(g.r.integers(15, 40))
    th = g_theta(g, name, 1)
    y = g_y(g, name, np.repeat(th, n, axis=0))
    if np.std(y) < 1e-3:
        return None
    start = np.repeat(g_theta(g, name, 1), n, axis=0)
    p = int(g.r.integers(th.shape[1]))
    start[:, :p] += 0.01 * g.r.random((n, p))
    return dict(name=name, y=y, theta=start, p=p)


def c_cond(c):
    d = dist(c["name"])
    y, th, p = c["y"], c["theta"], c["p"]
    y0, th0 = y.copy(), th.copy()
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        v = np.asarray(d.calculate_conditional_initial_values(y, th, p), float)
    same(y0, y, "y")
    same(th0, th, "the theta passed in")
    need(v.shape == th.shape, f"conditional starting values have shape {v.shape}")
    close(v[:, :p], th[:, :p], 0, 0.0, f"{c['name']}: parameters before {p}")
    for k in range(p, th.shape[1]):
        lo, hi = d.parameter_support[k]
        need(((v[:, k] >= lo) & (v[:, k] <= hi)).all(), f"{c['name']}: conditional starting value of {k} outside its support")


CONTRACTS = {
    "C08": [("score", g_pt, c_score, 340, 6800)],
    "C09": [("information", g_pt, c_info, 340, 6800)],
    "C10": [("coherence", g_coh, c_coh, 510, 8500), ("draws", g_rvs, c_rvs, 34, 340)],
    "C11": [("starting-values", g_init, c_init, 340, 3400), ("conditional", g_cond, c_cond, 42, 280)],
}
