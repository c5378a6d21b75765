"""C10: density, distribution function, quantile, mean, median and draws are those of one law."""
from .dist import *

CAP = log(tm.num(10 ** 15, "R"))


def outside(name):
    if name in REAL:
        return []
    return ["below", "above"] if "Beta" in name else ["below"]


def crp(s, y=None, out=None, q=0.5):
    """replay of the verifier's instance through the run-time contract"""
    def f(inst):
        row = [float(inst[f"t{k}"]) for k in range(s.K)]
        yv = y if y is not None else (float(s.yv.args[0]) if s.yv.op == "num" else float(inst["y"]))
        nd = lambda v, sh: {"__nd__": v, "shape": sh, "dtype": "float64"}
        qv = float(inst["q"]) if "q" in inst else q
        c = [["name", s.name], ["theta", nd(row, [1, s.K])], ["y", nd([yv], [1])], ["q", nd([qv], [1])], ["size", 2]]
        if out:
            c.append(["out", float(inst["y"])])
        return {"contract": "coherence", "case": {"__d__": c}}
    return f


def u_point(name, region):
    def body(p, L):
        s = Point(p, L, name, region)
        lw, ps, m0, m1 = law(name, s.t)
        cont = tm.sub(tm.sub(N1, m0), m1)
        d, y, th = s.d, s.y, s.theta
        pdf = s.cell(d.pdf(y, th), "pdf")
        cdf = s.cell(d.cdf(y, th), "cdf")
        lpdf = s.cell(d.logpdf(y, th), "logpdf")
        lcdf = s.cell(d.logcdf(y, th), "logcdf")
        rp = crp(s) if region in ("in", "zero", "one") else crp(s, y=0.5, out=True)
        pr = lambda o, g, f: p.prove(f"{p.ex.name}:{o}", g, replay=rp, function=fq(name, f))
        if region in ("below", "above"):
            pr("pdf", tm.eq(pdf, N0), "pdf")
            pr("logpdf", tm.btrue(is_minus_inf(p, lpdf)), "logpdf")
            pr("cdf", tm.eq(cdf, N0 if region == "below" else N1), "cdf")
            pr("logcdf", tm.btrue(is_minus_inf(p, lcdf)) if region == "below" else tm.eq(lcdf, N0), "logcdf")
            s.frame_check()
            return
        if region == "in":
            z = tm.div(tm.sub(s.yv, ps[-2]), ps[-1])
            dens = tm.mul(cont, tm.div(exp(lw._logpdf(z, *ps[:-2])), ps[-1]))
            dist = tm.add(m0, tm.mul(cont, lw._cdf(z, *ps[:-2])))
        elif region == "zero":
            dens, dist = m0, m0
        else:
            dens, dist = m1, N1
        pr("pdf", tm.eq(pdf, dens), "pdf")
        pr("cdf", tm.eq(cdf, dist), "cdf")
        pr("logpdf", tm.eq(lpdf, log(pdf)), "logpdf")
        pr("logcdf", tm.eq(lcdf, log(cdf)), "logcdf")
        pr("pdf_positive", tm.lt(N0, pdf), "pdf")
        pr("cdf_range", tm.band(tm.le(N0, dist), tm.le(dist, N1)), "cdf")
        if region == "in":
            decide_branches(p, cdf)
            if p.infeasible():
                raise PathEnd()
            pr("density", tm.eq(dterm(p, cdf, s.yv), pdf), "cdf")
        s.frame_check()
    return Unit(f"C10.{name}.{region}", body, [fq(name, m) for m in ("pdf", "cdf", "logpdf", "logcdf", "theta_to_scipy_params")])


def u_quantile(name):
    def body(p, L):
        s = Point(p, L, name, "any")
        lw, ps, m0, m1 = law(name, s.t)
        q = tm.var("q")
        p.spec.varsigns["q"] = "+"
        p.spec.samplers["q"] = lambda rng, env: rng.random()
        p.assume(tm.band(tm.lt(N0, q), tm.lt(q, N1)))
        qs = pointarr(p, "qs", (s.n,), (s.i,), q)
        fr = Frame(p, q=qs)
        x = s.cell(s.d.ppf(qs, s.theta), "ppf")
        rp = crp(s, y=0.5)
        pr = lambda o, g, f: p.prove(f"{p.ex.name}:{o}", g, replay=rp, function=fq(name, f))
        if m0 is not N0 and p.branch(tm.le(q, m0)):
            p.assume(tm.le(q, m0))
            pr("ppf:mass0", tm.eq(x, N0), "ppf")
            return
        if m1 is not N0 and p.branch(tm.le(tm.sub(N1, m1), q)):
            p.assume(tm.le(tm.sub(N1, m1), q))
            pr("ppf:mass1", tm.eq(x, N1), "ppf")
            return
        cont = tm.sub(tm.sub(N1, m0), m1)
        w = tm.div(tm.sub(q, m0), cont)
        p.assume(tm.band(tm.lt(N0, w), tm.lt(w, N1)))
        pr("ppf", tm.eq(x, lw.ppf_t(w, ps)), "ppf")
        if name not in REAL:
            pr("ppf:support", tm.band(tm.lt(N0, x), tm.lt(x, N1)) if "Beta" in name else tm.lt(N0, x), "ppf")
        # composition: the distribution function at the quantile
        xs = pointarr(p, "xs", (s.n,), (s.i,), lw.ppf_t(w, ps))
        c = s.cell(s.d.cdf(xs, s.theta), "cdf")
        pr("cdf_of_ppf", tm.eq(c, q), "ppf")
        pr("quantile", tm.eq(s.cell(s.d.quantile(qs, s.theta), "quantile"), x), "quantile")
        fr.check()
        s.frame_check()
    return Unit(f"C10.{name}.quantile", body, [fq(name, "ppf"), fq(name, "cdf"), "ondil.base.distribution.Distribution.quantile"])


def u_moments(name):
    def body(p, L):
        s = Point(p, L, name, "any")
        lw, ps, m0, m1 = law(name, s.t)
        cont = tm.sub(tm.sub(N1, m0), m1)
        rp = crp(s, y=0.5)
        if name == "InverseGamma":
            p.assume(tm.lt(s.t[1], N1))
        if name == "StudentT":
            p.assume(tm.lt(N1, s.t[2]))
        if name == "LogNormal":
            p.assume(tm.le(s.t[0], CAP))
        p.prove(f"{p.ex.name}:mean", tm.eq(s.cell(s.d.mean(s.theta), "mean"), tm.add(m1, tm.mul(cont, lw.mean_t(ps)))), replay=rp, function=fq(name, "mean"))
        med = s.cell(s.d.median(s.theta), "median")
        half = SArr.new((s.n,), lambda i: H, "R")
        p.prove(f"{p.ex.name}:median", tm.eq(med, s.cell(s.d.ppf(half, s.theta), "ppf")), replay=rp, function="ondil.base.distribution.Distribution.median")
        s.frame_check()
    return Unit(f"C10.{name}.moments", body, [fq(name, "mean"), "ondil.base.distribution.Distribution.median"])


def u_draws(name):
    def body(p, L):
        s = Point(p, L, name, "any")
        lw, ps, m0, m1 = law(name, s.t)
        if name == "LogNormal":
            p.assume(tm.le(s.t[0], CAP))
        m = dimvar(p, "size")
        j = index(p, m, "j")
        r = need_array(p, s.d.rvs(SV(m), s.theta), (s.n, m), "rvs:shape")
        dr = p.ghost.get("draws", [])
        if len(dr) != 1 or len(dr[0][1]) != 2:
            raise Unsupported("draws that are not one two-dimensional block of uniform numbers")
        nm_, sh = dr[0]
        sh = [tt(x) for x in sh]
        if p.ctx.entails(tm.band(tm.eq(sh[0], m), tm.eq(sh[1], s.n))):
            u = tm.app(nm_, (j, s.i), "R")
        else:
            u = tm.app(nm_, (s.i, j), "R")
        p.assume(tm.band(tm.lt(N0, u), tm.lt(u, N1)))
        us = pointarr(p, "us", (s.n,), (s.i,), u)
        want = s.cell(s.d.ppf(us, s.theta), "ppf")
        got = r.el(s.i, j)
        p.prove(f"{p.ex.name}:rvs", tm.eq(got, want), function=fq(name, "rvs"))
        if m0 is not N0 or name not in REAL:
            hi = tm.le(got, N1) if "Beta" in name else tm.TRUE
            p.prove(f"{p.ex.name}:support", tm.band(tm.le(N0, got), hi), function=fq(name, "rvs"))
        s.frame_check()
    return Unit(f"C10.{name}.draws", body, [fq(name, "rvs")])


ASSUMPTIONS = ASSUMPTIONS + [
    "draws: scipy's frozen rvs(size) is specified as the quantile of independent uniform numbers of that shape, broadcast against the parameters",
    "LogNormal mean and draws: log-location at most log(1e15) (the documented cap of robust_exp)",
    "mean claimed where it exists (Student-t: tail above 1, inverse gamma: scale parameter below 1)",
    "boundary points 0 and 1 of the Beta law and 1 of the zero-inflated Beta law (a null set) are not covered by the proof",
]


def units(tier):
    out = []
    for n_ in NAMES:
        out += [u_point(n_, r) for r in regions(n_) + outside(n_)]
        out += [u_quantile(n_), u_moments(n_), u_draws(n_)]
    return out
