"""C08: the reported score is the derivative of the reported log-density."""
from .dist import *


def unit(name, k, region):
    def body(p, L):
        s = Point(p, L, name, region)
        lp = s.cell(s.d.logpdf(s.y, s.theta), "logpdf")
        decide_branches(p, lp)
        if p.infeasible():
            raise PathEnd()
        want = dterm(p, lp, s.t[k])
        got = s.cell(s.d.dl1_dp1(s.y, s.theta, param=k), "score")
        p.prove(f"{p.ex.name}:score", tm.eq(got, want), replay=s.replay("score"), function=fq(name, "dl1_dp1"))
        s.frame_check()
    return Unit(f"C08.{name}.{k}.{region}", body, [fq(name, "dl1_dp1"), fq(name, "logpdf"), fq(name, "theta_to_scipy_params"), fq(name, "theta_to_params")])


def units(tier):
    return [unit(nm, k, r) for nm in NAMES for k in range(NP.get(nm, 2)) for r in regions(nm)]
