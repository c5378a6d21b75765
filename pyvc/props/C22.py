"""C22: selection of the path row of a distribution parameter, at fit and at update."""
from .gam import *
from .C16 import u_fit
from .C17 import u_update

ASSUMPTIONS = ASSUME


def units(tier):
    on = ("C22",)
    kw = dict(on=on, pid="C22")
    out = []
    for sel in ("local_rss", "global_ll"):
        out += [u_fit(1, 0, "first", True, sel=sel, **kw), u_fit(2, 0, "later", True, sel=sel, crit="bic", wk="none", **kw), u_fit(2, 1, "first", True, sel=sel, crit="hqc", eqs=("intercept", "int"), **kw),
                u_fit(3, 1, "later", True, sel=sel, zero=True, crit="max", eqs=("int", "all", "intercept"), icpt=(True, False, True), **kw),
                u_update(1, 0, "first", True, sel=sel, **kw), u_update(2, 0, "later", True, sel=sel, crit="bic", wk="none", **kw), u_update(2, 1, "first", True, sel=sel, crit="hqc", eqs=("intercept", "int"), **kw),
                u_update(3, 1, "later", True, sel=sel, zero=True, crit="max", eqs=("int", "all", "intercept"), icpt=(True, False, True), **kw)]
    return out
