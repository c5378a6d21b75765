"""C19: responses outside the declared support are rejected, and a rejected update leaves no trace."""
from .gam import *
from .C18 import Keeps

ASSUMPTIONS = ASSUME + ["the declared support is any pair of numbers lo < hi, or infinite on either side"]


def bounds(p, kind):
    lo, hi = tm.var("lo"), tm.var("hi")
    p.assume(tm.lt(lo, hi))
    p.spec.samplers["lo"] = lambda rng, env: rng.uniform(-1, 0)
    p.spec.samplers["hi"] = lambda rng, env: env.get("lo", 0) + rng.uniform(0.1, 1)
    a = SV(lo) if kind[0] == "f" else float("-inf")
    b = SV(hi) if kind[1] == "f" else float("inf")
    out = lambda t: tm.bor(tm.lt(t, lo) if kind[0] == "f" else tm.FALSE, tm.lt(hi, t) if kind[1] == "f" else tm.FALSE)
    return (a, b), out


def attempt(p, W, D, call, out, E, fn, oid):
    """True: accepted.  Both outcomes are obligations"""
    try:
        call()
    except E:
        if p.infeasible():
            raise PathEnd()
        goal = []
        for h in list(p.ctx.hyps):
            # some entry is ...: name it
            if h.op == "not" and h.args[0].op == "forall":
                v, n, b = h.args[0].args
                if not p.ctx.entails(tm.eq(n, D.n)):
                    continue
                w = index(p, D.n, "w")
                p.assume(tm.bnot(tm.subst(b, {v: w})))
                goal.append(out(D.yy(w)))
        v = tm.fresh_bound()
        p.prove(f"{p.ex.name}:{oid}:rejects_only_outside", tm.bor(*goal) if goal else tm.exists(v, D.n, out(D.yy(v))), function=fn)
        return False
    i = index(p, D.n, "i")
    instantiate(p, i)
    p.prove(f"{p.ex.name}:{oid}:rejects", tm.bnot(out(D.yy(i))), function=fn)
    return True


def u_support(K, kind, verb, path=False, wk="vec", eqs=("all", "intercept", "int")):
    def body(p, L):
        sup, out = bounds(p, kind)
        W = World(p, L, K=K, eqs=eqs, path=path, wk=wk, icpt=(True,) * 4, on=("C19",), support=sup)
        E = L.load("ondil.error").OutOfSupportError
        p.ghost["opaque"] = False
        contract(W.C, "_outer_update", lambda self: (W.in_update(self), (SV(tm.var("GD2")), 1))[1])
        if verb in ("fit", "partial_fit_first"):
            D = W.data(0)

            def outer(self):
                W.arbitrary(self, True)
                return SV(tm.var("GD")), 1
            contract(W.C, "_outer_fit", outer)
            fr = D.frame(p)
            fn = Q + "fit"
            f = W.m.fit if verb == "fit" else W.m.partial_fit
            attempt(p, W, D, lambda: f(D.X, D.y, sample_weight=D.w), out, E, fn, verb)
            fr.check()
            return
        try:
            m = W.fitted_model()
        except E:
            raise PathEnd()
        D = W.data(1)
        fn = Q + "update"
        keep = Keeps(p, m)
        n0 = tt(m.n_observations_)
        fr = D.frame(p)
        f = m.update if verb == "update" else m.partial_fit
        if not attempt(p, W, D, lambda: f(D.X, D.y, sample_weight=D.w), out, E, fn, verb):
            keep.check("unchanged", fn)
            p.prove(f"{p.ex.name}:unchanged:count", tm.eq(tt(m.n_observations_), n0), function=fn)
        fr.check()
    return Unit(f"C19.{verb}.K{K}.{kind}.{wk}{'.path' if path else ''}", body, [Q + "fit", Q + "update", Q + "_validate_inputs"], max_paths=60)


def units(tier):
    out = []
    for kind in ("ff", "fi", "if", "ii"):
        out += [u_support(2, kind, "fit"), u_support(2, kind, "update"), u_support(1, kind, "update", True, "none")]
    out += [u_support(3, "ff", "partial_fit"), u_support(2, "fi", "partial_fit_first"), u_support(4, "ff", "update", eqs=("all", "intercept", "int", "intercept")), u_support(1, "ff", "fit", wk="none")]
    return out
