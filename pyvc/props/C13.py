"""C13: effective length and running mean.  g = 1 - forget in (0, 1]; the two cases forget = 0 and forget > 0 are separate."""
from .common import *

ONE = tm.num(1)
ASSUMPTIONS = ["0 <= forget < 1, counts are integers, the count passed is at least the number of new values"]


def forget(p, zero):
    if zero:
        return 0.0, ONE
    g = tm.var("g")
    p.spec.varsigns["g"] = "+"
    p.assume(tm.lt(N0, g))
    p.assume(tm.lt(g, ONE))
    p.spec.samplers["g"] = lambda rng, env: rng.uniform(0.05, 0.95)
    return SV(tm.sub(ONE, g)), g


def N(g, n, zero):
    """effective number of observations, closed form"""
    if zero:
        return n
    return tm.div(tm.sub(ONE, tm.power(g, n)), tm.sub(ONE, g))


def u_len(zero):
    def body(p, L):
        U = L.load("ondil.utils")
        f, g = forget(p, zero)
        n = tm.var("n", "I")
        p.assume(tm.le(N0, n))
        r = U.calculate_effective_training_length(f, SV(n))
        p.prove(f"{p.ex.name}:closed_form", tm.eq(tt(r), N(g, n, zero)), function="ondil.utils.calculate_effective_training_length")
        # lemma (induction over n): the closed form is the sum of the exponential weights
        r0 = tt(U.calculate_effective_training_length(f, 0))
        r1 = tt(U.calculate_effective_training_length(f, SV(tm.add(n, ONE))))
        p.prove(f"{p.ex.name}:sum_base", tm.eq(r0, N0))
        p.prove(f"{p.ex.name}:sum_step", tm.eq(r1, tm.add(tt(r), tm.power(g, n))))
    return Unit(f"C13.effective_length.{'0' if zero else 'f'}", body, ["ondil.utils.calculate_effective_training_length"])


def u_asym(zero):
    def body(p, L):
        U = L.load("ondil.utils")
        f, g = forget(p, zero)
        r = U.calculate_asymptotic_training_length(f)
        if not zero:
            p.prove(f"{p.ex.name}:limit", tm.eq(tt(r), tm.div(ONE, tm.sub(ONE, g))))
        else:
            p.prove(f"{p.ex.name}:large", tm.lt(tm.num(10 ** 15), tt(r)))
    return Unit(f"C13.asymptotic_length.{'0' if zero else 'f'}", body, ["ondil.utils.calculate_asymptotic_training_length"])


def u_one(zero, kind):
    def body(p, L):
        U = L.load("ondil.utils")
        f, g = forget(p, zero)
        n = tm.var("n", "I")
        p.assume(tm.le(ONE, n))
        a, v = tm.var("avg"), tm.var("value")
        if not zero:
            p.assume(tm.lt(tm.power(g, n), ONE))  # 0 < g < 1, n >= 1
        r = U.online_mean_update(SV(a), SV(v), f, SV(n))
        p.prove(f"{p.ex.name}:weighted_mean",
                tm.eq(tm.mul(tt(r), N(g, n, zero)), tm.add(tm.mul(g, N(g, tm.sub(n, ONE), zero), a), v)), function="ondil.utils.online_mean_update")
    return Unit(f"C13.mean_one.{'0' if zero else 'f'}", body, ["ondil.utils.online_mean_update", "ondil.utils._online_mean_update"])


def u_arr(zero):
    def body(p, L):
        U = L.load("ondil.utils")
        f, g = forget(p, zero)
        m = dimvar(p, "m", 0)
        n = tm.var("n", "I")
        p.assume(tm.le(m, n))
        p.assume(tm.le(ONE, n))
        a = tm.var("avg")
        vals = symarr("v", (m,))
        fr = Frame(p, value=vals)

        def S(j):
            k = tm.fresh_bound()
            return tm.sumt(k, j, tm.mul(tm.power(g, tm.sub(tm.sub(j, ONE), k)), tm.app("v", (k,))))

        def rel(j, avg):
            return tm.eq(tm.mul(avg, N(g, tm.add(tm.sub(n, m), j), zero)), tm.add(tm.mul(tm.power(g, j), N(g, tm.sub(n, m), zero), a), S(j)))

        def inv(k, env, Lp):
            c = [x for x in Lp.names if x in Lp.entry and isinstance(Lp.entry[x], (SV, float, int))]
            if len(c) != 1:
                raise Unsupported("running mean variable of the loop")
            if not zero:
                e = tm.add(tm.sub(n, m), k)
                p.assume(tm.implies(tm.le(ONE, e), tm.lt(tm.power(g, e), ONE)))
                p.assume(tm.implies(tm.le(N0, e), tm.lt(tm.power(g, tm.add(e, ONE)), ONE)))
            # with nothing seen before the relation says nothing about the running mean: it starts at avg
            return [("weighted_mean", rel(k, tt(env[c[0]])))]
        p.invs["online_mean_update#1"] = Inv(inv)
        r = U.online_mean_update(SV(a), vals, f, SV(n))
        p.prove(f"{p.ex.name}:weighted_mean", rel(m, tt(r)), function="ondil.utils.online_mean_update")
        fr.check()
    return Unit(f"C13.mean_array.{'0' if zero else 'f'}", body, ["ondil.utils.online_mean_update", "ondil.utils._online_mean_update"])


def units(tier):
    return [x for z in (True, False) for x in (u_len(z), u_asym(z), u_one(z, "scalar"), u_arr(z))]
