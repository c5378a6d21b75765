"""C03: coordinate descent.  While-loop and for-loop contracts for any number of coordinates; the update of one coordinate is proved to be the
minimiser over the whole feasible interval (an arbitrary competitor t)."""
from .common import *
from .C13 import ONE

ASSUMPTIONS = ["diagonal of the Gram matrix positive, lambda >= 0, 0 <= alpha <= 1, lower bound <= upper bound, max_iterations >= 0",
               "bounds are either finite or infinite for all coordinates of one call (the update of one coordinate only reads its own bounds)",
               "np.random.permutation returns a bijection of range(n)"]
FN = "ondil.coordinate_descent.online_coordinate_descent"
HALF = tm.div(ONE, tm.num(2))


def u_soft():
    def body(p, L):
        M = L.load("ondil.coordinate_descent")
        v, c = tm.var("v"), tm.var("c")
        p.assume(tm.le(N0, c))
        r = tt(M.soft_threshold(SV(v), SV(c)))
        f = "ondil.coordinate_descent.soft_threshold"
        p.prove(f"{p.ex.name}:shrinks", tm.implies(tm.lt(c, v), tm.eq(r, tm.sub(v, c))), function=f)
        p.prove(f"{p.ex.name}:shrinks_negative", tm.implies(tm.lt(v, tm.neg(c)), tm.eq(r, tm.add(v, c))), function=f)
        p.prove(f"{p.ex.name}:zero", tm.implies(tm.le(tm.absT(v), c), tm.eq(r, N0)), function=f)
    return Unit("C03.soft_threshold", body, ["ondil.coordinate_descent.soft_threshold"])


def bounds(p, d, lo, hi):
    L = symarr("lo", (d,)) if lo else SArr.new((d,), lambda i: tm.neg(tm.INF), "R")
    H = symarr("hi", (d,)) if hi else SArr.new((d,), lambda i: tm.INF, "R")
    if lo and hi:
        p.spec.appaxioms["lo"] = lambda a, t: [tm.le(t, tm.app("hi", a))]
        p.spec.appaxioms["hi"] = lambda a, t: [tm.le(tm.app("lo", a), t)]
        p.spec.appsamplers["lo"] = lambda rng, args, env, apps: -rng.random() + 0.3
        p.spec.appsamplers["hi"] = lambda rng, args, env, apps: rng.random() + 0.3
    return L, H


def inbox(lo, hi, m, t):
    c = []
    if lo:
        c.append(tm.le(tm.app("lo", (m,)), t))
    if hi:
        c.append(tm.le(t, tm.app("hi", (m,))))
    return tm.band(*c) if c else tm.TRUE


def u_cd(sel, lo, hi, fn="online_coordinate_descent"):
    def body(p, L):
        M = L.load("ondil.coordinate_descent")
        d = dimvar(p, "d")
        G = symarr("G", (d, d))
        dg = lambda j: tm.app("G", (j, j))
        p.spec.appaxioms["G"] = lambda a, t: [tm.implies(tm.eq(a[0], a[1]), tm.lt(N0, t))]
        p.spec.appsamplers["G"] = lambda rng, args, env, apps: rng.uniform(0.3, 2) if args[0] == args[1] else rng.uniform(-0.5, 0.5)
        y, b0 = symarr("y", (d,)), symarr("b0", (d,))
        reg = symarr("reg", (d,), sort="B")
        Lo, Hi = bounds(p, d, lo, hi)
        lam, al, tol = tm.var("lam"), tm.var("alpha"), tm.var("tol")
        p.spec.varsigns["lam"] = "0+"
        p.spec.varsigns["alpha"] = "0+"
        for h in (tm.le(N0, lam), tm.le(N0, al), tm.le(al, ONE), tm.le(N0, tol)):
            p.assume(h)
        p.spec.samplers["alpha"] = lambda rng, env: rng.random()
        mx = tm.var("maxit", "I")
        p.assume(tm.le(N0, mx))
        fr = Frame(p, x_gram=G, y_gram=y, beta=b0, lower=Lo, upper=Hi)
        J = {}

        def perm_pos(JJ):
            """JJ enumerates every coordinate once -> position of a coordinate in it"""
            e = JJ.el(tm.var("B_s", "I"))
            if e is tm.var("B_s", "I"):
                return lambda m: m
            if e.op == "app" and e.args[0] in p.ghost.get("perms", ()):
                nm = e.args[0] + "pos"
                p.spec.appsort[nm] = "I"
                p.spec.appaxioms[nm] = lambda a, t: [tm.implies(tm.band(tm.le(N0, a[0]), tm.lt(a[0], d)), tm.band(tm.le(N0, t), tm.lt(t, d), tm.eq(tm.app(e.args[0], (t,), "I"), a[0])))]
                ax = p.spec.appaxioms[e.args[0]]
                if nm not in J:
                    J[nm] = 1
                    p.spec.appaxioms[e.args[0]] = lambda a, t: ax(a, t) + [tm.implies(tm.band(tm.le(N0, a[0]), tm.lt(a[0], d)), tm.eq(tm.app(nm, (t,), "I"), a[0]))]
                return lambda m: tm.app(nm, (m,), "I")
            raise Unsupported("order of the coordinates")

        def isperm(a):
            return isinstance(a, SArr) and a.sort == "I" and a.ndim == 1

        # -- sweeps ---------------------------------------------------------------------
        def w_havoc(n):
            def f(p, old, env):
                from ..shim import UNBOUND, fresh_like
                if n not in env or old is UNBOUND:
                    return UNBOUND
                if isperm(old):
                    if cdim(d) is not None:
                        raise Unsupported("dimension")
                    return NP_perm(p, d)
                if isinstance(old, int) and not isinstance(old, bool):
                    return fresh_like(p, old, n, "I")
                return fresh_like(p, old, n)
            return f

        class H(dict):
            def __contains__(self, n):
                return True

            def __getitem__(self, n):
                return w_havoc(n)

        def w_inv(k, env, Lp):
            J["outer"] = Lp
            out = [("cap", tm.bor(tm.eq(k, N0), tm.le(k, mx)))]
            for n, v in env.items():
                if n in Lp.names and n in Lp.entry and isperm(v):
                    perm_pos(v)
                    out.append((f"{n}_all", tm.eq(v._shape[0], d)))
                elif n in Lp.names and n in Lp.entry and isinstance(Lp.entry[n], int) and not isinstance(Lp.entry[n], bool):
                    off = Lp.entry[n]
                    out.append((f"{n}_counts", tm.eq(tt(v), tm.add(k, tm.num(off)))))
            return out

        def w_facts(k, env, Lp):
            # after the first sweep every coordinate is in the box
            return {n: (lambda i, t: tm.implies(tm.le(ONE, k), inbox(lo, hi, i[0], t))) for n in Lp.modifies if isinstance(env[n], SArr) and env[n].sort == "R"}
        W = Inv(w_inv, modifies="auto", facts=w_facts)
        W.havoc = H()

        # -- one sweep ------------------------------------------------------------------
        def f_inv(k, env, Lp):
            out = []
            sweep = J["outer"].k  # number of sweeps done before this one
            first = tm.eq(sweep, N0)
            if not hasattr(Lp, "pre_at"):
                out.append(("every_coordinate", tm.eq(Lp.n, d)))
            elif env is not Lp.henv and Lp.phase == 1:
                j = tt(Lp.item)
                if len(Lp.modifies) != 1:
                    raise Unsupported("the sweep writes several arrays")
                a = env[Lp.modifies[0]]
                old = Lp.pre_at[Lp.modifies[0]]
                m = index(p, d, "m")
                out.append(("only_j", tm.implies(tm.bnot(tm.eq(m, j)), tm.eq(a.el(m), old((m,))))))
                new, was = a.el(j), old((j,))
                vis = p.branch(tm.bor(first, tm.bnot(tm.eq(was, N0))))
                if not vis:
                    out.append(("inactive", tm.eq(new, was)))
                else:
                    rg = p.branch(reg.el(j))
                    c = tm.mul(al, lam) if rg else N0
                    A = tm.add(dg(j), tm.mul(lam, tm.sub(ONE, al))) if rg else dg(j)
                    v = tm.fresh_bound()
                    row = tm.sumt(v, d, tm.mul(tm.app("G", (j, v)), old((v,))))
                    u = tm.add(tm.app("y", (j,)), tm.neg(row), tm.mul(dg(j), was))
                    out.append(("box", inbox(lo, hi, j, new)))
                    out.append(("exact_minimiser", tm.eq(new, solution(u, c, A, tm.app("lo", (j,)) if lo else None, tm.app("hi", (j,)) if hi else None))))
            return out

        def f_facts(k, env, Lp):
            sweep = J["outer"].k
            seqitem = Lp.seq.get
            first = tm.eq(sweep, N0)
            e = tt(seqitem(tm.var("B_s", "I")))
            if e is tm.var("B_s", "I"):
                pos = lambda m: m
            else:
                pos = perm_pos(SArr.new((Lp.n,), lambda i: tt(seqitem(i[0])), "I"))
            return {n: (lambda i, t: tm.implies(tm.bor(tm.bnot(first), tm.lt(pos(i[0]), k)), inbox(lo, hi, i[0], t))) for n in Lp.modifies}
        F = Inv(f_inv, modifies="auto", facts=f_facts)
        p.invs["while"], p.invs["for"] = W, F
        r = getattr(M, fn)(x_gram=G, y_gram=y, beta=b0, regularization=SV(lam), is_regularized=reg, alpha=SV(al), beta_lower_bound=Lo, beta_upper_bound=Hi,
                           selection=sel, tolerance=SV(tol), max_iterations=SV(mx))
        if not (isinstance(r, tuple) and len(r) == 2):
            fail(p, "result", "no pair of coefficients and sweep count")
            return
        b, it = r
        need_array(p, b, (d,), "shape")
        k = J["outer"].k
        m = index(p, d, "m")
        p.prove(f"{p.ex.name}:bounds", inbox(lo, hi, m, b.el(m)), function=FN)
        p.prove(f"{p.ex.name}:count", tm.eq(tt(it), tm.add(k, ONE)), function=FN)
        p.prove(f"{p.ex.name}:cap", tm.band(tm.le(ONE, tt(it)), tm.le(tt(it), tm.add(mx, ONE))), function=FN)
        # stopped before the limit: the last sweep moved no coordinate by more than tol times the largest coefficient
        start = J["outer"].pre_at
        if len(start) != 1:
            raise Unsupported("state of the sweeps")
        start = list(start.values())[0]
        from .. import npshim
        big = tt(npshim.max(npshim.abs(b)))
        instantiate(p, m)
        p.prove(f"{p.ex.name}:converged", tm.implies(tm.le(tt(it), mx), tm.le(tm.absT(tm.sub(b.el(m), start((m,)))), tm.mul(tol, big))), function=FN)
        fr.check()
    return Unit(f"C03.{fn}.{sel}.{'L' if lo else '-'}{'H' if hi else '-'}", body, [FN, "ondil.coordinate_descent.soft_threshold"], cost=5)


def NP_perm(p, d):
    from .. import npshim
    return npshim.NP.random.permutation(SV(d))


def solution(u, c, A, lo, hi):
    """minimiser of A/2 b^2 - u b + c |b| over [lo, hi] (that it is one is u_lemma)"""
    q = tm.ite(tm.lt(c, u), tm.div(tm.sub(u, c), A), tm.ite(tm.lt(u, tm.neg(c)), tm.div(tm.add(u, c), A), N0))
    if lo is not None:
        q = tm.ite(tm.lt(q, lo), lo, q)
    if hi is not None:
        q = tm.ite(tm.lt(hi, q), hi, q)
    return q


def u_lemma(lo, hi):
    """lemma: the solution is at least as good as every feasible competitor t"""
    def body(p, L):
        A, u, c, t = (tm.var(x) for x in ("A", "u", "c", "t"))
        p.assume(tm.lt(N0, A))
        p.assume(tm.le(N0, c))
        l, h = tm.var("l") if lo else None, tm.var("h") if hi else None
        if lo and hi:
            p.assume(tm.le(l, h))
        if lo:
            p.assume(tm.le(l, t))
        if hi:
            p.assume(tm.le(t, h))
        b = solution(u, c, A, l, h)
        if lo:
            p.prove(f"{p.ex.name}:above", tm.le(l, b))
        if hi:
            p.prove(f"{p.ex.name}:below", tm.le(b, h))
        b = value_of(p, b)  # each case of the solution is a path
        g = tm.sub(tm.mul(A, b), u)
        d = tm.sub(t, b)
        Q = lambda x: tm.add(tm.mul(HALF, A, x, x), tm.neg(tm.mul(u, x)))
        # Q(t) - Q(b) + c(|t| - |b|) = A/2 d^2 + [g d + c(|t| - |b|)]
        p.prove(f"{p.ex.name}:expansion", tm.eq(tm.sub(Q(t), Q(b)), tm.add(tm.mul(HALF, A, d, d), tm.mul(g, d))))
        p.prove(f"{p.ex.name}:subgradient", tm.le(N0, tm.add(tm.mul(g, d), tm.mul(c, tm.sub(tm.absT(t), tm.absT(b))))))
        p.prove(f"{p.ex.name}:square", tm.le(N0, tm.mul(HALF, A, d, d)))
    return Unit(f"C03.lemma_minimiser.{'L' if lo else '-'}{'H' if hi else '-'}", body, [])


def units(tier):
    return [u_soft(), *[u_lemma(lo, hi) for lo in (True, False) for hi in (True, False)]] + [u_cd(s, lo, hi) for s in ("cyclic", "random") for lo in (True, False) for hi in (True, False)]
