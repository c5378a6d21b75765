"""C01: Gram statistics.  g = 1 - forget in (0, 1]; forget = 0 and forget > 0 are separate cases."""
from .common import *
from .C13 import forget, ONE

MODS = ["ondil.gram"]
ASSUMPTIONS = ["weights non-negative, 0 <= forget < 1"]


def W(k):
    return tm.app("w", (k,))


def inv_forget(p, g, n):
    """contract of the loop in init_forget_vector: the suffix already written holds the powers"""
    def arrays(env, Lp):
        out = {}
        for x, v in env.items():
            if isinstance(v, SArr) and v.ndim == 1 and v.sort == "R":
                out[x] = lambda k, i: (tm.le(tm.sub(tm.sub(n, ONE), k), i[0]), tm.power(g, tm.sub(tm.sub(n, ONE), i[0])))
        if len(out) != 1:
            raise Unsupported("array of discount weights")
        return out
    return Inv(lambda k, env, Lp: [], modifies=lambda env, Lp: tuple(arrays(env, Lp)), arrays=arrays)


def u_forget(zero):
    def body(p, L):
        G = L.load("ondil.gram")
        f, g = forget(p, zero)
        n = dimvar(p, "n")
        p.invs["init_forget_vector#1"] = inv_forget(p, g, n)
        r = G.init_forget_vector(f, SV(n))
        need_array(p, r, (n,), "shape")
        i = index(p, n)
        p.prove(f"{p.ex.name}:power_of_age", tm.eq(r.el(i), tm.power(g, tm.sub(tm.sub(n, ONE), i))), function="ondil.gram.init_forget_vector")
    return Unit(f"C01.forget_vector.{'0' if zero else 'f'}", body, ["ondil.gram.init_forget_vector"])


def forget_contract(p, G, f, g):
    """callers see init_forget_vector through its contract"""
    def stub(forget, size):
        n = tt(size)
        p.prove(f"{p.ex.name}:pre:forget", tm.eq(tt(forget), tt(f)), function="ondil.gram.init_forget_vector")
        p.prove(f"{p.ex.name}:pre:size", tm.le(ONE, n), function="ondil.gram.init_forget_vector")
        return SArr.new((n,), lambda i: tm.power(g, tm.sub(tm.sub(n, ONE), i[0])), "R")
    contract(G, "init_forget_vector", stub)


def S(g, n, f):
    """sum over the rows of weight, discount and f(row)"""
    k = tm.fresh_bound()
    return tm.sumt(k, n, tm.mul(tm.power(g, tm.sub(tm.sub(n, ONE), k)), W(k), f(k)))


def xs(a):
    return lambda k: tm.app("X", (k, a))


def setup(p, L, zero, single, lo=1):
    G = L.load("ondil.gram")
    f, g = forget(p, zero)
    forget_contract(p, G, f, g)
    if single:
        n = ONE
    else:
        n = dimvar(p, "n", lo)
    d = dimvar(p, "d")
    X = symarr("X", (n, d))
    w = symarr("w", (n,), sign="0+")
    y = symarr("y", (n,))
    return G, f, g, n, d, X, w, y


METHODS = [None, ("recursive_least_squares", "OrdinaryLeastSquares"), ("elasticnet", "ElasticNetPath"), ("lasso_path", "LassoPath"), ("ridge", "Ridge")]


def target(L, G, m):
    """the functions themselves, or as an estimation method offers them"""
    if m is None:
        return (lambda X, w, f: G.init_gram(X, w, f), lambda X, y, w, f: G.init_y_gram(X, y, w, f), lambda A, X, w, f: G.update_gram(A, X, f, w),
                lambda A, X, y, w, f: G.update_y_gram(A, X, y, f, w))
    C = getattr(L.load(f"ondil.methods.{m[0]}"), m[1])
    o = C(alpha=0.5) if m[1] == "ElasticNetPath" else C()
    x = m[1] != "OrdinaryLeastSquares"
    return ((lambda X, w, f: o.init_x_gram(X=X, weights=w, forget=f)) if x else None, lambda X, y, w, f: o.init_y_gram(X=X, y=y, weights=w, forget=f),
            (lambda A, X, w, f: o.update_x_gram(gram=A, X=X, weights=w, forget=f)) if x else None, lambda A, X, y, w, f: o.update_y_gram(gram=A, X=X, y=y, weights=w, forget=f))


def fnames(m, what):
    g = [f"ondil.gram.{what}_gram", f"ondil.gram.{what}_y_gram"]
    if m:
        g += [f"ondil.methods.{m[0]}.{m[1]}.{what}_{q}_gram" for q in "xy"]
    return g


def u_init(zero, m):
    def body(p, L):
        G, f, g, n, d, X, w, y = setup(p, L, zero, False)
        fr = Frame(p, X=X, w=w, y=y)
        ig, iy, _, _ = target(L, G, m)
        a, b = index(p, d, "a"), index(p, d, "b")
        if ig:
            r = ig(X, w, f)
            need_array(p, r, (d, d), "shape")
            p.prove(f"{p.ex.name}:gram", tm.eq(r.el(a, b), S(g, n, lambda k: tm.mul(xs(a)(k), xs(b)(k)))), function="ondil.gram.init_gram")
        r = iy(X, y, w, f)
        need_array(p, r, (d, ONE), "y_shape")
        p.prove(f"{p.ex.name}:y_gram", tm.eq(r.el(a, N0), S(g, n, lambda k: tm.mul(xs(a)(k), tm.app("y", (k,))))), function="ondil.gram.init_y_gram")
        fr.check()
    return Unit(f"C01.{m[1] if m else 'gram'}.init.{'0' if zero else 'f'}", body, fnames(m, "init"))


def u_update(zero, single, m):
    def body(p, L):
        G, f, g, n, d, X, w, y = setup(p, L, zero, single, 2)
        _, _, ug, uy = target(L, G, m)
        G0 = symarr("G0", (d, d))
        H0 = symarr("H0", (d, ONE))
        fr = Frame(p, X=X, w=w, y=y, gram=G0, ygram=H0)
        a, b = index(p, d, "a"), index(p, d, "b")
        if ug:
            r = ug(G0, X, w, f)
            need_array(p, r, (d, d), "shape")
            p.prove(f"{p.ex.name}:gram", tm.eq(r.el(a, b), tm.add(tm.mul(tm.power(g, n), tm.app("G0", (a, b))), S(g, n, lambda k: tm.mul(xs(a)(k), xs(b)(k))))),
                    function="ondil.gram.update_gram")
        r = uy(H0, X, y, w, f)
        need_array(p, r, (d, ONE), "y_shape")
        p.prove(f"{p.ex.name}:y_gram", tm.eq(r.el(a, N0), tm.add(tm.mul(tm.power(g, n), tm.app("H0", (a, N0))), S(g, n, lambda k: tm.mul(xs(a)(k), tm.app("y", (k,)))))),
                function="ondil.gram.update_y_gram")
        fr.check()
    return Unit(f"C01.{m[1] if m else 'gram'}.update.{'1' if single else 'n'}.{'0' if zero else 'f'}", body, fnames(m, "update"))


def u_cat(zero):
    """lemma: the contract of the update applied to the contract of the construction is the contract of the construction on the concatenated rows"""
    def body(p, L):
        f, g = forget(p, zero)
        m, n = dimvar(p, "m"), dimvar(p, "n")
        a, b = p.fresh("a", "I"), p.fresh("b", "I")
        row = lambda k: tm.mul(W(k), tm.app("X", (k, a)), tm.app("X", (k, b)))
        t = tm.add(m, n)
        k = tm.fresh_bound()
        whole = tm.sumt(k, t, tm.mul(tm.power(g, tm.sub(tm.sub(t, ONE), k)), row(k)))
        k = tm.fresh_bound()
        first = tm.sumt(k, m, tm.mul(tm.power(g, tm.sub(tm.sub(m, ONE), k)), row(k)))
        # induction over the number of added rows
        def upd(n):
            k = tm.fresh_bound()
            return tm.add(tm.mul(tm.power(g, n), first), tm.sumt(k, n, tm.mul(tm.power(g, tm.sub(tm.sub(n, ONE), k)), row(tm.add(m, k)))))

        def all_(n):
            t = tm.add(m, n)
            k = tm.fresh_bound()
            return tm.sumt(k, t, tm.mul(tm.power(g, tm.sub(tm.sub(t, ONE), k)), row(k)))
        p.prove(f"{p.ex.name}:base", tm.eq(upd(N0), all_(N0)))
        p.assume(tm.eq(upd(n), all_(n)))
        p.prove(f"{p.ex.name}:step", tm.eq(upd(tm.add(n, ONE)), all_(tm.add(n, ONE))))
    return Unit(f"C01.concatenation.{'0' if zero else 'f'}", body, [])


def units(tier):
    return [u for z in (True, False) for u in [u_forget(z), u_cat(z)] + [v for m in METHODS for v in (u_init(z, m), u_update(z, True, m), u_update(z, False, m))]]
