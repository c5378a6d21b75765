"""C02: recursive inverse Gram matrix.  G is ghost state: the discounted Gram matrix of the rows absorbed so far (its closed form is C01)."""
from .common import *
from .C13 import forget, ONE
from . import C01

ASSUMPTIONS = ["weights non-negative, 0 <= forget < 1", "x'Px >= 0 for the inverse P of a Gram matrix (the denominator is positive)",
               "np.linalg.matrix_rank(G) = d exactly if G is invertible, np.linalg.inv(G) is the inverse then (numpy contracts)",
               "a left inverse of a square matrix is its inverse"]


def pair(p, d, hint):
    """an arbitrary pair of mutually inverse matrices"""
    P, G = p.freshname(hint + "P"), p.freshname(hint + "G")
    p.spec.inverse_pairs[frozenset((P, G))] = d
    p.spec.symmetric.update((P, G))

    def draw(rng, env):
        import numpy as np
        r = np.random.default_rng(rng.randrange(1 << 30))
        m = int(env[d])
        A = r.normal(size=(m + 1, m))
        A = A.T @ A + 0.3 * np.eye(m)
        B = np.linalg.inv(A)
        return {G: lambda a, b: float(A[int(a), int(b)]), P: lambda a, b: float(B[int(a), int(b)])}
    p.spec.groups.append(draw)
    return symarr(P, (d, d)), symarr(G, (d, d))


def delta(a, b):
    return tm.ite(tm.eq(a, b), ONE, N0)


def isinv(p, d, A, g):
    """A times the matrix with entries g(c, b) is the identity"""
    a, b = p.fresh("a", "I"), p.fresh("b", "I")
    rng = tm.band(tm.le(N0, a), tm.lt(a, d), tm.le(N0, b), tm.lt(b, d))
    c = tm.fresh_bound()
    return tm.implies(rng, tm.eq(tm.sumt(c, d, tm.mul(A.el(a, c), g(c, b))), delta(a, b)))


def sym(p, d, A):
    a, b = p.fresh("a", "I"), p.fresh("b", "I")
    return tm.implies(tm.band(tm.le(N0, a), tm.lt(a, d), tm.le(N0, b), tm.lt(b, d)), tm.eq(A.el(a, b), A.el(b, a)))


def setup(p, L, zero, n):
    G = L.load("ondil.gram")
    f, g = forget(p, zero)
    d = dimvar(p, "d")
    if n is None:
        n = dimvar(p, "n", 2)
    X = symarr("X", (n, d))
    w = symarr("w", (n,), sign="0+")
    P, G0 = pair(p, d, "old")
    return G, f, g, d, n, X, w, P, G0


def absorbed(g, Gr, w, r):
    """ghost update: the Gram matrix after row r"""
    return lambda c, b: tm.add(tm.mul(g, Gr.el(c, b)), tm.mul(w, tm.app("X", (r, c)), tm.app("X", (r, b))))


def u_one(zero, kind, ols):
    def body(p, L):
        G, f, g, d, n, X, w, P, G0 = setup(p, L, zero, ONE)
        if kind == "scalar":
            w = tm.var("ws")
            p.spec.varsigns["ws"] = "0+"
            p.assume(tm.le(N0, w))
            wt, wa = w, SV(w)
            fr = Frame(p, gram=P, X=X)
        else:
            wt, wa = tm.app("w", (N0,)), w
            fr = Frame(p, gram=P, X=X, w=w)
        if ols:
            r = L.load("ondil.methods.recursive_least_squares").OrdinaryLeastSquares().update_x_gram(gram=P, X=X, weights=wa, forget=f)
        else:
            r = G.update_inverted_gram(P, X, f, wa)
        need_array(p, r, (d, d), "shape")
        p.prove(f"{p.ex.name}:inverse", isinv(p, d, r, absorbed(g, G0, wt, N0)), function="ondil.gram._update_inverted_gram")
        fr.check()
    return Unit(f"C02.row.{kind}.{'ols.' if ols else ''}{'0' if zero else 'f'}", body, ["ondil.gram.update_inverted_gram", "ondil.gram._update_inverted_gram"])


def u_batch(zero, ols):
    def body(p, L):
        G, f, g, d, n, X, w, P, G0 = setup(p, L, zero, None)
        fr = Frame(p, gram=P, X=X, w=w)
        gh = {}

        def state(env, Lp):
            c = [x for x in Lp.names if isinstance(Lp.entry.get(x), SArr) and Lp.entry[x].ndim == 2]
            if len(c) != 1:
                raise Unsupported("matrix carried by the loop")
            return c[0]

        def havoc(p, old, env):
            A, B = pair(p, d, "st")
            gh["A"], gh["B"] = A, B
            return A

        def inv(k, env, Lp):
            x = state(env, Lp)
            A = env[x]
            if "A" in gh and A is gh["A"]:
                gh["k"] = k
                return []  # inverse pair registered with the ghost state
            if "r0" not in gh:
                gh["r0"] = 0 if A is P or A.buf is P.buf else 1
                if gh["r0"] == 0:
                    return []
                return [("inverse", isinv(p, d, A, absorbed(g, G0, tm.app("w", (N0,)), N0))), ("symmetric", sym(p, d, A))]
            r = tm.add(gh["k"], tm.num(gh["r0"]))
            return [("inverse", isinv(p, d, A, absorbed(g, gh["B"], tm.app("w", (r,)), r))), ("symmetric", sym(p, d, A))]

        class LazyHavoc(dict):
            def __contains__(self, n):
                return True

            def __getitem__(self, n):
                def f(p, old, env):
                    if isinstance(old, SArr) and old.ndim == 2 and "A" not in gh:
                        return havoc(p, old, env)
                    from ..shim import UNBOUND, fresh_like
                    if old is UNBOUND or n not in env:
                        return UNBOUND
                    return fresh_like(p, old, n)
                return f
        I = Inv(inv)
        I.havoc = LazyHavoc()
        p.invs["update_inverted_gram#1"] = I
        if ols:
            r = L.load("ondil.methods.recursive_least_squares").OrdinaryLeastSquares().update_x_gram(gram=P, X=X, weights=w, forget=f)
        else:
            r = G.update_inverted_gram(P, X, f, w)
        need_array(p, r, (d, d), "shape")
        if "A" not in gh:
            raise Unsupported("no loop over the rows")
        p.prove(f"{p.ex.name}:all_rows", tm.eq(tm.add(gh["k"], tm.num(gh["r0"])), n), function="ondil.gram.update_inverted_gram")
        p.prove(f"{p.ex.name}:result", isinv(p, d, r, lambda c, b: gh["B"].el(c, b)), function="ondil.gram.update_inverted_gram")
        fr.check()
    return Unit(f"C02.batch.{'ols.' if ols else ''}{'0' if zero else 'f'}", body, ["ondil.gram.update_inverted_gram", "ondil.gram._update_inverted_gram"])


def u_init(zero, ols):
    def body(p, L):
        G = L.load("ondil.gram")
        f, g = forget(p, zero)
        n, d = dimvar(p, "n"), dimvar(p, "d")
        X, w = symarr("X", (n, d)), symarr("w", (n,), sign="0+")
        fr = Frame(p, X=X, w=w)
        P, GI = pair(p, d, "init")
        C01.forget_contract(p, G, f, g)
        rk = p.fresh("rank", "I")
        p.assume(tm.band(tm.le(N0, rk), tm.le(rk, d)))

        def same(A, what):
            need_array(p, A, (d, d), f"{what}:shape")
            a, b = index(p, d, "a"), index(p, d, "b")
            p.prove(f"{p.ex.name}:{what}:gram", tm.eq(A.el(a, b), C01.S(g, n, lambda k: tm.mul(tm.app("X", (k, a)), tm.app("X", (k, b))))), function="ondil.gram.init_inverted_gram")

        def rank(A):
            same(A, "rank")
            return SV(rk)

        def inverse(A):
            same(A, "inv")
            p.prove(f"{p.ex.name}:inv:pre", tm.eq(rk, d), function="ondil.gram.init_inverted_gram")
            return P
        p.ghost["rank"], p.ghost["inv"] = rank, inverse
        try:
            if ols:
                r = L.load("ondil.methods.recursive_least_squares").OrdinaryLeastSquares().init_x_gram(X=X, weights=w, forget=f)
            else:
                r = G.init_inverted_gram(X, w, f)
        except ValueError:
            p.prove(f"{p.ex.name}:raises_only_if_singular", tm.lt(rk, d), function="ondil.gram.init_inverted_gram")
            return
        p.prove(f"{p.ex.name}:returns_only_if_regular", tm.eq(rk, d), function="ondil.gram.init_inverted_gram")
        need_array(p, r, (d, d), "shape")
        p.prove(f"{p.ex.name}:inverse", isinv(p, d, r, lambda c, b: GI.el(c, b)), function="ondil.gram.init_inverted_gram")
        fr.check()
    return Unit(f"C02.init.{'ols.' if ols else ''}{'0' if zero else 'f'}", body, ["ondil.gram.init_inverted_gram", "ondil.gram.init_gram"])


def u_beta():
    def body(p, L):
        M = L.load("ondil.methods.recursive_least_squares").OrdinaryLeastSquares()
        d = dimvar(p, "d")
        P, G0 = pair(p, d, "x")
        H = symarr("H", (d, ONE))
        b0 = symarr("b0", (d,))
        isr = symarr("isr", (d,), sort="B")
        fr = Frame(p, x=P, y=H, b=b0)
        for nm, call in (("fit", lambda: M.fit_beta(x_gram=P, y_gram=H, is_regularized=isr)), ("update", lambda: M.update_beta(x_gram=P, y_gram=H, beta=b0, is_regularized=isr))):
            r = call()
            need_array(p, r, (d,), f"{nm}:shape")
            a = index(p, d, "a")
            c = tm.fresh_bound()
            p.prove(f"{p.ex.name}:{nm}:normal_equations", tm.eq(tm.sumt(c, d, tm.mul(G0.el(a, c), r.el(c))), H.el(a, N0)),
                    function=f"ondil.methods.recursive_least_squares.OrdinaryLeastSquares.{nm}_beta")
        fr.check()
    return Unit("C02.beta", body, ["ondil.methods.recursive_least_squares.OrdinaryLeastSquares.fit_beta", "ondil.methods.recursive_least_squares.OrdinaryLeastSquares.update_beta"])


def units(tier):
    return [u_beta()] + [u for z in (True, False) for o in (False, True) for u in (u_one(z, "vector", o), u_batch(z, o), u_init(z, o))] + [u_one(z, "scalar", False) for z in (True, False)]
