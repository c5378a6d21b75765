"""C04: the regularisation path.  The path function is proved against the contract of the solver (C03) for a grid of any length; the callers
(ElasticNetPath, LassoPath) against the contract of the path function; the zero solution at the largest strength against the solver's body."""
from .common import *
from .C13 import ONE
from .C03 import NP_perm

ASSUMPTIONS = ["diagonal of the Gram matrix positive, Gram matrix symmetric, largest strength positive, grid of at least two values, 0 < ratio",
               "for the zero solution at the largest strength: no bounds on the coefficients or bounds that contain zero; the coefficient that is not regularised is the first one (the intercept)",
               "np.geomspace(a, b, n)[i] = a (b/a)^(i/(n-1))"]
MOD = "ondil.coordinate_descent"
PATH = MOD + ".online_coordinate_descent_path"
ENET = "ondil.methods.elasticnet"
TWO = tm.num(2)


def u_path(start, es):
    """es: 0 no early stopping; 1 an arbitrary positive number"""
    def body(p, L):
        M = L.load(MOD)
        d, n = dimvar(p, "d"), dimvar(p, "n")
        G, y = symarr("G", (d, d)), symarr("y", (d,))
        P0, lam = symarr("P0", (n, d)), symarr("lam", (n,), sign="0+")
        reg = symarr("reg", (d,), sort="B")
        Lo, Hi = symarr("lo", (d,)), symarr("hi", (d,))
        al, tol, mx = tm.var("alpha"), tm.var("tol"), tm.var("maxit", "I")
        E = tm.var("es", "I") if es else N0
        if es:
            p.assume(tm.le(ONE, E))
        sel = "random" if start == "average" else "cyclic"
        fr = Frame(p, x_gram=G, y_gram=y, beta_path=P0, lambda_path=lam, is_regularized=reg, lower=Lo, upper=Hi)
        J = {"calls": 0}
        S = lambda r, m: tm.app("S", (r, m))       # row r of the solution
        IT = lambda r: tm.app("IT", (r,))
        prev = lambda r, m: tm.ite(tm.le(ONE, r), S(tm.sub(r, ONE), m), N0)

        def begin(r, m):
            old = tm.app("P0", (r, m))
            return {"previous_lambda": prev(r, m), "previous_fit": old, "average": tm.div(tm.add(prev(r, m), old), TWO)}[start]

        def early(r):
            if not es:
                return tm.FALSE
            if r not in J:
                v = tm.fresh_bound()
                J[r] = tm.le(E, tm.sumt(v, d, tm.ite(tm.eq(begin(r, v), N0), N0, ONE)))
            return J[r]

        # definition of the rows: early stop or solver, unfolded for the row at hand only
        def axS(a, t):
            return [tm.implies(early(a[0]), tm.eq(t, begin(a[0], a[1])))] if a[0] is J.get("k") else []

        def axI(a, t):
            return [tm.implies(early(a[0]), tm.eq(t, N0))] if a[0] is J.get("k") else []
        p.spec.appaxioms["S"], p.spec.appaxioms["IT"] = axS, axI

        def solver(x_gram, y_gram, beta, regularization, is_regularized, alpha, beta_lower_bound, beta_upper_bound, selection, tolerance, max_iterations):
            k = J.get("k")
            if k is None:
                raise Unsupported("solver called outside the loop over the grid")
            f = PATH
            nm = p.ex.name + ":solver_call:"
            J["calls"] += 1
            if J["calls"] > 1:
                raise Unsupported("several solver calls for one strength")
            need_array(p, beta, (d,), "solver_call:start_shape")
            m, m2 = index(p, d, "m"), index(p, d, "m")
            p.prove(nm + "start", tm.eq(beta.el(m), begin(k, m)), function=f)
            p.prove(nm + "strength", tm.eq(tt(regularization), lam.el(k)), function=f)
            p.prove(nm + "not_early", tm.bnot(early(k)), function=f)
            p.prove(nm + "gram", tm.eq(x_gram.el(m, m2), G.el(m, m2)), function=f)
            p.prove(nm + "y_gram", tm.eq(y_gram.el(m), y.el(m)), function=f)
            p.prove(nm + "lower", tm.eq(beta_lower_bound.el(m), Lo.el(m)), function=f)
            p.prove(nm + "upper", tm.eq(beta_upper_bound.el(m), Hi.el(m)), function=f)
            p.prove(nm + "mask", tm.band(tm.implies(is_regularized.el(m), reg.el(m)), tm.implies(reg.el(m), is_regularized.el(m))), function=f)
            p.prove(nm + "mixing", tm.eq(tt(alpha), al), function=f)
            p.prove(nm + "tolerance", tm.eq(tt(tolerance), tol), function=f)
            p.prove(nm + "limit", tm.eq(tt(max_iterations), mx), function=f)
            p.prove(nm + "selection", tm.TRUE if selection == sel else tm.FALSE, function=f)
            return SArr.new((d,), lambda i: S(k, i[0]), "R"), SV(IT(k))
        contract(M, "online_coordinate_descent", solver)

        def arrays(env, Lp):
            out = {}
            for x in Lp.modifies:
                v = env.get(x)
                if isinstance(v, SArr) and v.ndim == 2:
                    out[x] = lambda k, i: (tm.TRUE, tm.ite(tm.lt(i[0], k), S(i[0], i[1]), N0))
                elif isinstance(v, SArr) and v.ndim == 1:
                    out[x] = lambda k, i: (tm.TRUE, tm.ite(tm.lt(i[0], k), IT(i[0]), N0))
                else:
                    raise Unsupported("state of the loop over the grid")
            return out

        def inv(k, env, Lp):
            J["k"] = Lp.k
            J["calls"] = 0
            return [("whole_grid", tm.eq(Lp.n, n))]
        p.invs["for"] = Inv(inv, modifies="auto", arrays=arrays)
        r = M.online_coordinate_descent_path(x_gram=G, y_gram=y, beta_path=P0, lambda_path=lam, is_regularized=reg, alpha=SV(al), early_stop=SV(E) if es else 0,
                                             beta_lower_bound=Lo, beta_upper_bound=Hi, which_start_value=start, selection=sel, tolerance=SV(tol), max_iterations=SV(mx))
        if not (isinstance(r, tuple) and len(r) == 2):
            fail(p, "result", "no pair of path and iterations")
            return
        J["k"] = None
        need_array(p, r[0], (n, d), "shape")
        need_array(p, r[1], (n,), "shape_iterations")
        i, m = index(p, n, "i"), index(p, d, "m")
        p.prove(f"{p.ex.name}:rows", tm.eq(r[0].el(i, m), S(i, m)), function=PATH)
        p.prove(f"{p.ex.name}:iterations", tm.eq(r[1].el(i), IT(i)), function=PATH)
        fr.check()
    return Unit(f"C04.path.{start}.{'stop' if es else 'full'}", body, [PATH], cost=3)


def setup(p, kind):
    """Gram statistics; kind: all regularised, or all but coordinate c"""
    d = dimvar(p, "d")
    G, Y = symarr("G", (d, d)), symarr("Y", (d, N1))
    p.spec.symmetric.add("G")
    p.spec.appaxioms["G"] = lambda a, t: [tm.implies(tm.eq(a[0], a[1]), tm.lt(N0, t))]
    p.spec.appsamplers["G"] = lambda rng, args, env, apps: rng.uniform(0.3, 2) if args[0] == args[1] else rng.uniform(-0.5, 0.5)
    if kind == "all":
        return d, G, Y, SArr.new((d,), lambda i: tm.TRUE, "B"), None
    c = index(p, d, "c") if kind == "one" else N0
    p.ghost["points"] = [c]
    return d, G, Y, SArr.new((d,), lambda i: tm.bnot(tm.eq(i[0], c)), "B"), c


def resid(Y, G, c, j):
    """gradient of coordinate j when only the free coordinate is fitted"""
    r = Y.el(j, N0)
    return r if c is None else tm.sub(r, tm.div(tm.mul(tm.app("G", (c, j)), Y.el(c, N0)), tm.app("G", (c, c))))


def u_lmax(kind):
    def body(p, L):
        M = L.load(ENET)
        d, G, Y, reg, c = setup(p, kind)
        fr = Frame(p, x_gram=G, y_gram=Y)
        f = ENET + ".ElasticNetPath._get_lambda_max"
        r = M.ElasticNetPath._get_lambda_max(x_gram=G, y_gram=Y, is_regularized=reg)
        from .. import npshim
        if c is not None:
            instantiate(p, c)
            if p.infeasible():
                raise PathEnd()
        r = tt(r)
        j = index(p, d, "j")
        w = resid(Y, G, c, j)
        instantiate(p, j)
        p.prove(f"{p.ex.name}:bound", tm.le(tm.absT(w), r), function=f)
        ref = tt(npshim.max(npshim.abs(SArr.new((d,), lambda i: resid(Y, G, c, i[0]), "R"))))
        p.prove(f"{p.ex.name}:largest", tm.eq(r, ref), function=f)
        fr.check()
    return Unit(f"C04.largest_strength.{kind}", body, [ENET + ".ElasticNetPath._get_lambda_max"])


OPTS = ("previous_lambda", "previous_fit", "average")


def u_call(cls, update, kind, bounded, start):
    """fit_beta_path / update_beta_path hand the right problem to the path function"""
    meth = "update_beta_path" if update else "fit_beta_path"
    cm = ENET if cls == "ElasticNetPath" else "ondil.methods.lasso_path"
    fq = f"{cm}.{cls}.{meth}"

    def body(p, L):
        ME = L.load(ENET)
        M = L.load(cm)
        d, G, Y, reg, c = setup(p, kind)
        n = dimvar(p, "n", 2)
        eps, tol, mx, es = tm.var("eps"), tm.var("tol"), tm.var("maxit", "I"), tm.var("es", "I")
        p.assume(tm.lt(N0, eps))
        p.spec.varsigns["eps"] = "+"
        lm = tm.var("lmax")
        p.assume(tm.lt(N0, lm))
        p.spec.varsigns["lmax"] = "+"
        other = OPTS[(OPTS.index(start) + 1) % 3]
        kw = dict(lambda_n=SV(n), lambda_eps=SV(eps), early_stop=SV(es), start_value_initial=other if update else start, start_value_update=start if update else other,
                  selection="random" if update else "cyclic", tolerance=SV(tol), max_iterations=SV(mx))
        if cls == "ElasticNetPath":
            al = tm.var("alpha")
            kw["alpha"] = SV(al)
        else:
            al = ONE
        if bounded:
            kw["beta_lower_bound"], kw["beta_upper_bound"] = symarr("lo", (d,)), symarr("hi", (d,))
        m = getattr(M, cls)(**kw)
        name = p.ex.name

        def lmax(x_gram, y_gram, is_regularized):
            a, b = index(p, d, "a"), index(p, d, "b")
            p.prove(f"{name}:strength_of:gram", tm.eq(x_gram.el(a, b), G.el(a, b)), function=fq)
            p.prove(f"{name}:strength_of:y_gram", tm.eq(y_gram.el(a, N0), Y.el(a, N0)), function=fq)
            p.prove(f"{name}:strength_of:mask", tm.band(tm.implies(is_regularized.el(a), reg.el(a)), tm.implies(reg.el(a), is_regularized.el(a))), function=fq)
            return SV(lm)
        if hasattr(ME.ElasticNetPath, "_get_lambda_max"):
            ME.ElasticNetPath._get_lambda_max = staticmethod(by_name(ME.ElasticNetPath._get_lambda_max, lmax))
        calls = []

        def path(x_gram, y_gram, beta_path, lambda_path, is_regularized, alpha, early_stop, beta_lower_bound, beta_upper_bound, which_start_value, selection, tolerance, max_iterations):
            calls.append(1)
            nm = f"{name}:path_call:"
            a, b, i = index(p, d, "a"), index(p, d, "b"), index(p, n, "i")
            need_array(p, x_gram, (d, d), "path_call:gram_shape")
            p.prove(nm + "gram", tm.eq(x_gram.el(a, b), G.el(a, b)), function=fq)
            need_array(p, y_gram, (d,), "path_call:y_gram_shape")
            p.prove(nm + "y_gram", tm.eq(y_gram.el(a), Y.el(a, N0)), function=fq)
            need_array(p, beta_path, (n, d), "path_call:start_shape")
            p.prove(nm + "start_path", tm.eq(beta_path.el(i, a), tm.app("P0", (i, a)) if update else N0), function=fq)
            need_array(p, lambda_path, (n,), "path_call:grid_length")
            g = lambda_path.el
            p.prove(nm + "grid_first", tm.eq(g(N0), lm), function=fq)
            p.prove(nm + "grid_last", tm.eq(g(tm.sub(n, ONE)), tm.mul(lm, eps)), function=fq)
            ratio = tm.fn("exp", tm.div(tm.fn("log", eps), tm.sub(n, ONE)))
            p.prove(nm + "grid_geometric", tm.implies(tm.lt(tm.add(i, ONE), n), tm.eq(g(tm.add(i, ONE)), tm.mul(ratio, g(i)))), function=fq)
            p.prove(nm + "mask", tm.band(tm.implies(is_regularized.el(a), reg.el(a)), tm.implies(reg.el(a), is_regularized.el(a))), function=fq)
            p.prove(nm + "mixing", tm.eq(tt(alpha), al), function=fq)
            p.prove(nm + "early_stop", tm.eq(tt(early_stop), es), function=fq)
            need_array(p, beta_lower_bound, (d,), "path_call:lower_length")
            need_array(p, beta_upper_bound, (d,), "path_call:upper_length")
            p.prove(nm + "lower", tm.eq(beta_lower_bound.el(a), tm.app("lo", (a,))) if bounded else infty(beta_lower_bound.el(a), -1), function=fq)
            p.prove(nm + "upper", tm.eq(beta_upper_bound.el(a), tm.app("hi", (a,))) if bounded else infty(beta_upper_bound.el(a), 1), function=fq)
            p.prove(nm + "start_option", tm.TRUE if which_start_value == start else tm.FALSE, function=fq)
            p.prove(nm + "selection", tm.TRUE if selection == kw["selection"] else tm.FALSE, function=fq)
            p.prove(nm + "tolerance", tm.eq(tt(tolerance), tol), function=fq)
            p.prove(nm + "limit", tm.eq(tt(max_iterations), mx), function=fq)
            return symarr("R", (n, d)), symarr("RI", (n,))
        contract(ME, "online_coordinate_descent_path", path)
        contract(M, "online_coordinate_descent_path", path)
        arrs = dict(x_gram=G, y_gram=Y, is_regularized=reg)
        if bounded:
            arrs.update(lower=kw["beta_lower_bound"], upper=kw["beta_upper_bound"])
        if update:
            P0 = symarr("P0", (n, d))
            arrs["beta_path"] = P0
            if not bounded:  # state left by the fit
                m.beta_lower_bound, m.beta_upper_bound = SArr.new((d,), lambda i: tm.neg(tm.INF), "R"), SArr.new((d,), lambda i: tm.INF, "R")
            fr = Frame(p, **arrs)
            r = m.update_beta_path(x_gram=G, y_gram=Y, beta_path=P0, is_regularized=reg)
        else:
            fr = Frame(p, **arrs)
            r = m.fit_beta_path(x_gram=G, y_gram=Y, is_regularized=reg)
        need_array(p, r, (n, d), "shape")
        i, a = index(p, n, "i"), index(p, d, "a")
        p.prove(f"{name}:result", tm.eq(r.el(i, a), tm.app("R", (i, a))), function=fq)
        if len(calls) != 1:
            fail(p, "one_path", f"path function called {len(calls)} times")
        fr.check()
    return Unit(f"C04.{cls}.{meth}.{kind}.{'box' if bounded else 'free'}.{start}", body, [fq, f"{cm}.{cls}.__init__"] + ([ENET + ".ElasticNetPath._set_and_validate_bounds"] if not update else []))


def infty(t, s):
    return tm.TRUE if tm._infsign(t) == s else tm.FALSE


def by_name(real, fn):
    import inspect
    real = getattr(real, "__func__", real)
    real = getattr(real, "__wrapped__", real)
    sig = inspect.signature(real)
    want = list(inspect.signature(fn).parameters)

    def stub(*a, **k):
        b = sig.bind(*a, **k)
        if any(q not in b.arguments for q in want):
            raise Unsupported("parameters of _get_lambda_max")
        return fn(**{q: b.arguments[q] for q in want})
    return stub


def u_bounds(cls, which, diff):
    """a bound vector of another length is refused"""
    cm = {"ElasticNetPath": ENET, "LassoPath": "ondil.methods.lasso_path"}[cls]

    def body(p, L):
        ME = L.load(ENET)
        M = L.load(cm)
        d, G, Y, reg, c = setup(p, "all")
        l = dimvar(p, "len")
        p.assume(tm.lt(l, d) if diff < 0 else tm.lt(d, l))
        kw = {f"beta_{which}_bound": symarr("b", (l,))}
        if cls == "ElasticNetPath":
            kw["alpha"] = SV(tm.var("alpha"))
        m = getattr(M, cls)(**kw)

        def path(x_gram):
            return symarr("R", (d, d)), symarr("RI", (d,))
        contract(ME, "online_coordinate_descent_path", path)
        contract(M, "online_coordinate_descent_path", path)
        expect_raises(p, "refused", ValueError, lambda: m.fit_beta_path(x_gram=G, y_gram=Y, is_regularized=reg))
    return Unit(f"C04.{cls}.wrong_{which}.{'short' if diff < 0 else 'long'}", body, [f"{cm}.{cls}.fit_beta_path", ENET + ".ElasticNetPath._set_and_validate_bounds"])


def u_zero(kind, sel, box):
    """pure L1 penalty at the largest strength, started from zero: every regularised coefficient stays zero (body of the solver)"""
    FN = MOD + ".online_coordinate_descent"

    def body(p, L):
        M = L.load(MOD)
        d, G, Y, reg, c = setup(p, kind)
        y = SArr.new((d,), lambda i: Y.el(i[0], N0), "R")
        lm, tol, mx = tm.var("lmax"), tm.var("tol"), tm.var("maxit", "I")
        p.assume(tm.lt(N0, lm))
        p.spec.varsigns["lmax"] = "+"
        p.assume(tm.le(N0, tol))
        p.assume(tm.le(N0, mx))
        # contract of _get_lambda_max
        p.spec.appaxioms["Y"] = lambda a, t: [tm.implies(tm.band(tm.le(N0, a[0]), tm.lt(a[0], d)), tm.le(tm.absT(resid(Y, G, c, a[0])), lm))]
        b0 = SArr.new((d,), lambda i: N0, "R")
        Lo = symarr("lo", (d,)) if box else SArr.new((d,), lambda i: tm.neg(tm.INF), "R")
        Hi = symarr("hi", (d,)) if box else SArr.new((d,), lambda i: tm.INF, "R")
        if box:
            p.spec.appaxioms["lo"] = lambda a, t: [tm.le(t, N0)]
            p.spec.appaxioms["hi"] = lambda a, t: [tm.le(N0, t)]
        J = {}
        fit = None if c is None else tm.div(Y.el(c, N0), tm.app("G", (c, c)))

        def isperm(a):
            return isinstance(a, SArr) and a.sort == "I" and a.ndim == 1

        def w_havoc(nme):
            def f(p, old, env):
                from ..shim import UNBOUND, fresh_like
                if nme not in env or old is UNBOUND:
                    return UNBOUND
                if isperm(old):
                    return NP_perm(p, d)
                if isinstance(old, int) and not isinstance(old, bool):
                    return fresh_like(p, old, nme, "I")
                return fresh_like(p, old, nme)
            return f

        class H(dict):
            def __contains__(self, n):
                return True

            def __getitem__(self, n):
                return w_havoc(n)

        def state(i, started):
            if c is None:
                return N0
            return tm.ite(tm.eq(i, c), tm.ite(started, fit, N0), N0)

        def real(env, Lp):
            return [x for x in Lp.modifies if isinstance(env.get(x), SArr) and env[x].sort == "R" and env[x].ndim == 1]

        def w_inv(k, env, Lp):
            J["outer"] = Lp
            out = []
            for x, v in env.items():
                if x in Lp.names and x in Lp.entry and isinstance(Lp.entry[x], int) and not isinstance(Lp.entry[x], bool):
                    out.append((f"{x}_counts", tm.eq(tt(v), tm.add(k, tm.num(Lp.entry[x])))))
                if x in Lp.names and x in Lp.entry and isperm(v):
                    e = v.el(tm.var("B_s", "I"))
                    if Lp.phase == 0 and k is not N0 and e.op == "app":
                        # the first sweep is in natural order
                        ax = p.spec.appaxioms[e.args[0]]
                        p.spec.appaxioms[e.args[0]] = lambda a, t: ax(a, t) + [tm.implies(tm.eq(k, N0), tm.eq(t, a[0]))]
                    if e is tm.var("B_s", "I") or e.op == "app" and e.args[0] in p.ghost.get("perms", ()):
                        j = index(p, d, "j")
                        if Lp.phase == 0 and k is N0:
                            out.append((f"{x}_natural", tm.eq(v.el(j), j)))
                    else:
                        raise Unsupported("order of the coordinates")
            return out

        def w_arr(env, Lp):
            return {x: (lambda k, i: (tm.TRUE, state(i[0], tm.le(ONE, k)))) for x in real(env, Lp)}

        def f_arr(env, Lp):
            k0 = J["outer"].k
            return {x: (lambda k, i: (tm.TRUE, state(i[0], tm.bor(tm.le(ONE, k0), tm.le(ONE, k))))) for x in real(env, Lp)}

        def f_inv(k, env, Lp):
            return [("every_coordinate", tm.eq(Lp.n, d))]
        W = Inv(w_inv, modifies="auto", arrays=w_arr)
        W.havoc = H()
        p.invs["while"], p.invs["for"] = W, Inv(f_inv, modifies="auto", arrays=f_arr)
        b, it = M.online_coordinate_descent(x_gram=G, y_gram=y, beta=b0, regularization=SV(lm), is_regularized=reg, alpha=SV(ONE), beta_lower_bound=Lo, beta_upper_bound=Hi,
                                            selection=sel, tolerance=SV(tol), max_iterations=SV(mx))
        m = index(p, d, "m")
        p.prove(f"{p.ex.name}:zero", tm.implies(reg.el(m), tm.eq(b.el(m), N0)), function=FN)
    return Unit(f"C04.zero_at_largest.{kind}.{sel}.{'box' if box else 'free'}", body, [FN, MOD + ".soft_threshold"], cost=4)


def units(tier):
    out = [u_path(s, e) for s in OPTS for e in (0, 1)]
    out += [u_lmax(k) for k in ("all", "one")]
    for cls in ("ElasticNetPath", "LassoPath"):
        for upd in (False, True):
            for s in OPTS:
                out.append(u_call(cls, upd, "all" if s == "previous_fit" else "one", s != "previous_lambda", s))
        out += [u_bounds(cls, w, s) for w in ("lower", "upper") for s in (-1, 1)]
    out += [u_zero("all", s, b) for s in ("cyclic", "random") for b in (True, False)] + [u_zero("first", s, False) for s in ("cyclic", "random")]
    return out
