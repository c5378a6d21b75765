"""C20: number, order and termination of the iterations.

The outer loop runs from the source with the visits of the parameters replaced by their contract (each yields some deviance); the number of inner
iterations of a visit is an obligation at every statistics call of the real visit."""
from itertools import permutations
from .gam import *
from .C16 import u_fit
from .C17 import u_update

ASSUMPTIONS = ASSUME + ["1 <= minimum, prefit <= maximum number of outer iterations", "deviances are not exactly zero",
                        "a visit of a parameter yields some deviance (contract of _inner_fit and _inner_update, C16 and C17)"]


def state_of(m):
    """what the model refers to: attributes and the entries of its mappings"""
    out = {}
    for a, v in vars(m).items():
        out[a] = v
        if isinstance(v, dict):
            for k, x in v.items():
                out[a, k] = x
    return out


def u_outer(kind, K, order, prefit=False, other=False, cautious=False, on=("C20",), pid="C20", wk="vec", path=False):
    fn = Q + f"_outer_{kind}"

    def body(p, L):
        kk = {}
        mn = dimvar(p, "mn")
        p.assume(tm.le(ONE, mn))
        need = mn
        if prefit:
            pf = dimvar(p, "prefit")
            p.assume(tm.le(ONE, pf))
            kk["prefit_initial" if kind == "fit" else "prefit_update"] = SV(pf)
            need = tm.ite(tm.le(pf, mn), mn, pf)
        most = need
        if cautious:
            kk["cautious_updates"] = True
        if other:
            kk["prefit_update" if kind == "fit" else "prefit_initial"] = SV(dimvar(p, "prefit2"))
        tol = {}
        for n in ("abs_tol_outer", "rel_tol_outer"):
            v = tol[n] = tm.var(n)
            p.spec.varsigns[n] = "+"
            p.assume(tm.lt(N0, v))
            p.spec.samplers[n] = lambda rng, env: rng.choice([1e-3, 0.1, 1.0, 10.0])
            kk[n] = SV(v)
        p.spec.samplers["mn"] = lambda rng, env: rng.randint(1, 3)
        W = World(p, L, K=K, on=on, wk=wk, path=path, order=None if order is None else npshim.asarray(list(order)), min_it_outer=SV(mn), **kk)
        p.assume(tm.le(mn, W.mo))
        if prefit:
            p.assume(tm.le(pf, W.mo))
        if cautious:  # an update may raise the minimum to four, within the maximum
            four = tm.ite(tm.le(tm.num(4), W.mo), tm.num(4), W.mo)
            most = tm.ite(tm.le(four, need), need, four)
        p.ghost["opaque"] = False
        J = W.J
        seq = list(order) if order is not None else list(range(K))
        if kind == "fit":
            D = W.data(0)
        else:
            m = W.fitted_model()
            D = W.data(1)
        p.spec.appaxioms["DEV"] = lambda i, t: [tm.bnot(tm.eq(t, N0))]
        J.update(fn=fn, param=seq[0])
        run = {"k": N0, "at": 0, "state": None, "dev0": None}

        def dev(k):
            if k.op == "num":
                if k.args[0] == 0:
                    return run["dev0"]
            return tm.app("DEV", (k,))

        def stop(k):
            new, old = dev(k), dev(tm.sub(k, ONE))
            ch = tm.absT(tm.sub(old, new))
            c = tm.bor(tm.lt(tm.div(ch, tm.absT(old)), tol["rel_tol_outer"]), tm.lt(ch, tol["abs_tol_outer"]), tm.le(W.mo, k))
            return tm.bor(c, tm.lt(old, new)) if kind == "fit" else c

        def begin(self, y, w, X):
            if run["dev0"] is None:
                if kind == "fit":
                    th = symarr("IV", (D.n, K))
                else:
                    th = self._fv
                run["th"] = th
                F = th.snapshot()
                run["dev0"] = W.deviance(lambda v, j: F((v, tm.num(j))))
                run["state"] = state_of(self)

        def frame(self, what):
            now = state_of(self)
            for a in set(now) | set(run["state"]):
                x, z = now.get(a, W), run["state"].get(a, W)
                if x is not z and not (isinstance(x, (SV, int, float)) and isinstance(z, (SV, int, float)) and tt(x) is tt(z)):
                    raise Unsupported(f"the outer loop sets {a} by itself")

        def visit(self, X, y, w, it_outer, param, dv=None):
            if not isinstance(param, int):
                raise Unsupported("parameter index is symbolic")
            k = run["k"]
            frame(self, "visit")
            if run["at"] >= K:
                W.ob("visits", tm.FALSE, "C20", fn=fn)
                raise PathEnd()
            W.ob("order", param == seq[run["at"]], "C20", fn=fn)
            W.ob("iteration", tm.eq(tt(it_outer), tm.add(k, ONE)), "C20", fn=fn)
            if run["at"] == 0:
                W.ob("maximum", tm.lt(k, W.mo), "C20", fn=fn)
                if k is not N0:
                    W.ob("goes_on", tm.bor(tm.lt(k, most), tm.bnot(stop(k))), "C20", fn=fn)
            J["param"] = param
            for q in range(K):
                W.arr("visit:rows", X[q], (D.n, W.m_[q]), W.design(q), "C16", "C17")
            W.arr("visit:response", y, (D.n,), lambda i: D.yy(i), "C16", "C17")
            W.arr("visit:weights", w, (D.n,), lambda i: D.W(i), "C16", "C17")
            run["at"] += 1
            if run["at"] == K:
                run["k"] = tm.add(k, ONE)
                if run.get("inloop"):
                    pass
                return SV(dev(run["k"]) if run["k"].op != "num" else tm.app("DEV", (run["k"],)))
            return SV(p.fresh("dv"))
        contract(W.C, f"_inner_{kind}", visit)
        real = getattr(W.C, f"_outer_{kind}", None)
        real = getattr(real, "__wrapped__", real)
        if real is None:
            raise Unsupported(f"no _outer_{kind}")
        done = []

        def outer(self, X, y, w):
            if kind == "fit" and not isinstance(getattr(self, "_fv", None), SArr):
                raise Unsupported("no fitted values")
            begin(self, y, w, X)
            r = real(self, X, y, w)
            frame(self, "end")
            k = run["k"]
            W.ob("visits:all", run["at"] in (0, K), "C20", fn=fn)
            W.ob("minimum", tm.le(need, k), "C20", fn=fn)
            W.ob("maximum", tm.le(k, W.mo), "C20", fn=fn)
            if k is N0:
                done.append((N0, None))
                return r
            W.ob("stops", stop(k), "C20", fn=fn)
            done.append((k, dev(k)))
            return r

        def onhavoc(k, env, Lp):
            run["k"], run["at"] = k, 0

        def onend(k, env, Lp):
            W.ob("visits:all", run["at"] == K, "C20", fn=fn)

        cands = lambda k: {"k": k, "k+1": tm.add(k, ONE), "k-1": tm.sub(k, ONE), "dev": dev(k) if k is not ONE else tm.app("DEV", (ONE,)), "old": dev(tm.sub(k, ONE))}
        p.invs[f"_outer_{kind}#1"] = Inv(lambda k, env, Lp: [], peel=True, modifies="auto", onhavoc=onhavoc, onend=onend, cands=cands,
                                         cfacts=lambda k: {"goes_on": tm.bor(tm.lt(k, most), tm.bnot(stop(k))), "limit": tm.lt(k, W.mo), "least": tm.le(k, W.mo)})
        contract(W.C, f"_outer_{kind}", outer)
        if kind == "fit":
            W.m.fit(D.X, D.y, sample_weight=D.w)
        else:
            m.update(D.X, D.y, sample_weight=D.w)
        if not done:
            raise Unsupported("the outer loop was not reached")
        k, dv = done[0]
        if dv is not None:
            W.ob("deviance", tm.eq(tt(W.m._global_dev), dv), "C17", fn=fn)
            it = getattr(W.m, "_it_outer", None)
            if it is not None:
                W.ob("count", tm.eq(tt(it), k), "C20", fn=fn)
    return Unit(f"{pid}.outer.{kind}.K{K}.{'' if order is None else ''.join(map(str, order))}{'.prefit' if prefit else ''}{'.other' if other else ''}{'.cautious' if cautious else ''}", body, [fn, Q + kind, Q + "_prepare_estimator"], max_paths=600, cost=2)


def units(tier):
    on = ("C20",)
    out = [u_outer("fit", 1, None), u_outer("update", 1, None), u_outer("fit", 2, None, True), u_outer("update", 2, None, True)]
    out += [u_outer("fit", 2, (1, 0), other=True), u_outer("update", 2, (1, 0), other=True)]
    out += [u_outer("update", 1, None, cautious=True), u_outer("update", 2, (1, 0), True, cautious=True)]
    for o in permutations(range(3)):
        out += [u_outer("fit", 3, o), u_outer("update", 3, o)]
    for pre in (False, True):
        out += [u_fit(1, 0, "first", False, prefit=pre, on=on, pid="C20"), u_fit(1, 0, "later", False, prefit=pre, on=on, pid="C20"),
                u_update(1, 0, "first", False, prefit=pre, on=on, pid="C20"), u_update(1, 0, "later", False, prefit=pre, on=on, pid="C20")]
    out += [u_fit(2, 1, "later", True, on=on, pid="C20"), u_update(2, 0, "later", True, on=on, pid="C20", prefit=True)]
    return out
