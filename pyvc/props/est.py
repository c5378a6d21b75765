"""Ghost collaborators of the estimators: contracts of the scaler, of the estimation methods and of the Gram functions.

The estimators are run as fit; update; update.  Every collaborator answers with uninterpreted values, so that the state after a step stands for the
state after any history: what is proved about the step from it is the inductive step over all histories."""
import inspect
from .common import *
from .C13 import forget, ONE


def arr_is(p, oid, a, shape, f, fn):
    """a is an array of that shape with entries f(indices) (obligation)"""
    if not isinstance(a, SArr):
        if isinstance(a, (SV, int, float)) and not shape:
            p.prove(f"{p.ex.name}:{oid}", tm.eq(tt(a), f()), function=fn)
            return
        p.ex.record(f"{p.ex.name}:{oid}:shape", ("failed", "shape", f"no array but {type(a).__name__}", None), 0)
        raise PathEnd()
    need_array(p, a, shape, f"{oid}:shape")
    ix = [index(p, d, "e") if cdim(d) != 1 else N0 for d in shape]
    x, y = a.el(*ix), f(*ix)
    if a.sort == "B":
        p.prove(f"{p.ex.name}:{oid}", tm.band(tm.implies(x, y), tm.implies(y, x)), function=fn)
    else:
        p.prove(f"{p.ex.name}:{oid}", tm.eq(x, y), function=fn)


class Data:
    """batch s of the history"""

    def __init__(self, p, s, d, wk, lo=1):
        self.s = s
        self.n = dimvar(p, f"n{s}", lo)
        self.X = symarr(f"X{s}", (self.n, d))
        self.y = symarr(f"y{s}", (self.n,))
        self.w = None if wk == "none" else symarr(f"w{s}", (self.n,), sign="0+")
        self.x = lambda i, j: tm.app(f"X{s}", (i, j))
        self.yy = lambda i: tm.app(f"y{s}", (i,))
        self.W = (lambda i: ONE) if wk == "none" else (lambda i: tm.app(f"w{s}", (i,)))

    def total(self):
        v = tm.fresh_bound()
        return tm.sumt(v, self.n, self.W(v))

    def frame(self, p):
        a = {f"X{self.s}": self.X, f"y{self.s}": self.y}
        if self.w is not None:
            a[f"w{self.s}"] = self.w
        return Frame(p, **a)


def zf(s, j, x):
    """contract of the scaler: column j scaled by the moments after batch s"""
    return tm.app("zf", (tm.num(s), j, x))


def design(D, d, icpt):
    if not icpt:
        return d, lambda i, j: zf(D.s, j, D.x(i, j))
    return tm.add(d, ONE), lambda i, j: tm.ite(tm.eq(j, N0), ONE, zf(D.s, tm.sub(j, ONE), D.x(i, tm.sub(j, ONE))))


def scaler_class(p, J, f, to_scale, fn):
    """contract of OnlineScaler.  J['D']: the batch at hand"""
    class OnlineScaler:
        def __init__(self, forget=0.0, to_scale=True):
            p.prove(f"{p.ex.name}:scaler:forget", tm.eq(tt(forget), tt(f)), function=fn)
            want = J["to_scale"]
            ok = to_scale is want or (isinstance(to_scale, bool) and isinstance(want, bool) and to_scale == want)
            if not ok and isinstance(to_scale, SArr) and isinstance(want, SArr):
                need_array(p, to_scale, want._shape, "scaler:selection:shape")
                i = index(p, want._shape[0], "sel")
                ok = p.ctx.entails(tm.bor(tm.band(to_scale.el(i), want.el(i)), tm.band(tm.bnot(to_scale.el(i)), tm.bnot(want.el(i)))))
            p.prove(f"{p.ex.name}:scaler:selection", tm.TRUE if ok else tm.FALSE, function=fn)
            self.state = None

        def _absorb(self, X, sample_weight, what):
            D = J["D"]
            arr_is(p, f"scaler:{what}:rows", X, D.X._shape, lambda i, j: D.x(i, j), fn)
            if sample_weight is None:
                p.prove(f"{p.ex.name}:scaler:{what}:weights", tm.TRUE if D.w is None else tm.FALSE, function=fn)
            else:
                arr_is(p, f"scaler:{what}:weights", sample_weight, (D.n,), lambda i: D.W(i), fn)

        def fit(self, X, y=None, sample_weight=None):
            self._absorb(X, sample_weight, "fit")
            p.prove(f"{p.ex.name}:scaler:fit:first", tm.TRUE if J["D"].s == 0 else tm.FALSE, function=fn)
            self.state = J["D"].s
            return self

        def update(self, X, y=None, sample_weight=None):
            self._absorb(X, sample_weight, "update")
            p.prove(f"{p.ex.name}:scaler:update:once", tm.TRUE if self.state is not None and self.state == J["D"].s - 1 else tm.FALSE, function=fn)
            self.state = J["D"].s
            return self

        partial_fit = update

        def transform(self, X):
            s = self.state
            if s is None:
                fail(p, "scaler:transform", "transform before fit")
                raise PathEnd()
            if not isinstance(X, SArr) or X.ndim != 2:
                raise Unsupported("transform of no matrix")
            x = X.snapshot()
            return SArr.new(X._shape, lambda i: zf(s, i[1], x(i)), "R")

        def fit_transform(self, X, y=None, sample_weight=None):
            return self.fit(X, y, sample_weight).transform(X)

        def __getattr__(self, n):
            raise Unsupported("scaler." + n)
    return OnlineScaler


def gram_contracts(p, mods, J, f, icpt, d, fn, names):
    """init/update functions of ondil.gram as the model sees them.  names: {function: token prefix}; y functions take the response"""
    def stub(kind, token, isy):
        def check(X, w, forget, y=None, gram=None):
            D = J["D"]
            m, spec = design(D, d, icpt)
            nm = f"{kind}:"
            arr_is(p, nm + "rows", X, (D.n, m), spec, fn)
            arr_is(p, nm + "weights", w, (D.n,), lambda i: D.W(i), fn)
            p.prove(f"{p.ex.name}:{nm}forget", tm.eq(tt(forget), tt(f)), function=fn)
            if isy:
                arr_is(p, nm + "response", y, (D.n,), lambda i: D.yy(i), fn)
            if gram is not None:
                prev = f"{token}{D.s - 1}"
                arr_is(p, nm + "previous", gram, (m, N1) if isy else (m, m), lambda *i: tm.app(prev, i), fn)
            t = f"{token}{D.s}"
            J.setdefault("calls", []).append((t, kind))
            return symarr(t, (m, N1) if isy else (m, m))
        if isy:
            if kind.startswith("update"):
                return lambda gram, X, y, forget, w: check(X, w, forget, y, gram)
            return lambda X, y, w, forget: check(X, w, forget, y)
        if kind.startswith("update"):
            return lambda gram, X, forget, w: check(X, w, forget, None, gram)
        return lambda X, w, forget: check(X, w, forget)
    for k, (token, isy) in names.items():
        s = stub(k, token, isy)
        for M in mods:
            contract(M, k, s)
