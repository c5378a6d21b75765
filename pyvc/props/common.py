"""Helpers shared by the verification units."""
from .. import terms as tm
from ..terms import T
from ..sym import SV, SB, Unsupported, PathEnd, tt, bt, wrap, cur
from ..arr import SArr, N0, N1, symarr, cdim, dim_eq
from ..shim import Inv

TRUSTED_ALL = [
    "pyvc: symbolic execution of the transformed source, loop rule, canonical form of real terms (pyvc/*.py)",
    "z3 (python bindings of python3-vt)",
    "numpy semantics as axiomatised in pyvc/npshim.py, pyvc/arr.py",
    "CPython ast/compile",
]
ASSUME_ALL = [
    "machine arithmetic treated as mathematical: floats are reals, integers unbounded",
    "denominators cleared by the canonical form are non-zero on the stated preconditions",
]


class Unit:
    def __init__(self, name, body, functions=(), max_paths=200, timeout=240, cost=1):
        self.name, self.body, self.functions, self.max_paths, self.timeout, self.cost = name, body, list(functions), max_paths, timeout, cost


def num(x):
    return tm.num(x)


def index(p, n, hint="i"):
    """an arbitrary index below n"""
    i = p.fresh(hint, "I")
    p.assume(tm.band(tm.le(N0, i), tm.lt(i, n)))
    return i


def dimvar(p, name, lo=1):
    v = tm.var(name, "I")
    p.assume(tm.le(tm.num(lo), v))
    return v


def need_array(p, r, shape, oid):
    """r is an array of that shape (obligation)"""
    ok = isinstance(r, SArr) and r.ndim == len(shape)
    if not ok:
        p.ex.record(f"{p.ex.name}:{oid}", ("failed", "shape", f"result is no {len(shape)}-dimensional array but {type(r).__name__}", None), 0)
        raise PathEnd()
    p.prove(f"{p.ex.name}:{oid}", tm.band(*[tm.eq(a, b if isinstance(b, T) else tt(b)) for a, b in zip(r._shape, shape)]))
    return r


def fail(p, oid, msg):
    p.ex.record(f"{p.ex.name}:{oid}", ("failed", "run", msg, None), 0)


def expect_raises(p, oid, exc, f):
    """f must raise exc on this (feasible) path"""
    try:
        f()
    except exc:
        p.ex.record(f"{p.ex.name}:{oid}", ("proved", "nf", "", None), 0)
        return
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        if p.infeasible():
            raise PathEnd()
        p.ex.record(f"{p.ex.name}:{oid}", ("failed", "run", f"raised {type(e).__name__}: {e}", None), 0)
        return
    if p.infeasible():
        raise PathEnd()
    p.ex.record(f"{p.ex.name}:{oid}", ("failed", "run", "did not raise", None), 0)


class Frame:
    """frame condition: the arrays keep their contents"""

    def __init__(self, path, **arrs):
        self.p, self.arrs = path, {k: (a, a.copy()) for k, a in arrs.items()}

    def check(self):
        for k, (a, s) in self.arrs.items():
            idx = []
            hyp = []
            for d in a._shape:
                i = self.p.fresh("fi", "I")
                idx.append(i)
                hyp.append(tm.band(tm.le(N0, i), tm.lt(i, d)))
            x, y = a.el(*idx), s.el(*idx)
            if x is y:
                self.p.prove(f"{self.p.ex.name}:frame:{k}", tm.TRUE)
            elif a.sort == "B":
                self.p.prove(f"{self.p.ex.name}:frame:{k}", tm.implies(tm.band(*hyp), tm.band(tm.implies(x, y), tm.implies(y, x))))
            else:
                self.p.prove(f"{self.p.ex.name}:frame:{k}", tm.implies(tm.band(*hyp), tm.eq(x, y)))


def pointarr(p, name, shape, idx, v):
    """array with arbitrary contents whose element idx is the variable v"""
    idx = tuple(idx)

    def get(i):
        if all(a is b for a, b in zip(i, idx)):
            return v
        if p.ctx.entails(tm.band(*[tm.eq(a, b) for a, b in zip(i, idx)])):
            return v
        return tm.app(name, i, "R")
    return SArr.new(shape, get, "R", name)


def dterm(p, t, v):
    """symbolic partial derivative of a term (conditions of the path decide the branches)"""
    n = p.ctx.norm
    poly = n.nf(t)
    for a in _inds(poly):
        raise Unsupported(f"derivative across an undecided condition {p.ctx.ind_term(a)}")
    return p.ctx.to_term(n.diff(poly, v))


def _inds(poly):
    from ..nf import ind_atoms
    return ind_atoms(poly)


def decide_branches(p, t, limit=12):
    """case split on the conditions that remain in t (each case is a path)"""
    for _ in range(limit):
        poly = p.ctx.norm.nf(t)
        inds = [a for a in _inds(poly) if not any(x.args[0][:1] == "B" and "_" in x.args[0] for x in a.fv)]
        if not inds:
            return
        c = p.ctx.ind_term(inds[0])
        v = p.branch(c)
        p.assume(c if v else tm.bnot(c))
        p.ctx.decided[inds[0]] = 1 if v else 0
        p.ctx.norm.reset()


def instantiate(p, *idx):
    """instances of the universally quantified hypotheses at the given indices"""
    for h in list(p.ctx.hyps):
        if h.op == "forall":
            v, n, b = h.args
            for i in idx:
                rng = tm.band(tm.le(N0, i), tm.lt(i, n))
                x = tm.subst(b, {v: i})
                p.assume(x if p.ctx.entails(rng) else tm.implies(rng, x))


def value_of(p, t, limit=16):
    """follow the conditional definition of t (undecided conditions split the path)"""
    for _ in range(limit):
        if t.op == "ite":
            c = t.args[0]
            v = p.branch(c)
            p.assume(c if v else tm.bnot(c))
            t = t.args[1] if v else t.args[2]
        else:
            return t
    return t


def is_minus_inf(p, t, depth=0):
    """t is minus infinity: -inf, the logarithm of zero, or a sum of it with finite terms"""
    t = value_of(p, t)
    if t.op == "ninf" or (tm._infsign(t) == -1):
        return True
    if t.op == "fn" and t.args[0] == "log":
        a = value_of(p, t.args[1])
        return p.ctx.prove(tm.eq(a, N0))[0] == "proved"
    if t.op == "add" and depth < 4:
        k = [a for a in t.args if is_minus_inf(p, a, depth + 1)]
        rest = [a for a in t.args if a not in k]
        return len(k) >= 1 and not any(x.op == "ite" or tm._infsign(x) for x in rest)
    return False


def contract(mod, name, fn, owner=None):
    """callers of mod.name see it through fn(args by parameter name) instead of its body; a function that is gone needs no contract"""
    import inspect
    real = getattr(mod, name, None)
    if real is None:
        return
    real = getattr(real, "__wrapped__", real)
    sig = inspect.signature(real)
    want = [q for q in inspect.signature(fn).parameters]

    def stub(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        miss = [q for q in want if q not in b.arguments]
        if miss:
            raise Unsupported(f"{name} has no parameter {miss[0]}")
        return fn(**{q: b.arguments[q] for q in want})
    stub.__name__ = name
    stub.__wrapped__ = real  # signature of the real function
    setattr(mod, name, stub)
