"""Term language, canonicaliser and numeric evaluator of the pyvc verifier.

Terms are hash-consed AST nodes over the sorts R (reals), I (integers) and B
(booleans).  ``Ctx.nf`` maps a real/integer term to a canonical Laurent
polynomial over interned atoms; two terms are equal if the canonical
polynomial of their difference is zero (after clearing denominators and
splitting on the remaining conditions).  What the canonicaliser cannot settle
is translated to z3 (smt.py).
"""
from fractions import Fraction
import itertools, math

# ----------------------------------------------------------------------------
# AST
# ----------------------------------------------------------------------------


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_count = itertools.count()


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.id, t._fv = op, args, sort, next(_count), None
        _table[key] = t
    return t


def num(x, sort=None):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return mk("num", (Fraction(x),), sort or "I")
    if isinstance(x, Fraction):
        return mk("num", (x,), sort or ("I" if x.denominator == 1 else "R"))
    if isinstance(x, float):
        if x == math.inf:
            return INF
        if x == -math.inf:
            return neg(INF)
        if x != x:
            return NAN
        return mk("num", (Fraction(repr(x)),), "R")
    raise TypeError(x)


def var(name, sort="R"):
    return mk("var", (name,), sort)


def app(fname, args, sort="R"):
    return mk("app", (fname,) + tuple(args), sort)


def _isnum(t):
    return t.op == "num"


def _rs(*ts):
    return "I" if all(t.sort == "I" for t in ts) else "R"


def add(*ts):
    c = Fraction(0)
    rest = []
    for t in ts:
        if t.op == "add":
            for u in t.args:
                if _isnum(u):
                    c += u.args[0]
                else:
                    rest.append(u)
        elif _isnum(t):
            c += t.args[0]
        else:
            rest.append(t)
    s = _rs(*ts)
    if c != 0 or not rest:
        rest.append(num(c, s if c.denominator == 1 else "R"))
    if len(rest) == 1:
        return rest[0]
    return mk("add", tuple(rest), s)


def mul(*ts):
    c = Fraction(1)
    rest = []
    for t in ts:
        if t.op == "mul":
            for u in t.args:
                if _isnum(u):
                    c *= u.args[0]
                else:
                    rest.append(u)
        elif _isnum(t):
            c *= t.args[0]
        else:
            rest.append(t)
    s = _rs(*ts)
    if c == 0:
        return num(Fraction(0), s)
    if c != 1 or not rest:
        rest.insert(0, num(c, "I" if (c.denominator == 1 and s == "I") else "R"))
    if len(rest) == 1:
        return rest[0]
    return mk("mul", tuple(rest), s)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def power(b, e):
    if _isnum(e):
        ev = e.args[0]
        if ev == 0:
            return num(1)
        if ev == 1:
            return b
        if _isnum(b) and ev.denominator == 1 and abs(ev) < 400 and b.args[0] != 0:
            return num(b.args[0] ** int(ev), None)
    return mk("pow", (b, e), "R" if not (b.sort == "I" and _isnum(e) and e.args[0] >= 0 and e.args[0].denominator == 1) else "I")


def div(a, b):
    if _isnum(b) and b.args[0] != 0:
        r = mul(num(1 / b.args[0], "R"), a)
        return r
    return mul(a, power(b, num(-1)))


def fn(name, *args):
    if name == "exp" and _isnum(args[0]) and args[0].args[0] == 0:
        return num(1)
    if name == "log" and _isnum(args[0]) and args[0].args[0] == 1:
        return num(0)
    return mk("fn", (name,) + tuple(args), "R")


def sumt(v, n, body):
    """sum of body for v in [0, n)"""
    return mk("sum", (v, n, body), body.sort)


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
INF = mk("inf", (), "R")
NAN = mk("nan", (), "R")
PI = var("pi", "R")
EULER = var("euler", "R")


def btrue(b):
    return TRUE if b else FALSE


def _infsign(t):
    """+1/-1 if the term is (positive multiple of) +-infinity, else 0."""
    if t is INF:
        return 1
    if t.op == "mul" and INF in t.args:
        s = 1
        for u in t.args:
            if u is INF:
                continue
            if _isnum(u):
                s = -s if u.args[0] < 0 else s
            else:
                return None
        return s
    return 0


def lt(a, b):
    sa, sb = _infsign(a), _infsign(b)
    if sa or sb:
        if sa is None or sb is None:
            return mk("lt", (a, b), "B")
        return btrue(sa < sb)
    if _isnum(a) and _isnum(b):
        return btrue(a.args[0] < b.args[0])
    if a is b:
        return FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    sa, sb = _infsign(a), _infsign(b)
    if sa or sb:
        if sa is None or sb is None:
            return mk("le", (a, b), "B")
        return btrue(sa <= sb)
    if _isnum(a) and _isnum(b):
        return btrue(a.args[0] <= b.args[0])
    if a is b:
        return TRUE
    return mk("le", (a, b), "B")


def eq(a, b):
    if a is b:
        return TRUE
    sa, sb = _infsign(a), _infsign(b)
    if sa or sb:
        if sa is not None and sb is not None:
            return btrue(sa == sb)
    if _isnum(a) and _isnum(b):
        return btrue(a.args[0] == b.args[0])
    if a.sort == "B":
        return bor(band(a, b), band(bnot(a), bnot(b)))
    return mk("eq", (a, b), "B")


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def band(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            out.extend(t.args)
        else:
            out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(dict.fromkeys(out)), "B")


def bor(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == "or":
            out.extend(t.args)
        else:
            out.append(t)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(dict.fromkeys(out)), "B")


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return bor(band(c, a), band(bnot(c), b))
    return mk("ite", (c, a, b), _rs(a, b))


def absT(a):
    if _isnum(a):
        return num(abs(a.args[0]), a.sort)
    return ite(le(num(0), a), a, neg(a))


def forall(v, n, body):
    """forall v in [0,n): body"""
    if body is TRUE:
        return TRUE
    return mk("forall", (v, n, body), "B")


def exists(v, n, body):
    if body is FALSE:
        return FALSE
    return bnot(forall(v, n, bnot(body)))


def free_vars(t):
    if t._fv is not None:
        return t._fv
    if t.op == "var":
        r = frozenset((t,))
    elif t.op in ("num",):
        r = frozenset()
    elif t.op in ("sum", "forall"):
        v, n, b = t.args
        r = (free_vars(b) - {v}) | free_vars(n)
    else:
        r = frozenset()
        for a in t.args:
            if isinstance(a, T):
                r = r | free_vars(a)
    t._fv = r
    return r


_vcount = itertools.count()


def fresh_bound(prefix="k"):
    return var(f"{prefix}!{next(_vcount)}", "I")


def subst(t, m, memo=None):
    """Substitute variables (capture is impossible: bound names are unique,
    and a bound variable is renamed when it occurs in the substituted terms)."""
    if memo is None:
        memo = {}
    if not m:
        return t
    return _subst(t, m, memo)


def _subst(t, m, memo):
    fv = free_vars(t)
    if not any(v in fv for v in m):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "var":
        r = m.get(t, t)
    elif t.op in ("sum", "forall"):
        v, n, b = t.args
        mm = {k: x for k, x in m.items() if k is not v}
        if any(v in free_vars(x) for x in mm.values()):
            v2 = fresh_bound()
            b = _subst(b, {v: v2}, {})
            v = v2
        memo2 = memo if len(mm) == len(m) else {}
        r = mk(t.op, (v, _subst(n, m, memo), _subst(b, mm, memo2)), t.sort)
    else:
        args = tuple(_subst(a, m, memo) if isinstance(a, T) else a for a in t.args)
        r = rebuild(t, args)
    memo[t] = r
    return r


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return power(*args)
    if op == "ite":
        return ite(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "not":
        return bnot(*args)
    if op == "and":
        return band(*args)
    if op == "or":
        return bor(*args)
    if op == "fn":
        return fn(*args)
    return mk(op, args, t.sort)


def show(t, d=0):
    if d > 12:
        return "..."
    o = t.op
    if o == "num":
        return str(t.args[0])
    if o == "var":
        return t.args[0]
    if o in ("true", "false", "inf", "nan"):
        return o
    if o == "app" or o == "fn" or o == "bapp":
        return f"{t.args[0]}({', '.join(show(a, d+1) for a in t.args[1:])})"
    if o == "add":
        return "(" + " + ".join(show(a, d + 1) for a in t.args) + ")"
    if o == "mul":
        return "*".join(show(a, d + 1) for a in t.args)
    if o == "pow":
        return f"{show(t.args[0], d+1)}^({show(t.args[1], d+1)})"
    if o == "ite":
        return f"ite({', '.join(show(a, d+1) for a in t.args)})"
    if o == "sum":
        return f"Sum[{t.args[0].args[0]}<{show(t.args[1], d+1)}]({show(t.args[2], d+1)})"
    if o == "forall":
        return f"All[{t.args[0].args[0]}<{show(t.args[1], d+1)}]({show(t.args[2], d+1)})"
    s = {"lt": "<", "le": "<=", "eq": "=="}.get(o)
    if s:
        return f"({show(t.args[0], d+1)} {s} {show(t.args[1], d+1)})"
    return f"{o}({', '.join(show(a, d+1) if isinstance(a, T) else str(a) for a in t.args)})"


# ----------------------------------------------------------------------------
# Numeric evaluation (used to falsify obligations the prover cannot discharge)
# ----------------------------------------------------------------------------


class EvalError(Exception):
    pass


def neval(t, env, apps, memo=None):
    """env: var -> number; apps: callable (fname, argvalues) -> number."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = _neval(t, env, apps, memo)
    if not free_vars(t) & env.get("!bound", frozenset()):
        memo[t] = r
    return r


def _neval(t, env, apps, memo):
    o = t.op
    if o == "num":
        f = t.args[0]
        return int(f) if f.denominator == 1 else float(f)
    if o == "var":
        if t.args[0] == "pi":
            return math.pi
        if t.args[0] == "euler":
            return 0.57721566490153286
        try:
            return env[t]
        except KeyError:
            raise EvalError("unbound " + t.args[0])
    if o == "inf":
        return math.inf
    if o == "nan":
        return math.nan
    if o == "true":
        return True
    if o == "false":
        return False
    ev = lambda u: neval(u, env, apps, memo)
    if o in ("app", "bapp"):
        return apps(t.args[0], tuple(ev(a) for a in t.args[1:]))
    if o == "add":
        return sum(ev(a) for a in t.args)
    if o == "mul":
        r = 1
        for a in t.args:
            r = r * ev(a)
        return r
    if o == "pow":
        b, e = ev(t.args[0]), ev(t.args[1])
        try:
            if b == 0 and e < 0:
                raise EvalError("div0")
            r = b**e
        except (OverflowError, ZeroDivisionError):
            raise EvalError("pow")
        if isinstance(r, complex):
            raise EvalError("complex")
        return r
    if o == "ite":
        return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
    if o in ("sum", "forall"):
        v, n, b = t.args
        nn = ev(n)
        env2 = dict(env)
        env2["!bound"] = env.get("!bound", frozenset()) | {v}
        acc = 0 if o == "sum" else True
        for i in range(int(nn)):
            env2[v] = i
            x = neval(b, env2, apps, {})
            if o == "sum":
                acc = acc + x
            else:
                acc = acc and x
        return acc
    if o == "lt":
        return ev(t.args[0]) < ev(t.args[1])
    if o == "le":
        return ev(t.args[0]) <= ev(t.args[1])
    if o == "eq":
        a, b = ev(t.args[0]), ev(t.args[1])
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    if o == "not":
        return not ev(t.args[0])
    if o == "and":
        return all(ev(a) for a in t.args)
    if o == "or":
        return any(ev(a) for a in t.args)
    if o == "fn":
        return eval_fn(t.args[0], *[ev(a) for a in t.args[1:]])
    raise EvalError(o)


def eval_fn(name, *xs):
    import scipy.special as sp
    import scipy.stats as st

    try:
        x = xs[0]
        if name == "exp":
            return math.exp(x)
        if name == "log":
            if x <= 0:
                raise EvalError("log")
            return math.log(x)
        if name == "floor":
            return math.floor(x)
        if name == "cosh":
            return math.cosh(x)
        if name == "arcsinh":
            return math.asinh(x)
        if name == "digamma":
            return float(sp.digamma(x))
        if name == "trigamma":
            return float(sp.polygamma(1, x))
        if name == "gammaln":
            return float(sp.gammaln(x))
        if name == "normcdf":
            return float(st.norm.cdf(x))
        if name == "normppf":
            return float(st.norm.ppf(x))
        if name == "betacdf":
            return float(sp.betainc(xs[1], xs[2], min(max(x, 0.0), 1.0)))
        if name == "betappf":
            return float(sp.betaincinv(xs[1], xs[2], min(max(x, 0.0), 1.0)))
        if name == "gammacdf":
            return float(sp.gammainc(xs[1], max(x, 0.0)))
        if name == "gammappf":
            return float(sp.gammaincinv(xs[1], min(max(x, 0.0), 1.0)))
        if name == "tcdf":
            return float(st.t.cdf(x, xs[1]))
        if name == "tppf":
            return float(st.t.ppf(x, xs[1]))
        if name == "igcdf":
            return float(st.invgauss.cdf(x, xs[1]))
        if name == "igppf":
            return float(st.invgauss.ppf(x, xs[1]))
    except (OverflowError, ValueError, ZeroDivisionError):
        raise EvalError(name)
    raise EvalError(name)
