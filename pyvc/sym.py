"""Symbolic values, execution paths and the path explorer.

The source of /repo is executed as it stands (after the mechanical transformation of
transform.py) on these values.  A path is one choice sequence; the explorer re-executes the
body of a verification unit until every feasible choice sequence has been visited.
"""
from fractions import Fraction
import itertools, time
from . import terms as tm
from .terms import T
from .smt import Ctx, Spec


class Unsupported(Exception):
    """the source uses something outside the verified subset"""


class PathEnd(BaseException):
    """the current path is finished (loop step proved, or infeasible)"""


class Budget(BaseException):
    pass


CUR = [None]      # current Path
MERGE = []        # stack of merge explorations


def cur():
    if CUR[0] is None:
        raise Unsupported("no path")
    return CUR[0]


# -------------------------------------------------------------------------------
class SV:
    """symbolic scalar (real or integer)"""
    __slots__ = ("t",)
    __array_priority__ = 1

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<{self.t}>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbolic>"

    def __hash__(self):
        k = self.t
        if k.op == "num":
            return hash(k.args[0])
        raise Unsupported("hash of symbolic value")

    # numpy-scalar like attributes
    ndim = 0
    shape = ()
    dtype = "float64"

    def item(self):
        return self

    def copy(self):
        return self

    def squeeze(self, axis=None):
        return self

    def sum(self, *a, **k):
        return self

    def astype(self, *a, **k):
        return self

    def __float__(self):
        if self.t.op == "num":
            return float(self.t.args[0])
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.t.op == "num" and self.t.args[0].denominator == 1:
            return int(self.t.args[0])
        raise Unsupported("int() of a symbolic value")

    __index__ = __int__

    def __bool__(self):
        return bool(SB(tm.bnot(tm.eq(self.t, tm.num(0)))))

    def __iter__(self):
        raise TypeError("iteration over a 0-d value")


class SB:
    """symbolic boolean"""
    __slots__ = ("t",)
    ndim = 0
    shape = ()

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<{self.t}>"

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        t = self.t
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        if MERGE:
            return MERGE[-1].branch(t)
        return cur().branch(t)

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self


def isym(x):
    return isinstance(x, (SV, SB))


def is_scalar(x):
    return isinstance(x, (SV, SB, int, float, bool, Fraction)) or type(x).__module__ == "numpy" and getattr(x, "ndim", 1) == 0


def tt(x):
    """term of a scalar"""
    if isinstance(x, T):
        return x
    if isinstance(x, SV):
        return x.t
    if isinstance(x, SB):
        return tm.ite(x.t, tm.num(1), tm.num(0))
    if isinstance(x, bool):
        return tm.num(int(x))
    if isinstance(x, (int, float, Fraction)):
        return tm.num(x)
    if type(x).__module__ == "numpy" and getattr(x, "ndim", 1) == 0:
        return tt(x.item())
    a = getattr(x, "scalar_term", None)
    if a is not None:
        return a()
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def bt(x):
    """boolean term"""
    if isinstance(x, T):
        return x if x.sort == "B" else tm.bnot(tm.eq(x, tm.num(0)))
    if isinstance(x, SB):
        return x.t
    if isinstance(x, bool) or type(x).__name__ in ("bool_", "bool"):
        return tm.btrue(bool(x))
    if isinstance(x, SV):
        return tm.bnot(tm.eq(x.t, tm.num(0)))
    if isinstance(x, (int, float)):
        return tm.btrue(bool(x))
    a = getattr(x, "scalar_term", None)
    if a is not None:
        return bt(a())
    raise Unsupported(f"not a boolean: {type(x).__name__}")


def wrap(t):
    """value of a term: Python int/bool for integer/boolean constants, SV/SB otherwise"""
    if t.sort == "B":
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        return SB(t)
    if t.op == "num" and t.sort == "I":
        return int(t.args[0])
    if t is tm.INF:
        return float("inf")
    return SV(t)


def _arr(o):
    return hasattr(o, "_is_sarr")


def _num_ok(o):
    return is_scalar(o)


def tdiv(a, b):
    if b.op == "num" and b.args[0] == 0:
        # numpy yields inf or nan here: an unspecified value about which nothing can be shown
        return tm.app("div0", (a,), "R")
    if b is tm.INF:
        return tm.num(0)
    return tm.div(a, b)


def tpow(a, b):
    return tm.power(a, b)


def tmod(a, b):
    # a - b*floor(a/b)
    return tm.sub(a, tm.mul(b, tm.fn("floor", tm.div(a, b))))


_BIN = {
    "add": tm.add, "sub": tm.sub, "mul": tm.mul, "truediv": tdiv, "pow": tpow,
    "floordiv": lambda a, b: tm.fn("floor", tdiv(a, b)), "mod": tmod,
}
_CMP = {
    "lt": tm.lt, "le": tm.le, "gt": lambda a, b: tm.lt(b, a), "ge": lambda a, b: tm.le(b, a),
    "eq": tm.eq, "ne": lambda a, b: tm.bnot(tm.eq(a, b)),
}


def _mkbin(f):
    def op(self, o):
        if _arr(o):
            return NotImplemented
        if not _num_ok(o):
            return NotImplemented
        return wrap(f(tt(self), tt(o)))

    def rop(self, o):
        if _arr(o) or not _num_ok(o):
            return NotImplemented
        return wrap(f(tt(o), tt(self)))
    return op, rop


for _cls in (SV, SB):
    for _n, _f in _BIN.items():
        _o, _r = _mkbin(_f)
        setattr(_cls, f"__{_n}__", _o)
        setattr(_cls, f"__r{_n}__", _r)
    _cls.__neg__ = lambda self: wrap(tm.neg(tt(self)))
    _cls.__pos__ = lambda self: self
    _cls.__abs__ = lambda self: wrap(tm.absT(tt(self)))


def _mkcmp(f):
    def op(self, o):
        if _arr(o):
            return NotImplemented
        if o is None or not _num_ok(o):
            return NotImplemented
        return wrap(f(tt(self), tt(o)))
    return op


for _n, _f in _CMP.items():
    setattr(SV, f"__{_n}__", _mkcmp(_f))


def _sbeq(self, o):
    if isinstance(o, (bool, SB)) or type(o).__name__ == "bool_":
        return wrap(tm.eq(self.t, bt(o)))
    if _arr(o):
        return NotImplemented
    if not _num_ok(o):
        return False
    return wrap(tm.eq(tt(self), tt(o)))


SB.__eq__ = _sbeq
SB.__ne__ = lambda self, o: wrap(tm.bnot(bt(_sbeq(self, o))))
for _n in ("lt", "le", "gt", "ge"):
    setattr(SB, f"__{_n}__", _mkcmp(_CMP[_n]))
SB.__and__ = SB.__rand__ = lambda self, o: NotImplemented if _arr(o) else wrap(tm.band(self.t, bt(o)))
SB.__or__ = SB.__ror__ = lambda self, o: NotImplemented if _arr(o) else wrap(tm.bor(self.t, bt(o)))
SB.__xor__ = SB.__rxor__ = lambda self, o: NotImplemented if _arr(o) else wrap(tm.bnot(tm.eq(self.t, bt(o))))
SB.__invert__ = lambda self: wrap(tm.bnot(self.t))


# -------------------------------------------------------------------------------
class Merge:
    """local exploration of a pure scalar function; result is an ite tree"""

    def __init__(self):
        self.prefix = []
        self.pos = 0
        self.conds = []

    def branch(self, t):
        for c, v in self.conds:
            if c is t:
                return v
            if c is tm.bnot(t):
                return not v
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.prefix.append(True)
        self.pos += 1
        self.conds.append((t, v))
        return v


def merge_call(f, args, limit=64):
    """ite-merged result term of f over all its branches"""
    m = Merge()
    results = []
    for _ in range(limit):
        m.pos = 0
        m.conds = []
        MERGE.append(m)
        try:
            r = f(*args)
        finally:
            MERGE.pop()
        results.append((list(m.conds), r))
        m.prefix = m.prefix[: m.pos]
        while m.prefix and m.prefix[-1] is False:
            m.prefix.pop()
        if not m.prefix:
            break
        m.prefix[-1] = False
    else:
        raise Unsupported("too many branches in a merged function")

    def build(rs, d):
        if len(rs) == 1 and len(rs[0][0]) == d:
            r = rs[0][1]
            if isinstance(r, (SB, bool)):
                return bt(r)
            return tt(r)
        c = rs[0][0][d][0]
        yes = [x for x in rs if x[0][d][1]]
        no = [x for x in rs if not x[0][d][1]]
        return tm.ite(c, build(yes, d + 1), build(no, d + 1))
    return build(results, 0)


# -------------------------------------------------------------------------------
_HS = {}


def has_sum(t):
    r = _HS.get(t)
    if r is None:
        r = t.op == "sum" or any(isinstance(a, T) and has_sum(a) for a in t.args)
        _HS[t] = r
    return r


class Path:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.trace = []
        self.spec = ex.spec_factory()
        self.ctx = Ctx(self.spec)
        self.n = 0
        self.havoc = False
        self.invs = {}
        self.stamp = 0
        self.loopstack = []
        self.ghost = {}
        self.known = {}
        self.symbols = 0

    def fresh(self, hint="v", sort="R", sign=None):
        self.n += 1
        nm = f"{hint}#{self.n}"
        if sign:
            self.spec.varsigns[nm] = sign
            self.log(nm)
        return tm.var(nm, sort)

    def freshname(self, hint="f"):
        self.n += 1
        nm = f"{hint}#{self.n}"
        self.log(nm)
        return nm

    def log(self, nm):
        """symbols that can carry axioms: two paths share a solver result only if they made the same ones after the same choices"""
        self.symbols = hash((self.symbols, nm, tuple(c for c, _ in self.trace)))

    def choose(self, n):
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
        self.trace.append((c, n))
        return c

    def branch(self, t):
        k = self.known.get(t)
        if k is not None:
            return k
        if self.ghost.get("opaque") and has_sum(t):
            # both directions are explored and nothing is assumed about the condition; parts without sums are decided as usual
            if t.op == "not":
                return not self.branch(t.args[0])
            if t.op in ("and", "or"):
                v = t.op == "and"
                for a in sorted(t.args, key=has_sum):
                    if self.branch(a) != v:
                        v = not v
                        break
                self.known[t] = v
                self.known[tm.bnot(t)] = not v
                return v
            v = self.choose(2) == 0
            self.known[t] = v
            self.known[tm.bnot(t)] = not v
            return v
        p = self.ctx.norm.cnf(t).const()
        if p is not None:
            return bool(p)
        key = (tuple(h.id for h in self.ctx.hyps), t.id, self.symbols)
        r = self.ex.memo.get(key)
        if r is None:
            if not self.ctx.feasible(tm.bnot(t)):
                r = "T"
            elif not self.ctx.feasible(t):
                r = "F"
            else:
                r = "?"
            self.ex.memo[key] = r
        if r != "?":
            return r == "T"
        c = self.choose(2)
        v = c == 0
        self.assume(t if v else tm.bnot(t))
        self.known[t] = v
        return v

    def assume(self, t):
        if t is tm.TRUE:
            return
        if t is tm.FALSE:
            raise PathEnd()
        self.ctx.add_hyp(t)

    def infeasible(self):
        return self.ctx.check([], 3000)[0] == "unsat"

    # obligations -----------------------------------------------------------------
    def prove(self, oid, goal, replay=None, use=True, function=None):
        """one obligation; the result is accumulated over all paths under its id"""
        t0 = time.time()
        if goal is True:
            goal = tm.TRUE
        if isinstance(goal, SB):
            goal = goal.t
        ex = self.ex
        key = (oid, tuple(h.id for h in self.ctx.hyps), goal.id, self.havoc, self.symbols)
        if key in ex.done:
            r = ex.done[key]
        else:
            try:
                st, be = self.ctx.prove(goal)
            except Unsupported:
                raise
            except RecursionError:
                st, be = "failed", "recursion"
            detail = ""
            if st == "proved":
                r = ("proved", be, "", None)
            else:
                detail = f"goal {str(goal)[:600]} not discharged ({be})"
                fs, inst = "survived", None
                try:
                    fs, inst = self.ctx.falsify(goal, seed=ex.seed, rtol=1e-4)
                except (Unsupported, RecursionError, KeyError, TypeError, IndexError) as e:
                    fs, inst = "nosample", str(e)
                if fs == "refuted":
                    detail = f"false at {dict(list(inst.items())[:14])}: {str(goal)[:500]}"
                    r = ("refuted", "sample", detail, inst)
                else:
                    r = ("failed" if be in ("sat", "shape") else "unknown", be, detail + f" [{fs} {inst}]", None)
            ex.done[key] = r
        ex.record(oid, r, time.time() - t0, function, replay)
        if use and r[0] == "proved":
            self.known_fact(goal)
        return r[0] == "proved"

    def known_fact(self, goal):
        pass

    def prove_eq(self, oid, a, b, **k):
        return self.prove(oid, tm.eq(tt(a), tt(b)), **k)


class Restart(BaseException):
    """the frame of a loop grew: explore the unit again"""


class Explorer:
    def __init__(self, name, body, spec_factory=Spec, seed=1, max_paths=400, deadline=None):
        self.name, self.body, self.spec_factory, self.seed = name, body, spec_factory, seed
        self.max_paths = max_paths
        self.deadline = deadline
        self.memo = {}
        self.done = {}
        self.obl = {}
        self.paths = 0
        self.reach = 0
        self.auto = {}
        self.queries = {}
        self.notify = None

    def record(self, oid, r, dt, function=None, replay=None):
        o = self.obl.get(oid)
        if o is None:
            o = self.obl[oid] = {"id": oid, "function": function or self.name, "status": "proved", "backend": "nf", "time": 0.0, "detail": "", "instances": 0}
        o["instances"] += 1
        o["time"] += dt
        rank = {"proved": 0, "unsupported": 1, "unknown": 2, "failed": 3, "refuted": 4}
        if r[0] == "proved" and r[1] == "z3" and o["status"] == "proved":
            o["backend"] = "nf+z3"
        if rank[r[0]] > rank[o["status"]]:
            o["status"], o["backend"], o["detail"] = r[0], r[1], r[2]
            if r[3] is not None and replay is not None:
                try:
                    o["replay"] = replay(r[3])
                except Exception as e:
                    o["replay_error"] = repr(e)
            if self.notify and r[0] in ("failed", "refuted"):
                self.notify(o)

    def run(self):
        work = [[]]
        while work:
            prefix = work.pop()
            if self.paths >= self.max_paths:
                self.record(f"{self.name}:explore", ("unknown", "-", f"more than {self.max_paths} paths", None), 0)
                break
            if self.deadline and time.time() > self.deadline:
                self.record(f"{self.name}:explore", ("unknown", "-", "time budget", None), 0)
                break
            self.paths += 1
            tm._vcount = itertools.count()
            p = Path(self, prefix)
            CUR[0] = p
            try:
                self.body(p)
                self.reach += 1
            except PathEnd:
                pass
            except Restart:
                if self.notify:
                    self.notify(None)
                self.obl.clear()
                self.done.clear()
                self.memo.clear()
                self.queries.clear()
                self.reach = 0
                work = [[]]
                CUR[0] = None
                continue
            except Unsupported as e:
                if not p.infeasible():
                    self.record(f"{self.name}:supported", ("unsupported", "-", f"{e}", None), 0)
            except Budget:
                raise
            except Exception as e:
                import traceback
                if not p.infeasible():
                    self.record(f"{self.name}:supported", ("unsupported", "-", f"{type(e).__name__}: {e} @ {traceback.format_exc()[-1200:]}", None), 0)
            finally:
                CUR[0] = None
                MERGE.clear()
            for i in range(len(p.trace) - 1, len(prefix) - 1, -1):
                c, n = p.trace[i]
                for alt in range(n - 1, c, -1):
                    work.append([x for x, _ in p.trace[:i]] + [alt])
        return self.obl
