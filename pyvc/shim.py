"""Loads the package's modules for symbolic execution: transformed source, stand-in imports, loop rule."""
import builtins, os, sys, types
from fractions import Fraction
from . import terms as tm
from .terms import T
from .sym import (Restart, SV, SB, Unsupported, PathEnd, tt, bt, wrap, cur, is_scalar, isym, MERGE, merge_call, CUR)
from .arr import SArr, N0, N1, elementwise, cdim, dim_eq, ent, dimt
from .npshim import NP, asarray
from . import npshim
from .scipyshim import Scipy
from .transform import transform

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


# -- sequences ------------------------------------------------------------------------------------
class Seq:
    """sequence of symbolic length"""

    def __init__(self, n, get):
        self.n, self.get = n, get

    def _seq(self):
        return self

    def __iter__(self):
        c = cdim(self.n)
        if c is None:
            raise Unsupported("iteration over a sequence of symbolic length")
        return iter([self.get(tm.num(i)) for i in range(c)])

    def __len__(self):
        c = cdim(self.n)
        if c is None:
            raise Unsupported("len")
        return c


def seq_of(x):
    """Seq for symbolic-length iterables, None for concrete ones"""
    if isinstance(x, Seq):
        return x if cdim(x.n) is None else None
    if isinstance(x, SArr):
        if cdim(x._shape[0]) is None:
            return Seq(x._shape[0], lambda k: x[SV(k)] if k.op != "num" else x[int(k.args[0])])
        return None
    return None


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    if any(not (isinstance(x, (int, SV))) for x in a):
        a = tuple(x.item() if type(x).__module__ == "numpy" else x for x in a)
    ts = [tt(x) for x in a]
    lo, hi, st = (N0, ts[0], N1) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else N1)
    if st.op != "num" or st.args[0] not in (1, -1):
        raise Unsupported("range step")
    d = tm.sub(hi, lo) if st.args[0] == 1 else tm.sub(lo, hi)
    if lo is N0 and st.args[0] == 1:
        d = hi
    p = cur()
    d = p.ctx.to_term(p.ctx.norm.nf(d), "I") if d.op != "var" else d
    n = d if ent(tm.le(N0, d)) else tm.ite(tm.le(N0, d), d, N0)
    if d.op == "num":
        n = tm.num(max(int(d.args[0]), 0))
    if st.args[0] == 1:
        return Seq(n, lambda k: wrap(tm.add(lo, k)) if lo is not N0 else wrap(k))
    return Seq(n, lambda k: wrap(tm.sub(lo, k)))


def b_enumerate(x, start=0):
    s = seq_of(x)
    if s is None:
        return builtins.enumerate(x, start)
    return Seq(s.n, lambda k: (wrap(tm.add(k, tt(start))) if start else wrap(k), s.get(k)))


def b_zip(*xs, strict=False):
    ss = [seq_of(x) for x in xs]
    if all(s is None for s in ss):
        return builtins.zip(*xs, strict=strict)
    if any(s is None for s in ss):
        raise Unsupported("zip of symbolic and concrete lengths")
    for s in ss[1:]:
        if not dim_eq(s.n, ss[0].n):
            raise Unsupported("zip lengths")
    return Seq(ss[0].n, lambda k: tuple(s.get(k) for s in ss))


def b_reversed(x):
    s = seq_of(x)
    if s is None:
        return builtins.reversed(x) if not isinstance(x, SArr) else builtins.reversed(list(x))
    return Seq(s.n, lambda k: s.get(tm.sub(s.n, tm.add(k, N1))))


def b_len(x):
    if isinstance(x, SArr):
        return x.slen()
    if isinstance(x, Seq):
        return wrap(x.n)
    return builtins.len(x)


def _mm(name, better):
    real = getattr(builtins, name)

    def f(*a, **k):
        xs = a[0] if len(a) == 1 else a
        if isinstance(xs, SArr):
            return getattr(npshim, name)(xs)
        xs = list(xs)
        if k or not any(isym(x) or isinstance(x, SArr) for x in xs):
            return real(*a, **k)
        r = xs[0]
        for x in xs[1:]:
            r = wrap(tm.ite(better(tt(x), tt(r)), tt(x), tt(r)))
        return r
    return f


b_max = _mm("max", lambda a, b: tm.lt(b, a))
b_min = _mm("min", lambda a, b: tm.lt(a, b))


def b_sum(x, start=0):
    if isinstance(x, SArr):
        return npshim.sum(x, axis=0) + start
    return builtins.sum(x, start)


class _NumMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, cls._real) if isinstance(c, type) else False

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return builtins.hash(cls._real)


class b_float(metaclass=_NumMeta):
    _real = builtins.float
    _check = staticmethod(lambda x: builtins.isinstance(x, builtins.float) or builtins.isinstance(x, SV) and x.t.sort == "R")

    @staticmethod
    def _conv(x=0.0):
        if isinstance(x, (SV, SB)):
            return wrap(tt(x)) if not (isinstance(x, SV)) else x
        if isinstance(x, SArr):
            return wrap(x.scalar_term())
        if isinstance(x, int):
            return x
        return builtins.float(x)


class b_int(metaclass=_NumMeta):
    _real = builtins.int
    _check = staticmethod(lambda x: builtins.isinstance(x, builtins.int) or builtins.isinstance(x, SV) and x.t.sort == "I")

    @staticmethod
    def _conv(x=0, *a):
        if isinstance(x, SV):
            if x.t.sort == "I":
                return x
            raise Unsupported("int() of a real")
        if isinstance(x, SB):
            return wrap(tt(x))
        if isinstance(x, SArr):
            return b_int(wrap(x.scalar_term()))
        return builtins.int(x, *a)


class b_bool(metaclass=_NumMeta):
    _real = builtins.bool
    _check = staticmethod(lambda x: builtins.isinstance(x, (builtins.bool, SB)))

    @staticmethod
    def _conv(x=False):
        if isinstance(x, SB):
            return x
        if isinstance(x, SV):
            return wrap(bt(x))
        return builtins.bool(x)


b_float.__name__, b_int.__name__, b_bool.__name__ = "float", "int", "bool"


def b_isinstance(x, c):
    if isinstance(c, types.UnionType):
        c = c.__args__
    if isinstance(c, tuple):
        return any(b_isinstance(x, k) for k in c)
    if c is builtins.float:
        c = b_float
    if c is builtins.int:
        c = b_int
    if c is builtins.bool:
        c = b_bool
    import numbers
    if c in (numbers.Real, numbers.Number):
        return isinstance(x, (int, float, SV, Fraction))
    if c is numbers.Integral:
        return b_isinstance(x, b_int)
    if isinstance(c, (npshim.DType, _Unsup)):
        return False
    return builtins.isinstance(x, c)


def b_abs(x):
    return abs(x)


def b_round(x, *a):
    raise Unsupported("round")


def b_print(*a, **k):
    pass


# -- loops ---------------------------------------------------------------------------------------
class Unbound:
    def __repr__(self):
        return "<unbound>"

    def __getattr__(self, n):
        raise Unsupported("use of a variable that the loop may not have bound")

    def _u(self, *a, **k):
        raise Unsupported("use of a variable that the loop may not have bound")
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __call__ = __bool__ = __iter__ = __getitem__ = __lt__ = __gt__ = __eq__ = _u
    __hash__ = object.__hash__


UNBOUND = Unbound()


class Inv:
    """loop contract.
    inv(k, env, L) -> [(label, goal term)]     holds before iteration k (k terms of sort I)
    havoc: {name: f(path, old, env) -> value}  how a rebound variable is made arbitrary
    modifies: names of arrays written in place
    attrs: [(object name, attribute)] rebound in the body
    sorts: {name: 'I'} variables that stay integers
    """

    def __init__(self, inv, havoc=None, modifies=(), attrs=(), sorts=None, keep=(), name=None, dicts=(), arrays=None, defs=None, facts=None, peel=False, onhavoc=None, onend=None, cands=None, cfacts=None):
        self.inv, self.havoc, self.attrs = inv, havoc or {}, attrs if callable(attrs) else tuple(attrs)
        # modifies: names, or a function of the environment that yields them
        # "auto": whatever the body is seen to write (found by running it; the exploration restarts when the frame grows)
        self.modifies = modifies if callable(modifies) or modifies == "auto" else tuple(modifies)
        # arrays(env, L) -> {name: E}, E(k, idx) -> (condition, term): before iteration k the entry idx equals term where condition
        self.arrays = arrays
        # defs(k) -> {(object name, attribute) or variable name: value}: what the attribute or variable is before iteration k (definitional invariant)
        self.defs = defs
        # facts(k, env, L) -> {name: F}, F(idx, t) -> condition that holds before iteration k for every entry t at idx of the array
        self.facts = facts
        # peel: the first iteration runs from the real state, any later one from an arbitrary state; the code after the loop continues from the end of the last iteration
        self.peel, self.onhavoc, self.onend = peel, onhavoc, onend
        # cands(k) -> {label: value}, cfacts(k) -> {label: goal}: candidates for what holds before iteration k >= 1 (peel only);
        # those that some iteration does not establish are dropped and the exploration restarts
        self.cands, self.cfacts = cands, cfacts
        self.sorts = sorts or {}
        self.keep = tuple(keep)
        self.name = name
        self.dicts = tuple(dicts)


def fresh_like(p, old, hint, sort=None):
    if isinstance(old, SArr):
        nm = p.freshname(hint)
        s = old.sort
        if s != "R":
            p.spec.appsort[nm] = s
        return SArr.new(old._shape, (lambda i: tm.app(nm, i, s)) if s != "B" else (lambda i: tm.mk("bapp", (nm,) + tuple(i), "B")), s)
    if isinstance(old, (bool, SB)):
        nm = p.freshname(hint)
        p.spec.appsort[nm] = "B"
        return SB(tm.mk("bapp", (nm,), "B"))
    if isinstance(old, (int, float, SV)):
        return SV(p.fresh(hint, sort or "R"))
    raise Unsupported(f"cannot havoc {hint} of type {type(old).__name__}")


def _same(a, b):
    if a is b and a is not None:
        return True
    return isinstance(a, SV) and isinstance(b, SV) and a.t is b.t


class Loop:
    def __init__(self, q, k, seq, names, inv, path):
        self.q, self.id, self.seq, self.names, self.c, self.path = q, f"{q}#{k}", seq, names, inv, path
        self.phase = 0
        self.havoc = False
        self.state = None
        self.item = None
        self.n = seq.n if seq is not None else None
        self.k = None
        self.pushed = False

    def _goals(self, k, env):
        return self.c.inv(k, env, self)

    def next(self, env):
        p = self.path
        if self.phase == 0:
            self.entry = dict(env)
            self.modifies = tuple(self.c.modifies(env, self)) if callable(self.c.modifies) else self.c.modifies
            if self.modifies == "auto":
                self.modifies = tuple(sorted(p.ex.auto.get(self.id, ())))
            self.attrs = tuple(self.c.attrs(env, self)) if callable(self.c.attrs) else self.c.attrs
            self.adef = self.c.arrays(env, self) if self.c.arrays else {}
            self.tied = {key: getattr(env[key[0]], key[1], None) for key in (self.c.defs(N0) if self.c.defs else ()) if isinstance(key, tuple)}
            self._prove_arrays("entry", N0, env)
            self._prove_defs("entry", N0, env)
            self._prove_facts("entry", N0, env)
            self.entry_at = {n: env[n].snapshot() for n in self.modifies if isinstance(env.get(n), SArr)}
            for lab, g in self._goals(N0, env):
                p.prove(f"{self.id}:entry:{lab}", g, function=self.q)
            if self.n is not None and p.ctx.entails(tm.eq(self.n, N0)):
                self.phase = 2
                return False
            if self.c.peel:
                if self.n is not None and not p.ctx.entails(tm.lt(N0, self.n)):
                    if not p.branch(tm.lt(N0, self.n)):
                        self.phase = 2
                        return False
                if p.choose(2) == 0:
                    self.k = N0
                    self.phase = 1
                    self.okwrites = None
                    self.dsnap = None
                    p.ghost["k"] = N0
                    if self.seq is not None:
                        self.item = self.seq.get(N0)
                    return True
            kind = 0 if self.n is None or self.c.peel else p.choose(2)
            p.havoc = True
            p.stamp += 1
            self.stamp = p.stamp
            self._do_havoc(env)
            henv = dict(env)
            henv.update(zip(self.names, self.state))
            if kind == 1:
                if not p.ctx.entails(tm.le(N0, self.n)):
                    p.assume(tm.le(N0, self.n))
                self.k = self.n
                self._define(self.n, henv)
                for lab, g in self._goals(self.n, henv):
                    p.assume(g)
                self.phase = 2
                self.havoc = True
                return False
            k = p.fresh("it", "I")
            p.assume(tm.le(N1 if self.c.peel else N0, k))
            p.ghost["k"] = k
            if self.n is not None:
                p.assume(tm.lt(k, self.n))
            self.k = k
            self._define(k, henv)
            if self.c.peel:
                self._assume_candidates(k, henv)
            if self.c.onhavoc:
                self.c.onhavoc(k, henv, self)
            for lab, g in self._goals(k, henv):
                p.assume(g)
            if p.ctx.check([], 2000)[0] == "unsat":
                raise PathEnd()
            self.henv = henv
            self.pre_at = {n: henv[n].snapshot() for n in self.modifies if "." not in n}
            self.dsnap = self._dicts(env)
            self.phase = 1
            self.havoc = True
            p.loopstack.append(self)
            self.pushed = True
            self.allowed = [b for b in self.modbufs]
            self.nwrites = len(p.ghost.setdefault("writes", []))
            self.okwrites = {(id(env[o]), at) for o, at in list(self.attrs) + [x for x in (self._defs(k) if self.c.defs else ()) if isinstance(x, tuple)]}
            self.born = set()
            if self.seq is not None:
                self.item = self.seq.get(k)
            return True
        if self.phase == 1:
            self._late(env)
            self._check_dicts()
            self._relocate(env)
            for n, old in zip(self.names, self.state or ()):
                new = env.get(n, UNBOUND)
                if isinstance(old, SArr):
                    if not isinstance(new, SArr) or new.ndim != old.ndim or not all(dim_eq(a, b) for a, b in zip(new._shape, old._shape)):
                        raise Unsupported(f"loop variable {n} changes shape")
                if n in self.c.sorts and self.c.sorts[n] == "I" and not (isinstance(new, int) or isinstance(new, SV) and new.t.sort == "I"):
                    raise Unsupported(f"loop variable {n} is no integer")
            for w in p.ghost["writes"][self.nwrites:] if self.okwrites is not None else ():
                if w[:2] not in self.okwrites and w[0] not in p.ghost.get("loopborn", ()):
                    raise Unsupported(f"the loop sets attribute {w[1]} outside its frame")
            self._prove_arrays("step", tm.add(self.k, N1), env)
            self._prove_defs("step", tm.add(self.k, N1), env)
            self._prove_facts("step", tm.add(self.k, N1), env)
            for lab, g in self._goals(tm.add(self.k, N1), env):
                p.prove(f"{self.id}:step:{lab}", g, function=self.q)
            self._candidates(env)
            if self.c.onend:
                self.c.onend(self.k, env, self)
            p.ex.reach += 1
            if self.c.peel and self.n is not None and p.branch(tm.eq(tm.add(self.k, N1), self.n)):
                self.phase = 2
                self.havoc = False
                return False
            raise PathEnd()
        self.havoc = False
        return False

    def _dicts(self, env):
        """shallow copies of the mappings that the loop can reach"""
        out = []
        for n, v in list(env.items()):
            if isinstance(v, dict):
                out.append((n, v, dict(v)))
            elif isinstance(v, BaseEstimator):
                for a, d in list(vars(v).items()):
                    if isinstance(d, dict):
                        out.append((f"{n}.{a}", d, dict(d)))
        return out

    def _check_dicts(self):
        """the mappings are part of the loop's frame: entries that the body writes are made arbitrary (the exploration restarts when the frame grows)"""
        for n, d, old in self.dsnap or ():
            for key in list(d) + list(old):
                if d.get(key, self) is not old.get(key, self):
                    known = self.path.ex.auto.setdefault(self.id + ":dict", set())
                    if (n, key) not in known:
                        known.add((n, key))
                        raise Restart()

    def _candidates(self, env):
        """drop the candidates that the end of this iteration does not establish"""
        p, c = self.path, self.c
        k = tm.add(self.k, N1)
        if c.cands:
            st = p.ex.auto.setdefault(self.id + ":cand", {})
            val = c.cands(k)
            drop = False
            for n in self.names:
                if n not in st:
                    if self.k is not N0:
                        continue
                    v = env.get(n)
                    st[n] = list(val) if isinstance(v, (int, float, SV)) and not isinstance(v, bool) else []
                    first = True
                else:
                    first = False
                good = []
                for lab in st[n]:
                    v = env.get(n)
                    if isinstance(v, (int, float, SV)) and not isinstance(v, bool) and p.ctx.prove(tm.eq(tt(v), val[lab]))[0] == "proved":
                        good.append(lab)
                if len(good) < len(st[n]):
                    st[n] = good
                    drop = drop or not first
            if drop:
                raise Restart()
        if c.cfacts:
            val = c.cfacts(k)
            st = p.ex.auto.setdefault(self.id + ":cfact", list(val))
            for lab in list(st):
                if p.ctx.prove(val[lab])[0] != "proved":
                    st.remove(lab)
                    raise Restart()

    def _assume_candidates(self, k, henv):
        p, c = self.path, self.c
        if c.cands:
            val = c.cands(k)
            for n, labs in p.ex.auto.get(self.id + ":cand", {}).items():
                if labs and n in self.names:
                    j = self.names.index(n)
                    v = wrap(val[labs[0]])
                    self.state = self.state[:j] + (v,) + self.state[j + 1:]
                    henv[n] = v
                    for l in labs[1:]:
                        p.assume(tm.eq(val[l], val[labs[0]]))
        if c.cfacts:
            val = c.cfacts(k)
            for lab in p.ex.auto.get(self.id + ":cfact", ()):
                p.assume(val[lab])

    def _late(self, env):
        """shapes of the variables that are unbound at entry and bound by the body"""
        if not self.c.peel:
            return
        t = self.path.ex.auto.setdefault(self.id + ":late", {})
        for n in self.names:
            if n not in self.entry and n in env and n not in t:
                v = env[n]
                if isinstance(v, SArr):
                    t[n] = SArr.new(v._shape, lambda i: N0, v.sort)
                elif v is None or isinstance(v, (SB, bool)):
                    t[n] = v
                elif isinstance(v, (int, float, SV)):
                    t[n] = SV(tm.num(0, tt(v).sort) if isinstance(v, SV) else tm.num(v))

    def _prove_arrays(self, what, k, env):
        p = self.path
        for n, E in self.adef.items():
            a = env[n]
            alts = E
            if isinstance(E, list):
                # alternatives: the first one that every iteration establishes; if there is none, the first stays as the obligation
                at = p.ex.auto.setdefault(self.id + ":alt", {})
                E = alts[at.get(n, 0) % len(alts)]
            idx = [p.fresh("ai", "I") for _ in a._shape]
            rng = tm.band(*[tm.band(tm.le(N0, i), tm.lt(i, d)) for i, d in zip(idx, a._shape)])
            c = p.ctx
            old = list(c.hyps)
            sub = p.ctx.child()
            sub.add_hyp(rng)
            p.ctx = sub
            try:
                cond, t = E(k, tuple(idx))
                if isinstance(alts, list) and at.get(n, 0) < len(alts) and p.ctx.prove(tm.implies(cond, tm.eq(a.el(*idx), t)))[0] != "proved":
                    at[n] = at.get(n, 0) + 1
                    raise Restart()
                p.prove(f"{self.id}:{what}:{n if len(self.adef) > 1 else 'array'}", tm.implies(cond, tm.eq(a.el(*idx), t)), function=self.q)
            finally:
                p.ctx = c

    def _defs(self, k):
        """the definitions, carried by a local variable where the loop keeps the attribute's value in one (found by running the body)"""
        rel = self.path.ex.auto.get(self.id + ":reloc", {})
        return {rel.get(key, key): v for key, v in self.c.defs(k).items() if rel.get(key, key) is not None}

    def _relocate(self, env):
        """an attribute that the body never sets needs no definition: its value is kept in a local variable that had that value before the loop, or it does not change"""
        if not self.c.defs or self.okwrites is None:
            return
        p = self.path
        rel = p.ex.auto.setdefault(self.id + ":reloc", {})
        wr = {w[:2] for w in p.ghost["writes"][self.nwrites:]}
        new = {}
        for key in self.c.defs(self.k):
            if isinstance(key, tuple) and key not in rel and (id(env[key[0]]), key[1]) not in wr:
                old = self.tied.get(key)
                new[key] = next((n for n in self.names if n in self.entry and _same(self.entry[n], old) and n not in rel.values()), None)
        if new:
            rel.update(new)
            raise Restart()

    def _prove_defs(self, what, k, env):
        if not self.c.defs:
            return
        p = self.path
        for key, want in self._defs(k).items():
            have = getattr(env[key[0]], key[1]) if isinstance(key, tuple) else env[key]
            nm = f"{self.id}:{what}:{key if isinstance(key, str) else key[1]}"
            if isinstance(want, SArr):
                if not isinstance(have, SArr) or have.ndim != want.ndim or not all(dim_eq(a, b) for a, b in zip(have._shape, want._shape)):
                    raise Unsupported(f"{nm}: shape")
                idx = [p.fresh("di", "I") for _ in want._shape]
                rng = tm.band(*[tm.band(tm.le(N0, i), tm.lt(i, d)) for i, d in zip(idx, want._shape)])
                p.prove(nm, tm.implies(rng, tm.eq(have.el(*idx), want.el(*idx))), function=self.q)
            else:
                p.prove(nm, tm.eq(tt(have), tt(want)), function=self.q)

    def _prove_facts(self, what, k, env):
        if not self.c.facts:
            return
        p = self.path
        for n, F in self.c.facts(k, env, self).items():
            a = env[n]
            idx = tuple(p.fresh("xi", "I") for _ in a._shape)
            rng = tm.band(*[tm.band(tm.le(N0, i), tm.lt(i, d)) for i, d in zip(idx, a._shape)])
            p.prove(f"{self.id}:{what}:{n}:facts", tm.implies(rng, F(idx, a.el(*idx))), function=self.q)

    def _define(self, k, henv):
        if self.c.facts:
            for n, F in self.c.facts(k, henv, self).items():
                a = henv[n]
                t = a.el(*[tm.var(f"B_f{j}", "I") for j in range(a.ndim)])
                if t.op != "app":
                    raise Unsupported("facts about an array that is not arbitrary")
                sh = a._shape
                old = self.path.spec.appaxioms.get(t.args[0])
                self.path.spec.appaxioms[t.args[0]] = lambda i, t, F=F, sh=sh, old=old: (old(i, t) if old else []) + [
                    tm.implies(tm.band(*[tm.band(tm.le(N0, x), tm.lt(x, d)) for x, d in zip(i, sh)]), F(tuple(i), t))]
        if self.c.defs:
            for key, v in self._defs(k).items():
                if isinstance(key, tuple):
                    object.__setattr__(henv[key[0]], key[1], v)
                else:
                    j = self.names.index(key)
                    self.state = self.state[:j] + (v,) + self.state[j + 1:]
                    henv[key] = v
        for n, E in self.adef.items():
            b = henv[n].buf
            g = b.get

            if isinstance(E, list):
                E = E[self.path.ex.auto.get(self.id + ":alt", {}).get(n, 0) % len(E)]

            def get(i, g=g, E=E):
                cond, t = E(k, tuple(i))
                return tm.ite(cond, t, g(i))
            b.get = get

    def _do_havoc(self, env):
        p = self.path
        st = []
        for n in self.names:
            old = env.get(n, UNBOUND)
            if n in self.c.havoc:
                st.append(self.c.havoc[n](p, old, env))
            elif n in self.c.keep or old is UNBOUND or n not in env:
                late = p.ex.auto.get(self.id + ":late", {})
                if self.c.peel and n in late and n not in self.c.keep:
                    st.append(None if late[n] is None else fresh_like(p, late[n], n, late[n].t.sort if isinstance(late[n], SV) else None))
                else:
                    st.append(old if n in self.c.keep else UNBOUND)
            elif old is None:
                st.append(None)
            elif isinstance(old, str):
                st.append(UNBOUND)
            else:
                st.append(fresh_like(p, old, n, self.c.sorts.get(n)))
        self.state = tuple(st)
        self.modbufs = []
        for n in self.modifies:
            a = env[n] if "." not in n else getattr(env[n.split(".")[0]], n.split(".")[1])
            if n in self.names:
                a = self.state[self.names.index(n)]
            if not isinstance(a, SArr):
                raise Unsupported("modifies clause names no array")
            f = fresh_like(p, SArr.new(a.buf.shape, lambda i: N0, a.buf.sort), n)
            a.buf.get = f.buf.get
            self.modbufs.append(a.buf)
        for o, at in self.attrs:
            ob = env[o]
            old = getattr(ob, at)
            object.__setattr__(ob, at, fresh_like(p, old, at))
        for f in self.c.dicts:
            f(p, env, self)
        for n, key in sorted(p.ex.auto.get(self.id + ":dict", ()), key=str):
            d = env.get(n) if "." not in n else getattr(env[n.split(".")[0]], n.split(".")[1])
            if key in d and d[key] is not None:
                d[key] = fresh_like(p, d[key], f"{n}[{key}]")

    def check_write(self, buf):
        for l in self.path.loopstack:
            if buf.stamp < l.stamp and buf not in l.allowed:
                if l.c.modifies == "auto":
                    own = [n for n, v in list(l.entry.items()) + list(zip(l.names, l.state)) if isinstance(v, SArr) and v.buf is buf]
                    if not own:
                        own = [f"{n}.{a}" for n, v in l.entry.items() if isinstance(v, BaseEstimator) for a, x in vars(v).items() if isinstance(x, SArr) and x.buf is buf]
                    if own:
                        self.path.ex.auto.setdefault(l.id, set()).add(own[0])
                        raise Restart()
                raise Unsupported("the loop writes an array outside its frame")

    def done(self):
        if self.phase == 1:
            self._late(sys._getframe(1).f_locals)
            self._check_dicts()
        if self.pushed and self.path.loopstack and self.path.loopstack[-1] is self:
            self.path.loopstack.pop()


class ConcLoop:
    havoc = False
    state = None

    def __init__(self, it, limit=5000):
        self.it = iter(it)
        self.limit = limit

    def next(self, env):
        self.limit -= 1
        if self.limit < 0:
            raise Unsupported("loop does not end")
        try:
            self.item = next(self.it)
            return True
        except StopIteration:
            return False

    def done(self):
        pass


class WConc:
    havoc = False
    state = None
    item = None

    def __init__(self, limit=60):
        self.limit = limit

    def next(self, env):
        self.limit -= 1
        if self.limit < 0:
            raise Unsupported("while loop without a contract does not end")
        return True

    def done(self):
        pass


class PV:
    def frac(self, a, b):
        return wrap(tm.num(Fraction(a, b), "R")) if b else a / b

    def and_(self, *fs):
        acc = tm.TRUE
        sym = False
        v = True
        for f in fs:
            v = f()
            if isinstance(v, SArr):
                v = wrap(v.scalar_term())
            if isinstance(v, SB):
                sym = True
                acc = tm.band(acc, v.t)
                if acc is tm.FALSE or (not MERGE and cur().known.get(v.t) is False):
                    return False
            elif not v:
                return v if not sym else False
        return SB(acc) if sym else v

    def or_(self, *fs):
        acc = tm.FALSE
        sym = False
        v = False
        for f in fs:
            v = f()
            if isinstance(v, SArr):
                v = wrap(v.scalar_term())
            if isinstance(v, SB):
                sym = True
                acc = tm.bor(acc, v.t)
            elif v:
                return v if not sym else True
        return SB(acc) if sym else v

    def not_(self, x):
        if isinstance(x, SArr):
            x = wrap(x.scalar_term())
        if isinstance(x, SB):
            return wrap(tm.bnot(x.t))
        return not x

    def ifexp(self, c, a, b):
        if isinstance(c, SArr):
            c = wrap(c.scalar_term())
        if isinstance(c, SV):
            c = wrap(bt(c))
        if isinstance(c, SB) and not MERGE:
            if ent(c.t):
                return a()
            if ent(tm.bnot(c.t)):
                return b()
        return a() if c else b()

    def loop(self, q, k, it, names):
        p = CUR[0]
        if p is not None and not MERGE:
            s = seq_of(it)
            if s is not None:
                inv = p.invs.get((q, k)) or p.invs.get(q.split(".")[-1] + f"#{k}") or p.invs.get("for") or p.invs.get("*")
                if inv is None:
                    raise Unsupported(f"no contract for loop {k} of {q}")
                return Loop(q, k, s, names, inv, p)
        return ConcLoop(it)

    def wloop(self, q, k, names):
        p = CUR[0]
        if p is not None:
            inv = p.invs.get((q, k)) or p.invs.get(q.split(".")[-1] + f"#{k}") or p.invs.get("while")
            if inv is not None:
                return Loop(q, k, None, names, inv, p)
        return WConc()


# -- stand-in modules ---------------------------------------------------------------------------
class _Unsup:
    def __init__(self, n):
        self._n = n

    def __call__(self, *a, **k):
        raise Unsupported(self._n)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Unsup(self._n + "." + n)


class FakeMod:
    def __init__(self, nm, **k):
        self.__dict__.update(k)
        self._nm = nm

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Unsup(self._nm + "." + n)


class Vectorized:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *args):
        if not any(isinstance(a, SArr) for a in args):
            if MERGE:
                return self.f(*args)
            return wrap(merge_call(self.f, args))
        return elementwise(lambda *ts: merge_call(self.f, [wrap(t) for t in ts]), list(args), sort="R")


def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class Numba(FakeMod):
    def __init__(self):
        FakeMod.__init__(self, "numba", njit=_jit, jit=_jit, prange=b_range)

    def vectorize(self, *a, **k):
        if len(a) == 1 and callable(a[0]):
            return Vectorized(a[0])
        return Vectorized


class BaseEstimator:
    def get_params(self, deep=True):
        raise Unsupported("get_params")

    def __setattr__(self, n, v):
        p = CUR[0]
        if p is not None:
            p.ghost.setdefault("writes", []).append((id(self), n))
        object.__setattr__(self, n, v)


class _Mixin:
    pass


def validate_data(est, X="no_validation", y="no_validation", **k):
    """contract: finite numeric data keep their values, converted to float if only float dtypes are admitted; n_features_in_ is set when reset"""
    if k.get("reset", True) and isinstance(X, SArr):
        object.__setattr__(est, "n_features_in_", X.shape[1])
    dt = k.get("dtype", "numeric")
    dt = list(dt) if isinstance(dt, (list, tuple)) else [dt]
    if isinstance(X, SArr) and X.sort == "I" and dt and all(not isinstance(q, str) and npshim.kind(q) == "float" for q in dt):
        X = X.astype(float)
    p = CUR[0]
    h = p.ghost.get("validate_data") if p else None
    if h is not None:
        h(est, X, y, k)
    if y is None or (isinstance(y, str)):
        return X
    return X, y


def check_sample_weight(sample_weight=None, X=None, *a, **k):
    if sample_weight is None:
        return npshim.ones(X._shape[0])
    return sample_weight


def check_is_fitted(est, attributes=None, **k):
    p = CUR[0]
    if attributes is None:
        return
    for a in ([attributes] if isinstance(attributes, str) else attributes):
        if not hasattr(est, a):
            raise RuntimeError("NotFitted")


def _fit_context(*a, **k):
    return lambda f: f


class _C:
    def __init__(self, *a, **k):
        pass


def _mkmods():
    val = FakeMod("sklearn.utils.validation", _check_sample_weight=check_sample_weight, check_is_fitted=check_is_fitted,
                  validate_data=validate_data, _check_y=_Unsup("_check_y"))
    pval = FakeMod("sklearn.utils._param_validation", Interval=_C, StrOptions=_C, Options=_C, Hidden=_C)
    mult = FakeMod("sklearn.utils.multiclass", type_of_target=lambda y, **k: "continuous")
    tags = FakeMod("sklearn.utils")
    utils = FakeMod("sklearn.utils", validation=val, _param_validation=pval, multiclass=mult)
    base = FakeMod("sklearn.base", BaseEstimator=BaseEstimator, TransformerMixin=type("TransformerMixin", (_Mixin,), {}),
                   RegressorMixin=type("RegressorMixin", (_Mixin,), {}), _fit_context=_fit_context)
    sk = FakeMod("sklearn", base=base, utils=utils, exceptions=FakeMod("sklearn.exceptions"))
    sp = Scipy()
    return {
        "numpy": NP, "numba": Numba(), "scipy": sp, "scipy.stats": sp.stats, "scipy.special": sp.special, "scipy.optimize": sp.optimize,
        "sklearn": sk, "sklearn.base": base, "sklearn.utils": utils, "sklearn.utils.validation": val,
        "sklearn.utils._param_validation": pval, "sklearn.utils.multiclass": mult, "sklearn.exceptions": sk.exceptions,
    }


class Loader:
    PKG = "ondil"

    def __init__(self, src=None):
        self.src = src or SRC
        self.mods = {}
        self.fakes = _mkmods()
        self.files = {}
        b = dict(vars(builtins))
        b.update(range=b_range, enumerate=b_enumerate, zip=b_zip, reversed=b_reversed, len=b_len, max=b_max, min=b_min, sum=b_sum,
                 float=b_float, int=b_int, bool=b_bool, isinstance=b_isinstance, round=b_round, print=b_print, __import__=self.imp)
        self.builtins = b
        import warnings
        w = types.ModuleType("warnings")
        w.__dict__.update({k: v for k, v in vars(warnings).items() if not k.startswith("__")})
        w.warn = lambda *a, **k: None
        self.warn = w

    def path(self, name):
        base = os.path.join(self.src, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        f, pkg = self.path(name)
        if f is None:
            raise ImportError(name)
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        self.mods[name] = m
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["pv__"] = PV()
        m.__package__ = name if pkg else name.rpartition(".")[0]
        m.__file__ = f
        if pkg:
            m.__path__ = [os.path.dirname(f)]
        if parent:
            setattr(self.load(parent), name.rpartition(".")[2], m)
        if name == self.PKG:
            m.HAS_PANDAS = m.HAS_POLARS = False
            return m
        src = open(f, encoding="utf-8").read()
        self.files[name] = f
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = transform(src, name, f)
        exec(code, m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"]
            for _ in range(level - 1):
                pk = pk.rpartition(".")[0]
            full = pk + ("." + name if name else "")
        else:
            full = name
        if full == self.PKG or full.startswith(self.PKG + "."):
            m = self.load(full)
            for n in fromlist or ():
                if not hasattr(m, n) and self.path(full + "." + n)[0]:
                    self.load(full + "." + n)
            return m if fromlist else self.load(full.split(".")[0])
        if full == "warnings":
            return self.warn
        if full in ("pandas", "polars"):
            raise ImportError(full)
        top = full.split(".")[0]
        if full in self.fakes:
            return self.fakes[full] if fromlist else self.fakes[top]
        if top in ("numpy", "scipy", "sklearn", "numba"):
            raise Unsupported("import of " + full)
        return builtins.__import__(name, globals, locals, fromlist, level)
