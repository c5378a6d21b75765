"""Proof context: hypotheses, z3 back end, falsifier."""
from fractions import Fraction
import random, time, math
import z3
from . import terms as tm
from .nf import (Norm, Poly, Atom, atom, poly, pconst, patom, padd, psub, pneg, pmul, pscale,
                 ind_atoms, set_atom, ZERO, ONE, F0, F1, TooBig, ashow)

STATS = {"z3_queries": 0, "z3_time": 0.0}
QUICK_MS = 1500
PROVE_MS = 8000


class Spec:
    """Facts about uninterpreted symbols shared by all contexts of a harness."""

    def __init__(self):
        self.varsigns = {}
        self.appsigns = {}
        self.appsort = {}
        self.appaxioms = {}     # fname -> fn(argterms, appterm) -> [T]
        self.symmetric = set()
        self.inverse_pairs = {}  # frozenset({f,g}) -> dimension T
        self.samplers = {}      # var name -> fn(rng, env)
        self.appsamplers = {}   # fname -> fn(rng, args, env, apps)
        self.tables = {}        # fname -> fn(rng, env) -> callable(args)
        self.groups = []        # fn(rng, env) -> {fname: callable}
        self.sort_args = {}


class Ctx:
    def __init__(self, spec):
        self.spec = spec
        self.hyps = []
        self.subst = {}
        self.decided = {}
        self.norm = Norm(self)
        self._solver = None
        self._nsolved = 0
        self._cache = {}
        self._busy = set()
        self._trcache = {}
        self.parent = None

    def child(self):
        c = Ctx(self.spec)
        c.hyps = list(self.hyps)
        c.subst = dict(self.subst)
        c.decided = dict(self.decided)
        return c

    # -- attributes used by Norm ---------------------------------------------
    @property
    def symmetric(self):
        return self.spec.symmetric

    @property
    def appsigns(self):
        return self.spec.appsigns

    @property
    def inverse_pairs(self):
        r = getattr(self, "_ip", None)
        if r is None or r[0] != (len(self.spec.inverse_pairs), len(self.subst)):
            r = ((len(self.spec.inverse_pairs), len(self.subst)),
                 {k: self.norm.nf(v) for k, v in self.spec.inverse_pairs.items()})
            self._ip = r
        return r[1]

    def sign_of_var(self, v):
        if v is tm.PI or v is tm.EULER:
            return "+"
        return self.spec.varsigns.get(v.args[0])

    def atom_sort(self, a):
        if a.kind == "v":
            return a.data.sort
        if a.kind == "a":
            return self.spec.appsort.get(a.data[0], "R")
        if a.kind == "I":
            return "I"
        if a.kind == "f" and a.data[0] == "floor":
            return "I"
        if a.kind == "S":
            return "I" if all(self.atom_sort(x) == "I" and e.denominator == 1 and e > 0 for x, e in a.data[2]) else "R"
        return "R"

    def is_int_poly(self, p):
        for m, c in p.terms:
            if c.denominator != 1:
                return False
            for a, e in m:
                if e.denominator != 1 or e < 0 or self.atom_sort(a) != "I":
                    return False
        return True

    # -- hypotheses -------------------------------------------------------------
    def add_hyp(self, c):
        if c is tm.TRUE:
            return
        if c.op == "and":
            for x in c.args:
                self.add_hyp(x)
            return
        self.hyps.append(c)
        p = self.norm.cnf(c)
        self.decide_poly(p)
        self.norm.reset()
        self._cache.clear()

    def decide_poly(self, p):
        if len(p.terms) == 1 and p.terms[0][1] == 1:
            for a, _ in p.terms[0][0]:
                self._dec(a, 1)
        elif len(p.terms) == 2:
            d = dict(p.terms)
            if d.get(()) == 1:
                (m, c), = [(m, c) for m, c in p.terms if m]
                if c == -1 and len(m) == 1:
                    self._dec(m[0][0], 0)

    def _dec(self, a, val):
        self.decided[a] = val
        if val == 1 and a.data[0] == "eq":
            p = a.data[1]
            # solve for a variable that occurs linearly and nowhere else
            cands = []
            for m, c in p.terms:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "v":
                    v = m[0][0].data
                    if v in (tm.PI, tm.EULER):
                        continue
                    if sum(1 for m2, _ in p.terms if any(v in x.fv for x, _ in m2)) == 1:
                        if v.sort == "I" and (abs(c) != 1 or not self.is_int_poly(p)):
                            continue
                        cands.append((v, c))
            if cands:
                v, c = max(cands, key=lambda vc: vc[0].id)
                rest = poly({m: k for m, k in p.terms if not (len(m) == 1 and m[0][0].data is v and m[0][0].kind == "v")})
                self.subst[v] = self.to_term(pscale(rest, -1 / c), v.sort)

    def to_term(self, p, sort=None):
        ts = []
        for m, c in p.terms:
            fs = [tm.num(c, "I" if c.denominator == 1 else "R")]
            for a, e in m:
                fs.append(tm.power(self.atom_term(a), tm.num(e)))
            ts.append(tm.mul(*fs))
        return tm.add(*ts) if ts else tm.num(0)

    def atom_term(self, a):
        k = a.kind
        if k == "v":
            return a.data
        if k == "a":
            return tm.app(a.data[0], [self.to_term(p) for p in a.data[1]], self.spec.appsort.get(a.data[0], "R"))
        if k == "f":
            if a.data[0] == "pow":
                return tm.mk("pow", tuple(self.to_term(p) for p in a.data[1]), "R")
            return tm.fn(a.data[0], *[self.to_term(p) for p in a.data[1]])
        if k == "P":
            return self.to_term(a.data)
        if k == "E":
            return tm.fn("exp", self.to_term(poly({a.data: F1})))
        if k == "n":
            return tm.num(a.data)
        if k == "I":
            return tm.ite(self.ind_term(a), tm.num(1), tm.num(0))
        if k == "S":
            b = self.to_term(poly({a.data[2]: F1}))
            for v, n in zip(a.data[0], a.data[1]):
                b = tm.sumt(v, self.to_term(n), b)
            return b
        if k == "inf":
            return tm.INF
        if k == "nan":
            return tm.NAN
        raise NotImplementedError(k)

    def ind_term(self, a):
        d = a.data
        if d[0] == "b":
            return tm.mk("bapp", (d[1],) + tuple(self.to_term(p) for p in d[2]), "B")
        if d[0] == "all":
            return tm.forall(d[1], self.to_term(d[2]), tm.eq(self.to_term(d[3]), tm.num(1)))
        return {"le": tm.le, "lt": tm.lt, "eq": tm.eq}[d[0]](self.to_term(d[1]), tm.num(0))

    # -- z3 translation -----------------------------------------------------------
    def zpoly(self, p, tr):
        if self.is_int_poly(p):
            r = None
            for m, c in p.terms:
                t = z3.IntVal(int(c))
                for a, e in m:
                    x = self.zatom(a, tr)
                    for _ in range(int(e)):
                        t = t * x
                r = t if r is None else r + t
            return z3.IntVal(0) if r is None else r
        r = None
        for m, c in p.terms:
            t = z3.RealVal(str(c))
            for a, e in m:
                t = t * self.zpow(a, e, tr)
            es = tuple((a, e) for a, e in m if a.kind == "E")
            if es and (len(es) > 1 or es[0][1] != 1) and ("EE", es) not in tr["pow"] and all(e.denominator == 1 and abs(e) <= 6 for _, e in es):
                tr["pow"][("EE", es)] = None
                ex = ZERO
                v = z3.RealVal(1)
                for a, e in es:
                    ex = padd(ex, poly({a.data: e}))
                    v = v * self.zpow(a, e, tr)
                tr["mono"].append((self.zreal(ex, tr), v))
            r = t if r is None else r + t
        return z3.RealVal(0) if r is None else r

    def zreal(self, p, tr):
        x = self.zpoly(p, tr)
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x

    def zpow(self, a, e, tr):
        x = self.zatom(a, tr)
        if x.sort() == z3.IntSort():
            x = z3.ToReal(x)
        if e == 1:
            return x
        if e.denominator == 1 and 0 < e <= 16:
            t = x
            for _ in range(int(e) - 1):
                t = t * x
            return t
        key = ("pow", a, e)
        r = tr["pow"].get(key)
        if r is None:
            r = z3.Real(f"pw{a.id}_{str(e).replace('/', 'd').replace('-', 'm')}")
            tr["pow"][key] = r
            if e.denominator == 1 and e < 0:
                t = x
                for _ in range(int(-e) - 1):
                    t = t * x
                tr["side"].append(z3.Implies(x != 0, r * t == 1))
            elif e.denominator == 2:
                h = Fraction(1, 2)
                if e == h:
                    tr["side"].append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
                else:
                    s = self.zpow(a, h, tr)
                    n = e - h
                    other = self.zpow(a, n, tr) if n != 0 else z3.RealVal(1)
                    tr["side"].append(z3.Implies(x > 0, r == s * other))
                tr["side"].append(z3.Implies(x > 0, r > 0))
            else:
                tr["side"].append(z3.Implies(x > 0, r > 0))
        return r

    def zatom(self, a, tr):
        r = tr["atoms"].get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "v":
            r = z3.Int(a.data.args[0]) if a.data.sort == "I" else z3.Real(a.data.args[0])
            tr["atoms"][a] = r
            if a.data is tm.PI:
                tr["side"].append(z3.And(r > z3.RealVal("3.14159265358"), r < z3.RealVal("3.14159265359")))
            if a.data is tm.EULER:
                tr["side"].append(z3.And(r > z3.RealVal("0.57721566490"), r < z3.RealVal("0.57721566491")))
            s = self.spec.varsigns.get(a.data.args[0])
            if s == "+":
                tr["side"].append(r > 0)
            elif s == "0+":
                tr["side"].append(r >= 0)
            return r
        if k == "a":
            f, ps = a.data
            args = [self.zpoly(p, tr) for p in ps]
            srt = z3.IntSort() if self.spec.appsort.get(f, "R") == "I" else z3.RealSort()
            if args:
                fd = z3.Function(f + "".join("i" if x.sort() == z3.IntSort() else "r" for x in args), *[x.sort() for x in args], srt)
                r = fd(*args)
            else:
                r = z3.Const(f, srt)
            tr["atoms"][a] = r
            s = self.spec.appsigns.get(f)
            if s == "+":
                tr["side"].append(r > 0)
            elif s == "0+":
                tr["side"].append(r >= 0)
            ax = self.spec.appaxioms.get(f)
            if ax is not None and tr["axdepth"] < 3:
                tr["axdepth"] += 1
                for c in ax([self.to_term(p) for p in ps], self.atom_term(a)):
                    tr["side"].append(self.zbool(c, tr))
                tr["axdepth"] -= 1
            return r
        if k == "n":
            return z3.RealVal(a.data)
        if k == "E":
            r = z3.Real(f"E{a.id}")
            tr["atoms"][a] = r
            tr["side"].append(r > 0)
            if not (a.data):
                tr["side"].append(z3.And(r > z3.RealVal("2.718281828"), r < z3.RealVal("2.718281829")))
            tr["mono"].append((self.zreal(poly({a.data: F1}), tr), r))
            return r
        if k == "f":
            name, ps = a.data
            r = z3.Int(f"f{a.id}") if name == "floor" else z3.Real(f"f{a.id}_{name}")
            tr["atoms"][a] = r
            args = [self.zreal(p, tr) for p in ps]
            if name == "log":
                c = ps[0].const()
                if c is not None and c > 0:
                    v = math.log(c.numerator) - math.log(c.denominator)
                    tr["side"].append(z3.And(r > z3.RealVal(repr(v - 1e-10)), r < z3.RealVal(repr(v + 1e-10))))
                tr["mono"].append((r, args[0]))
            elif name == "floor":
                tr["side"].append(z3.And(z3.ToReal(r) <= args[0], args[0] < z3.ToReal(r) + 1))
            elif name == "trigamma":
                tr["side"].append(z3.Implies(args[0] > 0, z3.And(r > 0, r * args[0] * args[0] * 2 >= 2 * args[0] + 1)))
            elif name == "arcsinh":
                tr["side"].append(z3.And((args[0] > 0) == (r > 0), (args[0] == 0) == (r == 0)))
            elif name in ("normcdf", "betacdf", "gammacdf", "tcdf", "igcdf"):
                tr["side"].append(z3.And(r >= 0, r <= 1))
                if name in ("normcdf", "tcdf"):
                    tr["side"].append(z3.And(r > 0, r < 1))
                elif name == "betacdf":
                    tr["side"].append(z3.Implies(z3.And(args[0] > 0, args[0] < 1), z3.And(r > 0, r < 1)))
                else:
                    tr["side"].append(z3.Implies(args[0] > 0, z3.And(r > 0, r < 1)))
            elif name in ("betappf",):
                tr["side"].append(z3.And(r >= 0, r <= 1, z3.Implies(z3.And(args[0] > 0, args[0] < 1), z3.And(r > 0, r < 1))))
            elif name in ("gammappf", "igppf"):
                tr["side"].append(z3.And(r >= 0, z3.Implies(z3.And(args[0] > 0, args[0] < 1), r > 0)))
            return r
        if k == "P":
            return self.zreal(a.data, tr)
        if k == "I":
            return z3.If(self.zind(a, tr), z3.IntVal(1), z3.IntVal(0))
        if k == "S":
            isint = self.atom_sort(a) == "I"
            r = z3.Int(f"S{a.id}") if isint else z3.Real(f"S{a.id}")
            tr["atoms"][a] = r
            s = self.norm.asign(a)
            if s in ("+", "0+"):
                tr["side"].append(r > 0 if s == "+" else r >= 0)
            return r
        if k == "inf":
            r = z3.Real("inf!")
            tr["atoms"][a] = r
            tr["side"].append(r > z3.RealVal("1e300"))
            return r
        r = z3.Real(f"x{a.id}")
        tr["atoms"][a] = r
        return r

    def zind(self, a, tr):
        d = a.data
        if d[0] == "b":
            args = [self.zpoly(p, tr) for p in d[2]]
            if not args:
                return z3.Bool(d[1])
            fd = z3.Function(d[1] + "".join("i" if x.sort() == z3.IntSort() else "r" for x in args), *[x.sort() for x in args], z3.BoolSort())
            r = fd(*args)
            ax = self.spec.appaxioms.get(d[1])
            if ax is not None and a not in tr["bax"]:
                tr["bax"].add(a)
                for c in ax([self.to_term(p) for p in d[2]], self.ind_term(a)):
                    tr["side"].append(self.zbool(c, tr))
            return r
        if d[0] == "all":
            return z3.Bool(f"all{a.id}")
        self.logconst(d[1], tr)
        x = self.zpoly(d[1], tr)
        return {"le": x <= 0, "lt": x < 0, "eq": x == 0}[d[0]]

    def logconst(self, p, tr):
        """a combination of logarithms of constants inside a comparison takes part in the monotonicity facts"""
        K, R = {}, []
        for m, c in p.terms:
            q = None
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "f" and m[0][0].data[0] == "log":
                q = m[0][0].data[1][0].const()
            if q is not None and q > 0:
                K[m] = (c, q)
            elif m:
                R.append(abs(c))
        if ("K", p) in tr["pow"]:
            return
        lg = [(m[0][0], c) for m, c in p.terms if m not in K and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "f" and m[0][0].data[0] == "log"]
        if len(lg) > 1:
            s = min(abs(c) for _, c in lg)
            if all((c / s).denominator == 1 and abs(c / s) <= 4 for _, c in lg):
                tr["pow"][("K", p)] = None
                num_, den_, z, pos = z3.RealVal(1), z3.RealVal(1), z3.RealVal(0), []
                for qa, c in lg:
                    zq = self.zreal(qa.data[1][0], tr)
                    pos.append(zq > 0)
                    z = z + z3.RealVal(str(c / s)) * self.zatom(qa, tr)
                    for _ in range(abs(int(c / s))):
                        if c > 0:
                            num_ = num_ * zq
                        else:
                            den_ = den_ * zq
                v = z3.Real(f"lg{p.id}")
                tr["side"].append(z3.Implies(z3.And(*pos), z3.And(v > 0, v * den_ == num_)))
                tr["side"].append(z3.Implies(z3.Not(z3.And(*pos)), v == -1))
                tr["mono"].append((z, v))
        if not K or not R:
            return
        tr["pow"][("K", p)] = None
        for s in sorted(set(R))[:3]:
            if any((c / s).denominator != 1 or abs(c / s) > 60 for c, q in K.values()):
                continue
            Q = Fraction(1)
            for c, q in K.values():
                Q *= q ** int(c / s)
            z = self.zreal(poly({m: c / s for m, (c, q) in K.items()}), tr)
            tr["mono"].append((z, z3.RealVal(str(Q))))
            tr["mono"].append((-z, z3.RealVal(str(1 / Q))))

    def zbool(self, c, tr):
        o = c.op
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "not":
            return z3.Not(self.zbool(c.args[0], tr))
        if o == "and":
            return z3.And(*[self.zbool(a, tr) for a in c.args])
        if o == "or":
            return z3.Or(*[self.zbool(a, tr) for a in c.args])
        if o in ("lt", "le", "eq"):
            for x in c.args:
                s = tm._infsign(x)
                if s or s is None:
                    return self.zcond(self.norm.cnf(c), tr)
            d = psub(self.norm.nf(c.args[0]), self.norm.nf(c.args[1]))
            for m, _ in d.terms:
                if any(a.kind == "inf" for a, _e in m):
                    return self.zcond(self.norm.cnf(c), tr)
            self.logconst(d, tr)
            x = self.zpoly(d, tr)
            return {"le": x <= 0, "lt": x < 0, "eq": x == 0}[o]
        return self.zcond(self.norm.cnf(c), tr)

    def zcond(self, p, tr):
        k = p.const()
        if k is not None:
            return z3.BoolVal(bool(k))
        if len(p.terms) == 1 and p.terms[0][1] == 1:
            return z3.And(*[self.zind(a, tr) for a, _ in p.terms[0][0]])
        return self.zpoly(p, tr) == 1

    def new_tr(self):
        return {"atoms": {}, "side": [], "pow": {}, "mono": [], "axdepth": 0, "bax": set()}

    def check(self, extra, ms):
        """satisfiability of hyps + extra (list of callables tr->z3 bool)"""
        tr = self.new_tr()
        s = z3.Solver()
        s.set("timeout", ms)
        t0 = time.time()
        try:
            zs = []
            for h in self.hyps:
                if h in self._busy:  # the query arises while h itself is translated
                    continue
                self._busy.add(h)
                try:
                    zs.append(self.zbool(h, tr))
                finally:
                    self._busy.discard(h)
            zs += [e(tr) for e in extra]
        except TooBig:
            return "unknown", None
        i = 0
        done = 0
        while True:
            mon = tr["mono"]
            n = len(mon)
            for x in range(done, n):
                a, v = mon[x]
                tr["side"].append(z3.Implies(v > 0, z3.And((a > 0) == (v > 1), (a == 0) == (v == 1), v >= 1 + a)))
                for y in range(x):
                    b, w = mon[y]
                    tr["side"].append(z3.Implies(z3.And(v > 0, w > 0), z3.And((a < b) == (v < w), (a == b) == (v == w))))
            done = n
            if len(tr["mono"]) == n:
                break
        cs = zs + tr["side"]
        ab, nonlin = linearise(cs)
        if nonlin:
            # products and quotients as unknowns first: an unsatisfiable abstraction settles the query
            q = z3.Solver()
            q.set("timeout", min(ms, 2000))
            for c in ab:
                q.add(c)
            if q.check() == z3.unsat:
                STATS["z3_queries"] += 1
                STATS["z3_time"] += time.time() - t0
                return "unsat", None
        for c in cs:
            s.add(c)
        r = s.check()
        STATS["z3_queries"] += 1
        STATS["z3_time"] += time.time() - t0
        if r == z3.sat:
            return "sat", s.model()
        return ("unsat" if r == z3.unsat else "unknown"), None

    def replay(self, key, f):
        """result of a query that an earlier path asked under the same hypotheses and axioms"""
        from .sym import CUR
        p = CUR[0]
        if p is None:
            return f()
        k = (p.symbols, tuple(h.id for h in self.hyps), key)
        r = p.ex.queries.get(k)
        if r is None:
            r = p.ex.queries[k] = f()
        return r

    def feasible(self, c):
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        key = ("feas", c)
        r = self._cache.get(key)
        if r is None:
            p = self.norm.cnf(c).const()
            if p is not None:
                r = bool(p)
            else:
                r = self.replay(key, lambda: self.check([lambda tr: self.zbool(c, tr)], QUICK_MS)[0] != "unsat")
            self._cache[key] = r
        return r

    def entails(self, c, ms=QUICK_MS):
        if c is tm.TRUE:
            return True
        key = ("ent", c)
        r = self._cache.get(key)
        if r is None:
            p = self.norm.cnf(c).const()
            if p is not None:
                r = bool(p)
            else:
                r = self.replay(key, lambda: self.check([lambda tr: z3.Not(self.zbool(c, tr))], ms)[0] == "unsat")
            self._cache[key] = r
        return r

    def entails_poly(self, o, p):
        k = p.const()
        if k is not None:
            return {"le": k <= 0, "lt": k < 0, "eq": k == 0}[o]
        key = ("entp", o, p)
        r = self._cache.get(key)
        if r is None:
            def f(tr):
                x = self.zpoly(p, tr)
                return z3.Not({"le": x <= 0, "lt": x < 0, "eq": x == 0}[o])
            r = self.replay(key, lambda: self.check([f], QUICK_MS)[0] == "unsat")
            self._cache[key] = r
        return r

    def sign_query(self, p):
        key = ("sign", p)
        r = self._cache.get(key)
        if r is not None:
            return r
        self._cache[key] = "?"  # cut recursion
        if any(a.kind == "inf" for m, _ in p.terms for a, _e in m):
            return "?"
        r = "?"
        try:
            def ask():
                if self.check([lambda tr: self.zpoly(p, tr) <= 0], QUICK_MS)[0] == "unsat":
                    return "+"
                return "0+" if self.check([lambda tr: self.zpoly(p, tr) < 0], QUICK_MS)[0] == "unsat" else "?"
            r = self.replay(key, ask)
        except NotImplementedError:
            pass
        self._cache[key] = r
        return r

    def bound_decide(self, v, n, a):
        """decide indicator a for all v in [0,n) -> 0/1/None"""
        key = ("bd", v, n, a)
        if key in self._cache:
            return self._cache[key]
        va = patom(atom("v", v, frozenset((v,))))

        def rng(tr):
            x = self.zpoly(va, tr)
            return z3.And(x >= 0, x < self.zpoly(n, tr))

        r = None
        self._cache[key] = None  # a hypothesis may hold the same sum
        def ask():
            if self.check([rng, lambda tr: self.zind(a, tr)], QUICK_MS)[0] == "unsat":
                return 0
            if self.check([rng, lambda tr: z3.Not(self.zind(a, tr))], QUICK_MS)[0] == "unsat":
                return 1
            return "?"
        r = self.replay(key, ask)
        r = None if r == "?" else r
        self._cache[key] = r
        return r

    def q_bound_decide(self, v, n, b):
        """is the 0/1 polynomial b equal to 1 for all v in [0,n)?"""
        if getattr(self, "_inq", False):
            return False
        key = ("qb", v, n, b)
        if key in self._cache:
            return self._cache[key]
        va = patom(atom("v", v, frozenset((v,))))

        def rng(tr):
            x = self.zpoly(va, tr)
            return z3.And(x >= 0, x < self.zpoly(n, tr))

        self._inq = True
        try:
            r = self._cache[key] = self.replay(key, lambda: self.check([rng, lambda tr: z3.Not(self.zcond(b, tr))], QUICK_MS)[0] == "unsat")
            return r
        finally:
            self._inq = False
            self.norm.cmemo.clear()

    # -- proving -------------------------------------------------------------------
    def prove(self, goal, depth=0, budget=None):
        """-> (status, backend); status in proved/failed"""
        if budget is None:
            budget = [200]
        try:
            return self._prove(goal, depth, budget)
        except TooBig:
            return "failed", "toobig"

    def _prove(self, goal, depth, budget):
        if goal is tm.TRUE:
            return "proved", "nf"
        if goal.op == "and":
            be = "nf"
            for g in goal.args:
                st, b = self.prove(g, depth, budget)
                if st != "proved":
                    return st, b
                if b == "z3":
                    be = "z3"
            return "proved", be
        if goal.op == "forall":
            v, n, b = goal.args
            c = self.child()
            c.add_hyp(tm.band(tm.le(tm.num(0), v), tm.lt(v, n)))
            return c.prove(b, depth, budget)
        if goal.op == "or":
            # assume the negation of all but one disjunct
            c = self.child()
            gs = list(goal.args)
            gs.sort(key=lambda g: g.op in ("eq", "forall", "and"))
            for g in gs[:-1]:
                c.add_hyp(tm.bnot(g))
            if direct(c, gs[-1]):
                return "proved", "z3"
            if c.check([], QUICK_MS)[0] == "unsat":
                return "proved", "z3"
            return c.prove(gs[-1], depth, budget)
        if goal.op == "eq":
            return self.prove_eq(goal.args[0], goal.args[1], depth, budget)
        p = self.norm.cnf(goal)
        k = p.const()
        if k == 1:
            return "proved", "nf"
        if direct(self, goal):
            return "proved", "z3"
        st, m = self.check([lambda tr: z3.Not(self.zbool(goal, tr))], PROVE_MS)
        if st == "unsat":
            return "proved", "z3"
        # try after clearing denominators: not attempted; split on conditions
        inds = [a for a in self._closed_inds(goal)]
        if inds and budget[0] > 0 and depth < 6:
            return self.split(min(inds, key=_size), goal, depth, budget)
        return "failed", st

    def _closed_inds(self, goal):
        out = []
        if goal.op in ("lt", "le", "eq"):
            d = psub(self.norm.nf(goal.args[0]), self.norm.nf(goal.args[1]))
            for a in ind_atoms(d):
                if not any(x.args[0][:1] == "B" and "_" in x.args[0] for x in a.fv):
                    out.append(a)
        return out

    def inner(self, a, lim=8):
        """a condition nested in the condition a, if there is one: conditions are decided from the inside"""
        def polys(x):
            if isinstance(x, Poly):
                yield x
            elif isinstance(x, tuple):
                for y in x:
                    yield from polys(y)

        def find(p, d):
            for m, _ in p.terms:
                for x, _e in m:
                    if x.kind == "I":
                        if not any(y.args[0][:1] == "B" and "_" in y.args[0] for y in x.fv):
                            return x
                    elif d and x.kind in ("P", "f"):
                        for q in polys(x.data):
                            r = find(q, d - 1)
                            if r is not None:
                                return r
            return None
        while lim:
            n = None
            for q in polys(a.data):
                n = find(q, 3)
                if n is not None:
                    break
            if n is None or n is a:
                return a
            a, lim = n, lim - 1
        return a

    def split(self, a, goal, depth, budget):
        a = self.inner(a)
        t = self.ind_term(a)
        be = "nf"
        for c in (t, tm.bnot(t)):
            budget[0] -= 1
            ch = self.child()
            ch.add_hyp(c)
            ch.decided[a] = 1 if c is t else 0
            ch.norm.reset()
            if direct(ch, tm.FALSE) or ch.check([], QUICK_MS)[0] == "unsat":
                continue
            st, b = ch.prove(goal, depth + 1, budget)
            if st != "proved":
                return st, b
            if b == "z3":
                be = "z3"
        return "proved", be

    def prove_eq(self, a, b, depth, budget):
        d = psub(self.norm.nf(a), self.norm.nf(b))
        if d.is_zero():
            return "proved", "nf"
        d, dens = self.norm.clear(d)
        if d.is_zero():
            return "proved", "nf"
        inds = [x for x in ind_atoms(d) if not any(y.args[0][:1] == "B" and "_" in y.args[0] for y in x.fv)]
        if inds:
            if budget[0] <= 0 or depth > 12:
                return "failed", "split-budget"
            return self.split(min(inds, key=_size), tm.eq(a, b), depth, budget)
        if any(at.kind == "inf" for m, _ in d.terms for at, _e in m):
            return "failed", "inf"
        d = self.reduce(d)
        if d.is_zero():
            return "proved", "nf"
        st, m = self.check([lambda tr: self.zpoly(d, tr) != 0], PROVE_MS)
        if st == "unsat":
            return "proved", "z3"
        return "failed", st

    # -- linear use of equality hypotheses ----------------------------------------
    def eq_hyps(self):
        key = ("eqh",)
        r = self._cache.get(key)
        if r is None:
            r = []
            for h in self.hyps:
                if h.op == "eq" and h.args[0].sort != "B":
                    try:
                        p, _ = self.norm.clear(psub(self.norm.nf(h.args[0]), self.norm.nf(h.args[1])))
                    except TooBig:
                        continue
                    if p.terms and not ind_atoms(p) and not any(a.kind == "inf" for m, _ in p.terms for a, _e in m):
                        r.append(p)
            self._cache[key] = r
        return r

    def reduce(self, d, rounds=6):
        """subtract multiples q*h of hypotheses h = 0 that cancel an atom of d"""
        for _ in range(rounds):
            changed = False
            for h in self.eq_hyps():
                for v in self._linear_atoms(h):
                    A, B = self._lin(h, v)
                    L = self._lin(d, v)
                    if L is None or L[0].is_zero():
                        continue
                    q = self._divide(L[0], A)
                    if q is None or not self._safe(q, d, h):
                        continue
                    try:
                        d2, _ = self.norm.clear(psub(d, pmul(q, h)))
                    except TooBig:
                        continue
                    if d2.is_zero():
                        return d2
                    if len(d2.terms) <= 2 * len(d.terms) + 8:
                        d = d2
                        changed = True
                        break
            if not changed:
                break
        return d

    def _safe(self, q, d, h):
        """the multiplier has no new denominators"""
        neg = {a for p in (d, h) for m, _ in p.terms for a, e in m if e < 0}
        return all(e > 0 or a in neg or self.norm.asign(a) == "+" for m, _ in q.terms for a, e in m)

    def _linear_atoms(self, h):
        out = []
        for m, c in h.terms:
            for a, e in m:
                if e == 1 and a.kind in ("v", "a", "S") and a not in out and a.data not in (tm.PI, tm.EULER):
                    out.append(a)
        out.sort(key=lambda a: (0 if "#" in ashow(a) else 1, -a.id))
        return [a for a in out if self._lin(h, a) is not None][:4]

    def _lin(self, p, v):
        A, B = {}, {}
        for m, c in p.terms:
            k = [e for a, e in m if a is v]
            if not k:
                B[m] = c
            elif k[0] == 1:
                A[tuple((a, e) for a, e in m if a is not v)] = c
            else:
                return None
        return poly(A), poly(B)

    def _divide(self, D, A):
        """q with D == q*A (Laurent polynomials), or None"""
        if len(A.terms) == 1:
            m, c = A.terms[0]
            return pmul(D, poly({tuple((a, -e) for a, e in m): 1 / c})) if not any(a.kind in ("P", "I") for a, _ in m) else None
        if len(D.terms) % len(A.terms) and len(D.terms) < len(A.terms):
            return None
        m0, c0 = A.terms[0]
        inv = poly({tuple((a, -e) for a, e in m0): 1 / c0})
        for m, c in D.terms[:6]:
            q = pmul(poly({m: c}), inv)
            if psub(D, pmul(q, A)).is_zero():
                return q
        # greedy division
        q, R = ZERO, D
        for _ in range(8):
            if R.is_zero():
                return q
            best = None
            for m, c in R.terms[:6]:
                t = pmul(poly({m: c}), inv)
                R2 = psub(R, pmul(t, A))
                if best is None or len(R2.terms) < len(best[1].terms):
                    best = (t, R2)
            if len(best[1].terms) >= len(R.terms):
                return None
            q, R = padd(q, best[0]), best[1]
        return None

    # -- falsification ---------------------------------------------------------
    def falsify(self, goal, seed=1, tries=400, want=12, rtol=1e-6):
        """search a numeric instance of hyps and not goal.
        -> ('refuted', instance) | ('survived', n) | ('nosample', 0)"""
        rng = random.Random(seed)
        fvs = set(tm.free_vars(goal))
        for h in self.hyps:
            fvs |= tm.free_vars(h)
        fvs = sorted((v for v in fvs if v not in (tm.PI, tm.EULER)), key=lambda v: (v.sort != "I", v.args[0]))
        # names mentioned by group samplers are drawn as well
        for nm in getattr(self.spec, "dimvars", ()):
            if nm not in fvs:
                fvs.insert(0, nm)
        ok = 0
        big = sorted(_bigconsts(goal))
        for t in range(tries):
            self._big = big if big and t % 3 == 2 else None
            env = {}
            table = {}
            named = {}
            for v in fvs:
                s = self.spec.samplers.get(v.args[0])
                if s is not None:
                    env[v] = s(rng, env)
                else:
                    env[v] = self.draw(rng, v.sort, self.spec.varsigns.get(v.args[0]))
            groups = {}
            try:
                for g in self.spec.groups:
                    groups.update(g(rng, env))
            except Exception:
                pass

            def apps(f, args):
                k = (f, args)
                if k in table:
                    return table[k]
                if f in groups:
                    r = groups[f](*args)
                elif f in self.spec.appsamplers:
                    r = self.spec.appsamplers[f](rng, args, env, apps)
                elif f.startswith("?") or self.spec.appsort.get(f) == "B":
                    r = rng.random() < 0.5
                else:
                    r = self.draw(rng, self.spec.appsort.get(f, "R"), self.spec.appsigns.get(f))
                table[k] = r
                return r

            try:
                if not all(self._evalb(h, env, apps, rtol) for h in self.hyps):
                    continue
                val = self._evalb(goal, env, apps, rtol)
            except (tm.EvalError, OverflowError, ZeroDivisionError, ValueError):
                continue
            if not val:
                # the drawn values have to obey the axioms of the uninterpreted functions
                try:
                    good = True
                    for (f, a), r in list(table.items()):
                        ax = self.spec.appaxioms.get(f)
                        if ax is not None and not isinstance(r, bool):
                            srt = self.spec.appsort.get(f, "R")
                            at = tuple(tm.num(Fraction(x).limit_denominator(10 ** 12) if not isinstance(x, int) else x) for x in a)
                            tv = tm.app(f, at, srt)
                            if not all(self._evalb(c, env, apps, rtol) for c in ax(at, tv)):
                                good = False
                                break
                except (tm.EvalError, OverflowError, ZeroDivisionError, ValueError, TypeError):
                    good = True
                if not good:
                    continue
                inst = {v.args[0]: env[v] for v in fvs}
                inst.update({f"{f}{list(a)}": r for (f, a), r in list(table.items())[:60]})
                return "refuted", inst
            ok += 1
            if ok >= (3 * want if big else want):
                return "survived", ok
        return ("survived", ok) if ok >= 3 else ("nosample", ok)

    def _evalb(self, c, env, apps, rtol):
        if c.op == "eq":
            x = tm.neval(c.args[0], env, apps)
            y = tm.neval(c.args[1], env, apps)
            if x != x or y != y:
                raise tm.EvalError("nan")
            if x == y:
                return True
            return abs(x - y) <= rtol * max(1e-6, abs(x), abs(y))
        if c.op in ("le",):
            x = tm.neval(c.args[0], env, apps)
            y = tm.neval(c.args[1], env, apps)
            return x <= y or abs(x - y) <= rtol * 1e-3 * max(1e-6, abs(x), abs(y))
        if c.op == "and":
            return all(self._evalb(x, env, apps, rtol) for x in c.args)
        if c.op == "or":
            return any(self._evalb(x, env, apps, rtol) for x in c.args)
        if c.op == "forall":
            v, n, b = c.args
            nn = tm.neval(n, env, apps)
            for i in range(int(nn)):
                e2 = dict(env)
                e2[v] = i
                if not self._evalb(b, e2, apps, rtol):
                    return False
            return True
        if c.op == "not" and c.args[0].op == "forall":
            return not self._evalb(c.args[0], env, apps, rtol)
        return bool(tm.neval(c, env, apps))

    def draw(self, rng, sort, sign):
        if sort == "I":
            return rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        r = rng.random()
        if getattr(self, "_big", None) and r < 0.3:
            v = rng.choice(self._big) * rng.choice([0.5, 1.0, 1.5, 2.0, 4.0])
            return v if sign in ("+", "0+") else rng.choice([v, -v])
        if sign == "+":
            return rng.choice([0.1, 0.5, 1.0, 2.0]) if r < 0.15 else math.exp(rng.uniform(-1.5, 1.5))
        if sign == "0+":
            return rng.choice([0.0, 1.0]) if r < 0.2 else math.exp(rng.uniform(-1.5, 1.5))
        if r < 0.15:
            return rng.choice([0.0, 1.0, -1.0, 0.5])
        return rng.uniform(-2.5, 2.5)


def _size(a):
    """conditions over few terms first"""
    return (sum(len(x.terms) for x in a.data if isinstance(x, Poly)), a.id)


class Direct:
    """terms as they are in linear arithmetic with uninterpreted functions: conditionals stay conditionals, products and powers are opaque"""

    def __init__(self, spec):
        self.spec = spec
        self.memo = {}
        self.uf = {}
        self.side = []
        self.apps = []
        self.n = 0

    def f(self, name, sorts, out):
        k = (name, tuple(map(str, sorts)), str(out))
        r = self.uf.get(k)
        if r is None:
            r = self.uf[k] = z3.Function(f"{name}~{len(self.uf)}", *sorts, out)
        return r

    def opaque(self, name, args, sort):
        zs = [self.t(a) for a in args]
        S = z3.IntSort() if sort == "I" else z3.RealSort() if sort == "R" else z3.BoolSort()
        if not zs:
            return z3.Const(f"{name}~c", S)
        return self.f(name, [z.sort() for z in zs], S)(*zs)

    def t(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._t(t)
        return r

    def r(self, t):
        z = self.t(t)
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    def pair(self, a, b):
        x, y = self.t(a), self.t(b)
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        return x, y

    def _t(self, t):
        o = t.op
        if o == "num":
            return z3.IntVal(int(t.args[0])) if t.sort == "I" else z3.RealVal(str(t.args[0]))
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "var":
            v = (z3.Int if t.sort == "I" else z3.Real if t.sort == "R" else z3.Bool)(t.args[0])
            sg = self.spec.varsigns.get(t.args[0])
            if sg == "+":
                self.side.append(v > 0)
            elif sg == "0+":
                self.side.append(v >= 0)
            return v
        if o == "add":
            zs = [self.t(a) for a in t.args] if t.sort == "I" else [self.r(a) for a in t.args]
            return z3.Sum(zs)
        if o == "mul":
            c = [a for a in t.args if a.op == "num"]
            x = [a for a in t.args if a.op != "num"]
            if len(x) == 1:
                z = self.t(x[0]) if t.sort == "I" else self.r(x[0])
            else:
                x = sorted(x, key=lambda a: a.id)
                z = self.t(x[0]) if t.sort == "I" else self.r(x[0])
                for a in x[1:]:
                    y = self.t(a) if t.sort == "I" else self.r(a)
                    z = self.f("mul", [z.sort(), y.sort()], z.sort())(z, y)
            for a in c:
                z = self.t(a) * z if t.sort == "I" else self.r(a) * z
            return z
        if o == "ite":
            c = self.t(t.args[0])
            if t.sort == "B":
                return z3.If(c, self.t(t.args[1]), self.t(t.args[2]))
            a, b = self.pair(t.args[1], t.args[2])
            return z3.If(c, a, b)
        if o in ("lt", "le", "eq"):
            if t.args[0].sort == "B":
                return self.t(t.args[0]) == self.t(t.args[1])
            a, b = self.pair(*t.args)
            return a < b if o == "lt" else a <= b if o == "le" else a == b
        if o == "not":
            return z3.Not(self.t(t.args[0]))
        if o == "and":
            return z3.And([self.t(a) for a in t.args])
        if o == "or":
            return z3.Or([self.t(a) for a in t.args])
        if o == "fn" and t.args[0] == "abs":
            z = self.t(t.args[1])
            return z3.If(z < 0, -z, z)
        if o == "app":
            z = self.opaque("app_" + t.args[0], t.args[1:], t.sort)
            self.apps.append((t, z))
            sg = self.spec.appsigns.get(t.args[0])
            if sg == "+":
                self.side.append(z > 0)
            elif sg == "0+":
                self.side.append(z >= 0)
            return z
        if o == "bapp":
            return self.opaque("bapp_" + t.args[0], t.args[1:], "B")
        if o == "pow":
            return self.f("pow", [z3.RealSort(), self.t(t.args[1]).sort()], z3.RealSort())(self.r(t.args[0]), self.t(t.args[1]))
        if o == "fn":
            return self.opaque("fn_" + t.args[0], t.args[1:], t.sort)
        self.n += 1  # sums and everything else: the term itself is the name
        S = z3.IntSort() if t.sort == "I" else z3.RealSort() if t.sort == "R" else z3.BoolSort()
        return z3.Const(f"term~{t.id}", S)

    def axioms(self, rounds=2):
        out = []
        done = 0
        for _ in range(rounds):
            todo, done = self.apps[done:], len(self.apps)
            for t, z in todo:
                ax = self.spec.appaxioms.get(t.args[0])
                if ax is not None and not any(v.args[0][:2] == "B_" for v in tm.free_vars(t)):
                    for c in ax(t.args[1:], t):
                        out.append(self.t(c))
        return out + self.side


def direct(ctx, goal, ms=1500):
    d = Direct(ctx.spec)
    s = z3.Solver()
    s.set("timeout", ms)
    t0 = time.time()
    try:
        for h in ctx.hyps:
            if h.op not in ("forall", "exists"):
                s.add(d.t(h))
        s.add(z3.Not(d.t(goal)))
        for c in d.axioms():
            s.add(c)
    except z3.Z3Exception:
        return False
    r = s.check() == z3.unsat
    STATS["z3_queries"] += 1
    STATS["z3_time"] += time.time() - t0
    return r


def linearise(cs):
    """z3 formulas with every non-linear product, quotient or power replaced by a fresh unknown (same term, same unknown)"""
    memo, new, found = {}, {}, [False]

    def isnum(e):
        return z3.is_rational_value(e) or z3.is_int_value(e) or z3.is_algebraic_value(e)

    def go(e):
        k = e.get_id()
        r = memo.get(k)
        if r is not None:
            return r[1]
        if z3.is_quantifier(e) or not z3.is_app(e) or e.num_args() == 0:
            memo[k] = (e, e)
            return e
        ch = [go(c) for c in e.children()]
        kind = e.decl().kind()
        if kind == z3.Z3_OP_MUL and sum(not isnum(c) for c in ch) >= 2:
            flat, coef = [], []
            for c in ch:
                (coef if isnum(c) else flat).append(c)
            key = ("*", tuple(sorted(c.get_id() for c in flat)))
            r = fresh(key, flat, e.sort())
            for c in coef:
                r = c * r
        elif kind == z3.Z3_OP_DIV and not isnum(ch[1]):
            r = fresh(("/", ch[0].get_id(), ch[1].get_id()), ch, e.sort())
        elif kind == z3.Z3_OP_POWER:
            r = fresh(("^", ch[0].get_id(), ch[1].get_id()), ch, e.sort())
        else:
            r = e.decl()(*ch) if kind not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else \
                (z3.And(ch) if kind == z3.Z3_OP_AND else z3.Or(ch) if kind == z3.Z3_OP_OR else z3.Sum(ch) if kind == z3.Z3_OP_ADD else
                 z3.Product(ch) if kind == z3.Z3_OP_MUL else z3.Distinct(ch))
        memo[k] = (e, r)
        return r

    def fresh(key, keep, sort):
        found[0] = True
        v = new.get(key)
        if v is None:
            v = new[key] = (z3.FreshConst(sort, "nl"), keep)
        return v[0]
    out = [go(c) for c in cs]
    return out, found[0]


def _bigconsts(t):
    """constants of a term that ordinary draws would not reach"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "num":
            v = abs(float(x.args[0]))
            if 4 < v < 1e6:
                out.add(v)
            elif 1e-6 < v < 0.05:
                out.add(v)
            continue
        st += [a for a in x.args if isinstance(a, tm.T)]
    return out
