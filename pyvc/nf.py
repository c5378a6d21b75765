"""Canonical Laurent polynomials over interned atoms."""
from fractions import Fraction
import itertools
from . import terms as tm
from .terms import T

F0, F1 = Fraction(0), Fraction(1)


class Atom:
    __slots__ = ("kind", "data", "id", "fv", "depth")

    def __repr__(self):
        return ashow(self)

    def __lt__(self, o):
        return self.id < o.id


_atoms = {}
_aid = itertools.count()


def atom(kind, data, fv, depth=0):
    key = (kind, data)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data, a.id, a.fv, a.depth = kind, data, next(_aid), fv, depth
        _atoms[key] = a
    return a


class Poly:
    """terms: tuple of (mono, coef); mono: tuple of (Atom, Fraction)."""

    __slots__ = ("terms", "id", "fv", "depth")

    def __repr__(self):
        return pshow(self)

    def const(self):
        if not self.terms:
            return F0
        if len(self.terms) == 1 and not self.terms[0][0]:
            return self.terms[0][1]
        return None

    def is_zero(self):
        return not self.terms


_polys = {}
_pid = itertools.count()


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def poly(d):
    """d: dict mono->coef"""
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: _mkey(mc[0]), reverse=True)
    terms = tuple(items)
    p = _polys.get(terms)
    if p is None:
        p = Poly()
        p.terms = terms
        p.id = next(_pid)
        fv = frozenset()
        depth = 0
        for m, _ in terms:
            for a, _e in m:
                fv = fv | a.fv
                depth = max(depth, a.depth)
        p.fv = fv
        p.depth = depth
        _polys[terms] = p
    return p


def pconst(c):
    c = Fraction(c)
    return poly({(): c} if c else {})


ZERO = pconst(0)
ONE = pconst(1)


def patom(a, e=F1):
    return poly({((a, Fraction(e)),): F1})


def padd(*ps):
    d = {}
    for p in ps:
        for m, c in p.terms:
            d[m] = d.get(m, F0) + c
    return poly(d)


def pscale(p, c):
    return poly({m: k * c for m, k in p.terms})


def psub(a, b):
    return padd(a, pscale(b, Fraction(-1)))


def pneg(a):
    return pscale(a, Fraction(-1))


def mono_mul(m1, m2):
    """-> (mono, coef, list of (Poly, n) still to be expanded)"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, F0) + e
    coef = F1
    exp = []
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        k = a.kind
        if k == "I":
            e = F1
        elif k == "n" and (e >= 1 or e < 0):
            fl = e.numerator // e.denominator
            coef *= Fraction(a.data) ** fl
            e -= fl
            if e == 0:
                continue
        elif k == "P" and e >= 1:
            fl = e.numerator // e.denominator
            exp.append((a.data, fl))
            e -= fl
            if e == 0:
                continue
        out.append((a, e))
    out.sort(key=lambda ae: ae[0].id)
    return tuple(out), coef, exp


class TooBig(Exception):
    pass


LIMIT = 60000


def pmul(p, q):
    if len(p.terms) * len(q.terms) > LIMIT:
        raise TooBig()
    d = {}
    extra = None
    for m1, c1 in p.terms:
        for m2, c2 in q.terms:
            m, c, exp = mono_mul(m1, m2)
            c = c * c1 * c2
            if exp:
                r = poly({m: c})
                for P, n in exp:
                    for _ in range(n):
                        r = pmul(r, P)
                extra = r if extra is None else padd(extra, r)
            else:
                d[m] = d.get(m, F0) + c
    r = poly(d)
    return r if extra is None else padd(r, extra)


def pintpow(p, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def ind_atoms(p):
    out = []
    for m, _ in p.terms:
        for a, _e in m:
            if a.kind == "I" and a not in out:
                out.append(a)
    return out


def set_atom(p, a, val):
    """substitute 0/1 for an indicator atom (top level occurrences)"""
    d = {}
    for m, c in p.terms:
        if any(x is a for x, _ in m):
            if val == 0:
                continue
            m = tuple((x, e) for x, e in m if x is not a)
        d[m] = d.get(m, F0) + c
    return poly(d)


def ashow(a):
    k = a.kind
    if k == "v":
        return a.data.args[0]
    if k in ("a", "f"):
        return f"{a.data[0]}({','.join(pshow(p) for p in a.data[1])})"
    if k == "P":
        return f"({pshow(a.data)})"
    if k == "E":
        return f"exp({mshow(a.data)})"
    if k == "n":
        return str(a.data)
    if k == "S":
        bs = ",".join(f"{v.args[0]}<{pshow(n)}" for v, n in zip(a.data[0], a.data[1]))
        return f"Σ[{bs}]({mshow(a.data[2])})"
    if k == "I":
        d = a.data
        if d[0] == "b":
            return f"[{d[1]}({','.join(pshow(p) for p in d[2])})]"
        if d[0] == "all":
            return f"[∀{d[1].args[0]}<{pshow(d[2])}:{pshow(d[3])}]"
        return f"[{pshow(d[1])}{ {'le':'<=0','lt':'<0','eq':'=0'}[d[0]]}]"
    return k


def mshow(m):
    return "*".join(f"{ashow(a)}" + (f"^{e}" if e != 1 else "") for a, e in m) or "1"


def pshow(p):
    if not p.terms:
        return "0"
    return " + ".join((f"{c}*" if c != 1 or not m else "") + (mshow(m) if m else "") for m, c in p.terms)[:3000]


def _factor(n):
    out = {}
    n = abs(n)
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def prime_factors(c):
    out = {}
    for p, e in _factor(c.numerator).items():
        out[p] = out.get(p, 0) + e
    for p, e in _factor(c.denominator).items():
        out[p] = out.get(p, 0) - e
    return out


def _fatoms(p, name, depth=0):
    """applications of a function inside the monomials of p"""
    out = []
    for m, _ in p.terms:
        for a, _e in m:
            if a.kind == "f" and a.data[0] == name:
                out.append(a)
            elif a.kind == "P" and depth < 3:
                out += _fatoms(a.data, name, depth + 1)
    return out


class Unsplit(Exception):
    pass


class Norm:
    """Canonicaliser relative to a proof context (`ctx`: signs, decided
    conditions, substitutions, symmetric/inverse tensors, z3 queries)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.cmemo = {}
        self.smemo = {}
        self.psmemo = {}

    def reset(self):
        self.memo.clear()
        self.cmemo.clear()
        self.smemo.clear()

    # -- terms -> poly -------------------------------------------------------
    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._nf(t)
            self.memo[t] = r
        return r

    def _nf(self, t):
        o = t.op
        if o == "num":
            return pconst(t.args[0])
        if o == "var":
            s = self.ctx.subst.get(t)
            if s is not None:
                return self.nf(s)
            return patom(atom("v", t, frozenset((t,))))
        if o == "inf" or o == "nan":
            return patom(atom(o, o, frozenset()))
        if o == "add":
            return padd(*[self.nf(a) for a in t.args])
        if o == "mul":
            ps = [self.nf(a) for a in t.args]
            ps.sort(key=lambda p: len(p.terms))
            r = ps[0]
            for p in ps[1:]:
                r = pmul(r, p)
            return r
        if o == "pow":
            e = self.nf(t.args[1])
            b = self.nf(t.args[0])
            c = e.const()
            if c is not None:
                return self.ppow(b, c)
            return self.lift((b, e), self.sympow)
        if o == "ite":
            c = self.cnf(t.args[0])
            k = c.const()
            if k is not None:
                return self.nf(t.args[1] if k else t.args[2])
            a, b = self.nf(t.args[1]), self.nf(t.args[2])
            return padd(b, pmul(c, psub(a, b)))
        if o == "app":
            return self.mkapp(t.args[0], tuple(self.nf(a) for a in t.args[1:]))
        if o == "fn":
            return self.apply_fn(t.args[0], tuple(self.nf(a) for a in t.args[1:]))
        if o == "sum":
            v, n, b = t.args
            # bound variables never collide with substitutions
            return self.sum_poly(v, self.nf(n), self.nf(b))
        if t.sort == "B":
            return self.cnf(t)
        raise NotImplementedError(o)

    def mkapp(self, f, ps):
        return self.lift(ps, lambda *qs: self._mkapp(f, qs))

    def _mkapp(self, f, ps):
        if f in self.ctx.symmetric and len(ps) == 2 and ps[0].id > ps[1].id:
            ps = (ps[1], ps[0])
        fv = frozenset().union(*[p.fv for p in ps]) if ps else frozenset()
        d = max([p.depth for p in ps], default=0)
        return patom(atom("a", (f, ps), fv, d))

    def lift(self, ps, f):
        for p in ps:
            for a in ind_atoms(p):
                one = self.lift(tuple(set_atom(q, a, 1) for q in ps), f)
                zero = self.lift(tuple(set_atom(q, a, 0) for q in ps), f)
                return padd(zero, pmul(patom(a), psub(one, zero)))
        return f(*ps)

    # -- powers ----------------------------------------------------------------
    def ppow(self, b, q):
        q = Fraction(q)
        if q == 0:
            return ONE
        if q == 1:
            return b
        if q.denominator == 1 and q > 0 and (len(b.terms) <= 1 or len(b.terms) ** min(int(q), 6) <= 3000) and q <= 12:
            return pintpow(b, int(q)) if len(b.terms) != 1 else self._monopow(b, q)
        return self.lift((b,), lambda p: self._ppow(p, q))

    def _monopow(self, b, q):
        m, c = b.terms[0]
        r = pconst(c ** int(q))
        for a, e in m:
            if a.kind == "I":
                r = pmul(r, patom(a))
            elif a.kind == "P" and (e * q) >= 1:
                ee = e * q
                fl = ee.numerator // ee.denominator
                r = pmul(r, pintpow(a.data, fl))
                if ee - fl:
                    r = pmul(r, poly({((a, ee - fl),): F1}))
            else:
                mm, cc, _ = mono_mul((), ((a, e * q),))
                r = pmul(r, poly({mm: cc}))
        return r

    def cpow(self, c, q):
        """positive rational constant to a rational power"""
        r = ONE
        for p, e in prime_factors(c).items():
            ee = e * q
            m, cc, _ = mono_mul((), ((atom("n", p, frozenset()), Fraction(ee)),))
            r = pmul(r, poly({m: cc}))
        return r

    def _ppow(self, p, q):
        if p.is_zero():
            if q > 0:
                return ZERO
            return patom(atom("f", ("div0", ()), frozenset()))
        integer = q.denominator == 1
        c, g, core = self.content(p, integer)
        # p = c * g * core, c > 0 unless integer, core is ONE or a non-monomial
        # (or a monomial of unknown sign)
        r = pconst(c ** int(q)) if integer else self.cpow(c, q)
        for a, e in g:
            r = pmul(r, self.apow(a, e, q))
        if core is not ONE:
            if integer and q > 0:
                r = pmul(r, pintpow(core, int(q)))
            else:
                r = pmul(r, patom(atom("P", core, core.fv, core.depth), q))
        return r

    def apow(self, a, e, q):
        ee = e * q
        if a.kind == "I":
            return patom(a)
        if a.kind == "P" and ee >= 1:
            fl = ee.numerator // ee.denominator
            r = pintpow(a.data, fl)
            if ee - fl:
                r = pmul(r, poly({((a, ee - fl),): F1}))
            return r
        m, c, _ = mono_mul((), ((a, ee),))
        return poly({m: c})

    def content(self, p, integer):
        """p = c * prod(g) * core."""
        terms = p.terms
        if len(terms) == 1:
            m, c = terms[0]
            if integer:
                return c, m, ONE
            g, rest = [], []
            for a, e in m:
                if self.asign(a) in ("+", "0+"):
                    g.append((a, e))
                elif a.kind == "P" and e.denominator == 1 and self.psign(pneg(a.data)) == "+":
                    q = pneg(a.data)
                    g.append((atom("P", q, q.fv, q.depth), e))
                    if e % 2:
                        c = -c
                elif e.denominator == 1 and e % 2 == 0:
                    # a^e = |a|^e ; leave as unknown-sign factor
                    rest.append((a, e))
                else:
                    rest.append((a, e))
            if not rest and c > 0:
                return c, tuple(g), ONE
            cc = abs(c)
            core = poly({tuple(rest): c / cc})
            return cc, tuple(g), core
        # common monomial
        common = None
        for m, _ in terms:
            d = dict(m)
            if common is None:
                common = d
            else:
                nd = {}
                for a in set(common) | set(d):
                    e = min(common.get(a, F0), d.get(a, F0))
                    if e != 0:
                        nd[a] = e
                common = nd
        g = []
        for a, e in sorted(common.items(), key=lambda ae: ae[0].id):
            if a.kind in ("I",):
                continue
            if integer or self.asign(a) == "+":
                g.append((a, e))
        lead = terms[0][1]
        c = lead if integer else abs(lead)
        inv = tuple((a, -e) for a, e in g)
        core = pscale(p, 1 / c)
        if inv:
            core = pmul(core, poly({inv: F1}))
        if len(core.terms) == 1:  # can only happen through cancellation
            c2, g2, core2 = self.content(core, integer)
            return c * c2, tuple(g) + tuple(g2), core2
        return c, tuple(g), core

    def sympow(self, b, e):
        c = e.const()
        if c is not None:
            return self.ppow(b, c)
        if b is ONE:
            return ONE
        if self.psign(b) == "+":
            return self.apply_fn("exp", (pmul(e, self.apply_fn("log", (b,))),))
        return patom(atom("f", ("pow", (b, e)), b.fv | e.fv, max(b.depth, e.depth)))

    # -- functions ---------------------------------------------------------------
    def apply_fn(self, name, ps):
        return self.lift(ps, lambda *qs: self._apply_fn(name, qs))

    def _fnatom(self, name, ps):
        fv = frozenset().union(*[p.fv for p in ps]) if ps else frozenset()
        return patom(atom("f", (name, tuple(ps)), fv, max([p.depth for p in ps], default=0)))

    def _apply_fn(self, name, ps):
        p = ps[0]
        if name == "exp":
            r = ONE
            for m, c in p.terms:
                r = pmul(r, self.expmono(m, c))
            return r
        if name == "log":
            return self.log(p)
        if name == "cosh":
            e = self._apply_fn("exp", (p,))
            return pscale(padd(e, self._apply_fn("exp", (pneg(p),))), Fraction(1, 2))
        if name in ("arcsinh",):
            if p.terms and p.terms[0][1] < 0:
                return pneg(self._fnatom(name, (pneg(p),)))
            if p.is_zero():
                return ZERO
            if len(p.terms) == 2 and sorted(c for _, c in p.terms) == [Fraction(-1, 2), Fraction(1, 2)]:
                # arcsinh((x - 1/x) / 2) = log x for x > 0
                m1 = [m for m, c in p.terms if c > 0][0]
                m2 = [m for m, c in p.terms if c < 0][0]
                x, x2 = poly({m1: F1}), poly({m2: F1})
                if pmul(x, x2) is ONE and self.psign(x) == "+":
                    return self.log(x)
        if name == "normppf":
            a = self._single(p)
            if a is not None and a.kind == "f" and a.data[0] == "normcdf":
                return a.data[1][0]
        if name == "normcdf":
            a = self._single(p)
            if a is not None and a.kind == "f" and a.data[0] == "normppf":
                return a.data[1][0]
        pairs = {"betacdf": "betappf", "gammacdf": "gammappf", "tcdf": "tppf", "igcdf": "igppf"}
        pairs.update({v: k for k, v in pairs.items()})
        if name in pairs:
            a = self._single(p)
            if a is not None and a.kind == "f" and a.data[0] == pairs[name] and a.data[1][1:] == tuple(ps[1:]):
                return a.data[1][0]
            if a is None:
                # the argument may be the inverse only after cancelling denominators
                for c in _fatoms(p, pairs[name]):
                    if c.data[1][1:] == tuple(ps[1:]) and self.clear(psub(p, patom(c)))[0].is_zero():
                        return c.data[1][0]
        return self._fnatom(name, ps)

    def _single(self, p):
        if len(p.terms) == 1 and p.terms[0][1] == 1 and len(p.terms[0][0]) == 1 and p.terms[0][0][0][1] == 1:
            return p.terms[0][0][0][0]
        return None

    def expmono(self, m, c):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "f" and m[0][0].data[0] == "log":
            return self.ppow(m[0][0].data[1][0], c)
        fv = frozenset().union(*[a.fv for a, _ in m]) if m else frozenset()
        d = max([a.depth for a, _ in m], default=0)
        return patom(atom("E", m, fv, d), c)

    def log(self, p):
        if p is ONE:
            return ZERO
        if p.is_zero():
            return self._fnatom("log", (p,))
        c, g, core = self.content(p, False)
        r = ZERO
        for pr, e in prime_factors(c).items():
            r = padd(r, pscale(self._fnatom("log", (pconst(pr),)), Fraction(e)))
        for a, e in g:
            if a.kind == "E":
                r = padd(r, poly({a.data: e}))
            elif a.kind == "P":
                r = padd(r, pscale(self._fnatom("log", (a.data,)), e))
            elif a.kind == "n":
                r = padd(r, pscale(self._fnatom("log", (pconst(a.data),)), e))
            else:
                r = padd(r, pscale(self._fnatom("log", (patom(a),)), e))
        if core is not ONE:
            r = padd(r, self._fnatom("log", (core,)))
        return r

    # -- conditions -----------------------------------------------------------
    def cnf(self, c):
        r = self.cmemo.get(c)
        if r is None:
            r = self._cnf(c)
            self.cmemo[c] = r
        return r

    def _cnf(self, c):
        o = c.op
        if o == "true":
            return ONE
        if o == "false":
            return ZERO
        if o == "not":
            return psub(ONE, self.cnf(c.args[0]))
        if o == "and":
            r = ONE
            for a in c.args:
                r = pmul(r, self.cnf(a))
                if r.is_zero():
                    break
            return r
        if o == "or":
            r = ONE
            for a in c.args:
                r = pmul(r, psub(ONE, self.cnf(a)))
                if r.is_zero():
                    break
            return psub(ONE, r)
        if o in ("lt", "le", "eq"):
            isint = c.args[0].sort == "I" and c.args[1].sort == "I"
            d = psub(self.nf(c.args[0]), self.nf(c.args[1]))
            return self.lift((d,), lambda p: self.mkcond(o, p, isint))
        if o == "bapp":
            return self.lift(tuple(self.nf(a) for a in c.args[1:]), lambda *ps: self._bapp(c.args[0], ps))
        if o == "forall":
            v, n, b = c.args
            return self.forall_poly(v, self.nf(n), self.cnf(b))
        if o == "ite":
            x = self.cnf(c.args[0])
            return padd(pmul(x, self.cnf(c.args[1])), pmul(psub(ONE, x), self.cnf(c.args[2])))
        raise NotImplementedError(o)

    def _bapp(self, f, ps):
        fv = frozenset().union(*[p.fv for p in ps]) if ps else frozenset()
        return self._decide(atom("I", ("b", f, tuple(ps)), fv, max([p.depth for p in ps], default=0)))

    def _decide(self, a):
        d = self.ctx.decided.get(a)
        if d is not None:
            return ONE if d else ZERO
        return patom(a)

    def mkcond(self, o, p, isint):
        k = p.const()
        if k is not None:
            return ONE if {"lt": k < 0, "le": k <= 0, "eq": k == 0}[o] else ZERO
        # infinities
        for m, c in p.terms:
            if len(m) == 1 and m[0][0].kind == "inf":
                if o == "eq":
                    return ZERO
                return ONE if c < 0 else ZERO
        if not isint:
            # strip positive common factors (keeps the sign of p)
            pass
        lead = p.terms[0][1] if p.terms[0][0] else p.terms[0][1]
        if isint:
            # integer canonical form: content-free coefficients
            from math import gcd
            den = 1
            for m, c in p.terms:
                den = den * c.denominator // gcd(den, c.denominator)
            p = pscale(p, Fraction(den))
            g = 0
            for m, c in p.terms:
                if m:
                    g = gcd(g, int(c))
            cst = F0
            for m, c in p.terms:
                if not m:
                    cst = c
            if g > 1:
                if o == "eq":
                    if cst % g:
                        return ZERO
                    p = pscale(p, Fraction(1, g))
                else:
                    # sum g*a*x + cst <= 0  <=>  sum a*x + ceil(cst/g) <= 0
                    if o == "lt":
                        cst += 1
                        o = "le"
                    q = {m: c / g for m, c in p.terms if m}
                    q[()] = Fraction(-((-int(cst)) // g))
                    p = poly(q)
            if o == "lt":
                o = "le"
                p = padd(p, ONE)
            lead = p.terms[0][1]
            if lead < 0:
                if o == "eq":
                    p = pneg(p)
                else:
                    q = padd(pneg(p), ONE)
                    return psub(ONE, self._decide(atom("I", ("le", q), q.fv, q.depth)))
            return self._decide(atom("I", (o, p), p.fv, p.depth))
        p = pscale(p, 1 / abs(lead))
        if lead < 0:
            p = pneg(p)
            if o == "eq":
                pass
            elif o == "le":
                # -p <= 0  <=> not (p < 0)
                return psub(ONE, self._decide(atom("I", ("lt", p), p.fv, p.depth)))
            else:
                return psub(ONE, self._decide(atom("I", ("le", p), p.fv, p.depth)))
        return self._decide(atom("I", (o, p), p.fv, p.depth))

    def forall_poly(self, v, n, b):
        k = n.const()
        if b is ONE:
            return ONE
        if k is not None and k <= 8:
            r = ONE
            for i in range(int(k)):
                r = pmul(r, self.psubst(b, {v: pconst(i)}))
            return r
        if v not in b.fv:
            # (n <= 0) or b
            e = self.mkcond("le", n, True)
            return padd(e, pmul(psub(ONE, e), b))
        # decide by z3
        if self.ctx.q_bound_decide(v, n, b):
            return ONE
        d = 1 + b.depth
        cv = tm.var(f"B{d}_0", "I")
        b2 = self.psubst(b, {v: patom(atom("v", cv, frozenset((cv,))))})
        return self._decide(atom("I", ("all", cv, n, b2), (b2.fv - {cv}) | n.fv, d))

    # -- signs --------------------------------------------------------------------
    def asign(self, a):
        s = self.smemo.get(a)
        if s is None:
            s = self._asign(a)
            self.smemo[a] = s
        return s

    def _asign(self, a):
        k = a.kind
        if k in ("E", "n"):
            return "+"
        if k == "inf":
            return "+"
        if k == "I":
            return "0+"
        if k == "v":
            s = self.ctx.sign_of_var(a.data)
            if s:
                return s
        if k == "a":
            s = self.ctx.appsigns.get(a.data[0])
            if s:
                return s
        if k == "P":
            return self.psign(a.data)
        if k == "S":
            s = "+"
            for x, e in a.data[2]:
                t = self.asign(x)
                if e.denominator == 1 and e % 2 == 0:
                    t = "0+"
                if t not in ("+", "0+"):
                    s = "?"
                    break
            if s != "?":
                self.smemo[a] = "0+"   # the queries below meet this atom again
                if all(self.asign(x) == "+" for x, e in a.data[2]) and all(self.ctx.entails_poly("le", psub(ONE, q)) for q in a.data[1]):
                    return "+"
                return "0+"
        if k == "f" and a.data[0] == "trigamma" and self.psign(a.data[1][0]) == "+":
            return "+"
        if k == "v" or k == "a" or k == "f" or k == "S":
            if any(x.args[0].startswith("B") and "_" in x.args[0] for x in a.fv):
                return "?"
            return self.ctx.sign_query(patom(a))
        return "?"

    def psign(self, p):
        key = ("p", p)
        s = self.smemo.get(key)
        if s is None:
            s = self._psign(p)
            self.smemo[key] = s
        return s

    def _psign(self, p):
        if p.is_zero():
            return "0+"
        strict = False
        ok = True
        for m, c in p.terms:
            if c < 0:
                ok = False
                break
            ms = "+"
            for a, e in m:
                if e.denominator == 1 and e % 2 == 0:
                    t = "+" if (self.asign(a) == "+") else "0+"
                else:
                    t = self.asign(a)
                if t == "0+":
                    ms = "0+"
                elif t != "+":
                    ms = "?"
                    break
            if ms == "?":
                ok = False
                break
            if ms == "+":
                strict = True
        if ok:
            return "+" if strict else "0+"
        return self.ctx.sign_query(p)

    # -- substitution in polynomials --------------------------------------------
    def psubst(self, p, m):
        """m: {T var: Poly}"""
        vs = frozenset(m)
        if not (p.fv & vs):
            return p
        key = (p, tuple(sorted(((v.id, q.id) for v, q in m.items()))))
        r = self.psmemo.get(key)
        if r is not None:
            return r
        acc = ZERO
        for mono, c in p.terms:
            r = pconst(c)
            for a, e in mono:
                if a.fv & vs:
                    r = pmul(r, self.asubst(a, e, m))
                else:
                    r = pmul(r, poly({((a, e),): F1}))
            acc = padd(acc, r)
        self.psmemo[key] = acc
        return acc

    def asubst(self, a, e, m):
        k = a.kind
        if k == "v":
            return self.ppow(m[a.data], e)
        if k == "a":
            return self.ppow(self.mkapp(a.data[0], tuple(self.psubst(q, m) for q in a.data[1])), e)
        if k == "f":
            qs = tuple(self.psubst(q, m) for q in a.data[1])
            if a.data[0] == "pow":
                return self.ppow(self.lift(qs, self.sympow), e)
            return self.ppow(self.apply_fn(a.data[0], qs), e)
        if k == "P":
            return self.ppow(self.psubst(a.data, m), e)
        if k == "E":
            q = self.psubst(poly({a.data: F1}), m)
            return self.apply_fn("exp", (pscale(q, e),))
        if k == "I":
            d = a.data
            if d[0] == "b":
                return self.lift(tuple(self.psubst(q, m) for q in d[2]), lambda *ps: self._bapp(d[1], ps))
            if d[0] == "all":
                cv = d[1]
                mm = {v: q for v, q in m.items() if v is not cv}
                nv = tm.fresh_bound("q")
                body = self.psubst(d[3], {cv: patom(atom("v", nv, frozenset((nv,))))})
                return self.forall_poly(nv, self.psubst(d[2], mm), self.psubst(body, mm))
            isint = self.ctx.is_int_poly(d[1])
            return self.lift((self.psubst(d[1], m),), lambda q: self.mkcond(d[0], q, isint))
        if k == "S":
            bvs, ns, mono = a.data
            fresh = [tm.fresh_bound("s") for _ in bvs]
            body = poly({mono: F1})
            body = self.psubst(body, {b: patom(atom("v", f, frozenset((f,)))) for b, f in zip(bvs, fresh)})
            body = self.psubst(body, m)
            r = body
            for f, n in zip(fresh, ns):
                r = self.sum_poly(f, self.psubst(n, m), r)
            return self.ppow(r, e)
        raise NotImplementedError(k)

    # -- sums --------------------------------------------------------------------
    def linear_in(self, p, v):
        """p = s*v + rest with s in {1,-1} (v not in rest) -> (s, rest)"""
        s = None
        rest = {}
        for m, c in p.terms:
            if any(v in a.fv for a, _ in m):
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "v" and s is None and c in (1, -1):
                    s = c
                else:
                    return None
            else:
                rest[m] = c
        if s is None:
            return None
        return s, poly(rest)

    def sum_poly(self, v, n, b, depth=0):
        if b.is_zero():
            return ZERO
        k = n.const()
        if k is not None:
            if k <= 0:
                return ZERO
            if k <= 8:
                r = ZERO
                for i in range(int(k)):
                    r = padd(r, self.psubst(b, {v: pconst(i)}))
                return r
        if v not in b.fv:
            return pmul(n, b)
        # range and delta conditions on the bound variable
        for a in ind_atoms(b):
            if v not in a.fv or a.data[0] in ("b", "all"):
                continue
            dec = self.ctx.bound_decide(v, n, a)
            if dec is not None:
                return self.sum_poly(v, n, set_atom(b, a, dec), depth)
            lin = self.linear_in(a.data[1], v)
            if lin is None or not self.ctx.is_int_poly(a.data[1]):
                continue
            s, rest = lin
            if a.data[0] == "eq":
                e = pscale(rest, -s)
                b0, b1 = set_atom(b, a, 0), set_atom(b, a, 1)
                inb = pmul(psub(ONE, self.mkcond_l("lt", e)), self.mkcond_l("lt", psub(e, n)))
                r = self.sum_poly(v, n, b0, depth)
                diff = self.psubst(psub(b1, b0), {v: e})
                return padd(r, pmul(inb, diff))
            if a.data[0] == "le":
                # s*v + rest <= 0
                if s == 1:
                    cut = padd(pneg(rest), ONE)  # v < cut
                    lo, hi = 1, 0
                else:
                    cut = rest  # -v + rest <= 0 : v >= rest
                    lo, hi = 0, 1
                if self.ctx.entails_poly("le", pneg(cut)) and self.ctx.entails_poly("le", psub(cut, n)):
                    blo, bhi = set_atom(b, a, lo), set_atom(b, a, hi)
                    v1, v2 = tm.fresh_bound("s"), tm.fresh_bound("s")
                    p1 = self.psubst(blo, {v: patom(atom("v", v1, frozenset((v1,))))})
                    p2 = self.psubst(bhi, {v: padd(patom(atom("v", v2, frozenset((v2,)))), cut)})
                    return padd(self.sum_poly(v1, cut, p1, depth), self.sum_poly(v2, psub(n, cut), p2, depth))
        # constant offset of the bound
        c0 = F0
        for m, c in n.terms:
            if not m:
                c0 = c
        if c0 != 0 and c0.denominator == 1 and abs(c0) <= 8 and k is None:
            L = padd(n, pconst(-c0))
            need = pneg(L) if c0 > 0 else psub(pconst(-c0), L)
            if self.ctx.entails_poly("le", need):
                r = self.sum_poly(v, L, b, depth)
                if c0 > 0:
                    for j in range(int(c0)):
                        r = padd(r, self.psubst(b, {v: padd(L, pconst(j))}))
                else:
                    for j in range(1, int(-c0) + 1):
                        r = psub(r, self.psubst(b, {v: padd(L, pconst(-j))}))
                return r
        r = ZERO
        for m, c in b.terms:
            r = padd(r, pscale(self.sum_mono(v, n, m), c))
        return r

    def mkcond_l(self, o, p):
        return self.lift((p,), lambda q: self.mkcond(o, q, True))

    def sum_mono(self, v, n, m):
        free, dep = [], []
        for a, e in m:
            (dep if v in a.fv else free).append((a, e))
        fac = poly({tuple(free): F1})
        if not dep:
            return pmul(fac, n)
        bvs, ns, atoms = [v], [n], []
        for a, e in dep:
            if a.kind == "S" and e.denominator == 1 and 1 <= e <= 3:
                for _ in range(int(e)):
                    fresh = [tm.fresh_bound("s") for _ in a.data[0]]
                    body = self.psubst(poly({a.data[2]: F1}), {b: patom(atom("v", f, frozenset((f,)))) for b, f in zip(a.data[0], fresh)})
                    (mm, cc), = body.terms
                    fac = pscale(fac, cc)
                    atoms.extend(mm)
                    bvs += fresh
                    ns += list(a.data[1])
            else:
                atoms.append((a, e))
        # merge
        mm, cc, ex = mono_mul((), ())
        d = {}
        for a, e in atoms:
            d[a] = d.get(a, F0) + e
        mono = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))
        return pmul(fac, self.network(bvs, ns, mono))

    def network(self, bvs, ns, mono):
        """sum over several independent bound variables of one monomial"""
        # inverse-pair contraction
        for i, v in enumerate(bvs):
            occ = [(a, e) for a, e in mono if v in a.fv]
            if len(occ) == 2 and all(e == 1 and a.kind == "a" for a, e in occ):
                (a1, _), (a2, _) = occ
                pr = self.ctx.inverse_pairs.get(frozenset((a1.data[0], a2.data[0])))
                if pr is not None and a1.data[0] != a2.data[0] and self.same(pr, ns[i]):
                    va = patom(atom("v", v, frozenset((v,))))
                    r1, s1 = self._other(a1, va)
                    r2, s2 = self._other(a2, va)
                    if r1 is not None and r2 is not None and (s1 != s2 or a1.data[0] in self.ctx.symmetric or a2.data[0] in self.ctx.symmetric):
                        rest = tuple((a, e) for a, e in mono if a is not a1 and a is not a2)
                        body = pmul(poly({rest: F1}), self.mkcond_l("eq", psub(r1, r2)))
                        r = body
                        for j, (w, nn) in enumerate(zip(bvs, ns)):
                            if j != i:
                                r = self.sum_poly(w, nn, r)
                        return r
        # connected components
        n = len(bvs)
        parent = list(range(n))

        def find(x):
            while parent[x] != x:
                x = parent[x]
            return x

        idx = {v: i for i, v in enumerate(bvs)}
        free = []
        dep = []
        for a, e in mono:
            vs = [idx[v] for v in a.fv if v in idx]
            if not vs:
                free.append((a, e))
                continue
            dep.append((a, e, vs))
            for x in vs[1:]:
                parent[find(x)] = find(vs[0])
        r = poly({tuple(free): F1})
        groups = {}
        for i in range(n):
            groups.setdefault(find(i), []).append(i)
        for root, members in groups.items():
            ats = [(a, e) for a, e, vs in dep if find(vs[0]) == root]
            if not ats:
                for i in members:
                    r = pmul(r, ns[i])
                continue
            r = pmul(r, self.sum_atom([bvs[i] for i in members], [ns[i] for i in members], ats))
        return r

    def _other(self, a, va):
        """the index of a matrix entry that is not the bound variable, and the side of the bound variable"""
        ps = a.data[1]
        if len(ps) != 2:
            return None, None
        if ps[0] is va and ps[1] is not va:
            return ps[1], 0
        if ps[1] is va and ps[0] is not va:
            return ps[0], 1
        return None, None

    def same(self, p, q):
        return p is q or psub(p, q).is_zero()

    def sum_atom(self, bvs, ns, ats):
        depth = 1 + max(a.depth for a, _ in ats)
        k = len(bvs)
        canon = [tm.var(f"B{depth}_{i}", "I") for i in range(k)]
        best = None
        base = poly({tuple(sorted(ats, key=lambda ae: ae[0].id)): F1})
        perms = itertools.permutations(range(k)) if k <= 4 else [tuple(range(k))]
        for perm in perms:
            body = self.psubst(base, {bvs[perm[i]]: patom(atom("v", canon[i], frozenset((canon[i],)))) for i in range(k)})
            if len(body.terms) != 1:
                # renaming turned a condition round (1 - its complement): sum the parts
                if k == 1 and bvs[0] is not canon[0]:
                    r = ZERO
                    for m, c in body.terms:
                        r = padd(r, pscale(self.sum_mono(canon[0], ns[0], m), c))
                    return r
                continue
            key = (tuple(ns[perm[i]].id for i in range(k)), _mkey(body.terms[0][0]))
            if best is None or key < best[0]:
                best = (key, tuple(ns[perm[i]] for i in range(k)), body.terms[0])
        _, nn, (mono, c) = best
        fv = frozenset().union(*[a.fv for a, _ in mono]) - set(canon)
        for p in nn:
            fv = fv | p.fv
        return pscale(patom(atom("S", (tuple(canon), nn, mono), fv, depth)), c)

    # -- derivatives -----------------------------------------------------------
    def diff(self, p, v):
        r = ZERO
        for m, c in p.terms:
            for i, (a, e) in enumerate(m):
                if v not in a.fv or a.kind == "I":
                    continue
                rest = list(m[:i] + m[i + 1:])
                if e != 1:
                    rest.append((a, e - 1))
                mm = pscale(ONE, c * e)
                for x, ex in rest:
                    mm = pmul(mm, self.apow(x, ex, F1))
                r = padd(r, pmul(mm, self.adiff(a, v)))
        return r

    def adiff(self, a, v):
        k = a.kind
        if k == "v":
            return ONE if a.data is v else ZERO
        if k == "P":
            return self.diff(a.data, v)
        if k == "E":
            return pmul(patom(a), self.diff(poly({a.data: F1}), v))
        if k == "S":
            raise NotImplementedError("derivative of a sum")
        if k == "f":
            name, ps = a.data
            if any(v in q.fv for q in ps[1:]):
                raise NotImplementedError("derivative in a shape argument")
            d = self.diff(ps[0], v)
            x = ps[0]
            if name == "log":
                o = self.ppow(x, -1)
            elif name == "digamma":
                o = self._fnatom("trigamma", (x,))
            elif name == "gammaln":
                o = self._fnatom("digamma", (x,))
            elif name == "arcsinh":
                o = self.ppow(padd(pmul(x, x), ONE), Fraction(-1, 2))
            elif name == "trigamma":
                o = self._fnatom("tetragamma", (x,))
            elif name in ("normcdf", "tcdf", "gammacdf", "betacdf", "igcdf"):
                # trusted: the density of the law is the derivative of its distribution function
                from .scipyshim import LAWS
                from . import terms as tm
                law = LAWS[{"normcdf": "norm", "tcdf": "t", "gammacdf": "gamma", "betacdf": "beta", "igcdf": "invgauss"}[name]]
                o = self.nf(tm.fn("exp", law._logpdf(*[self.ctx.to_term(q) for q in ps])))
            else:
                raise NotImplementedError("derivative of " + name)
            return pmul(o, d)
        if k == "a":
            raise NotImplementedError("derivative of application")
        return ZERO

    # -- zero test ----------------------------------------------------------------
    def clear(self, d, rounds=24):
        """multiply by denominators until no PolyAtom has a negative exponent;
        returns (cleared poly, list of denominators used)"""
        dens = []
        for _ in range(rounds):
            worst = {}
            for m, _c in d.terms:
                for a, e in m:
                    if a.kind == "P" and e < 0:
                        worst[a] = min(worst.get(a, F0), e)
            if not worst:
                return d, dens
            a = max(worst, key=lambda x: (x.depth, x.id))
            n = -(worst[a].numerator // worst[a].denominator)
            dens.append(a.data)
            new = ZERO
            for m, c in d.terms:
                ee = F0
                rest = []
                for x, e in m:
                    if x is a:
                        ee = e
                    else:
                        rest.append((x, e))
                tot = ee + n
                fl = tot.numerator // tot.denominator
                r = poly({tuple(rest): c})
                if tot - fl:
                    r = pmul(r, patom(a, tot - fl))
                for _i in range(fl):
                    r = pmul(r, a.data)
                new = padd(new, r)
            d = new
        return d, dens
