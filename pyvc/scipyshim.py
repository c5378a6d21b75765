"""Trusted contracts of the scipy laws and special functions used by the package."""
from fractions import Fraction
from . import terms as tm
from .sym import SV, Unsupported, tt, wrap, cur, is_scalar
from .arr import SArr, N0, N1, elementwise, dimt
from .npshim import asarray
from . import npshim

H = tm.num(Fraction(1, 2))
TWO = tm.num(2)
log = lambda t: tm.fn("log", t)
exp = lambda t: tm.fn("exp", t)
LOG2PI = log(tm.mul(TWO, tm.PI))


def sinh(t):
    return tm.mul(H, tm.sub(exp(t), exp(tm.neg(t))))


class Law:
    """standardised law: shapes, support (lo, hi open end points or None), logpdf/cdf/ppf/mean as term functions"""

    def __init__(self, name, shapes, lo, hi, logpdf, cdf, ppf, mean, shape_signs=()):
        self.name, self.shapes, self.lo, self.hi = name, shapes, lo, hi
        self._logpdf, self._cdf, self._ppf, self._mean = logpdf, cdf, ppf, mean

    def _bind(self, args, kw):
        names = list(self.shapes) + ["loc", "scale"]
        d = {"loc": 0, "scale": 1}
        for n, a in zip(names, args):
            d[n] = a
        for k, v in kw.items():
            if k not in names:
                raise TypeError(f"{self.name} got an unexpected keyword argument {k}")
            d[k] = v
        for n in names:
            if n not in d:
                raise TypeError(f"{self.name} misses the shape parameter {n}")
        return [d[n] for n in names]

    def __call__(self, *args, **kw):
        return Frozen(self, self._bind(args, kw))

    def _direct(m):
        def f(self, x, *args, **kw):
            return getattr(Frozen(self, self._bind(args, kw)), m)(x)
        return f

    logpdf, pdf, cdf, ppf, logcdf, sf = _direct("logpdf"), _direct("pdf"), _direct("cdf"), _direct("ppf"), _direct("logcdf"), _direct("sf")

    def rvs(self, *args, size=1, random_state=None, **kw):
        return Frozen(self, self._bind(args, kw)).rvs(size)

    def mean(self, *args, **kw):
        return Frozen(self, self._bind(args, kw)).mean()

    def fit(self, y, *a, **k):
        """contract: some admissible parameter values (shapes, loc, scale), scale and shapes named in fit_signs positive"""
        if a or k:
            raise Unsupported("fit with options")
        p = cur()
        out = []
        for s in list(self.shapes) + ["loc", "scale"]:
            pos = s in ("scale", "df", "b", "s", "mu") or (s == "a" and self.name != "johnsonsu")
            out.append(SV(p.fresh("fit_" + s, "R", "+" if pos else None)))
        p.ghost.setdefault("fits", []).append((self.name, y, tuple(out)))
        return tuple(out)

    def logpdf_t(self, x, ps):
        *sh, loc, sc = ps
        z = tm.div(tm.sub(x, loc), sc)
        v = tm.sub(self._logpdf(z, *sh), log(sc))
        c = self.inside(z)
        return v if c is tm.TRUE else tm.ite(c, v, tm.neg(tm.INF))

    def pdf_t(self, x, ps):
        *sh, loc, sc = ps
        z = tm.div(tm.sub(x, loc), sc)
        v = tm.div(exp(self._logpdf(z, *sh)), sc)
        c = self.inside(z)
        return v if c is tm.TRUE else tm.ite(c, v, N0)

    def inside(self, z):
        c = tm.TRUE
        if self.lo is not None:
            c = tm.band(c, tm.lt(self.lo, z))
        if self.hi is not None:
            c = tm.band(c, tm.lt(z, self.hi))
        return c

    def cdf_t(self, x, ps):
        *sh, loc, sc = ps
        z = tm.div(tm.sub(x, loc), sc)
        v = self._cdf(z, *sh)
        if self.hi is not None:
            v = tm.ite(tm.lt(z, self.hi), v, N1)
        if self.lo is not None:
            v = tm.ite(tm.lt(self.lo, z), v, N0)
        return v

    def ppf_t(self, q, ps):
        *sh, loc, sc = ps
        return tm.add(loc, tm.mul(sc, self._ppf(q, *sh)))

    def mean_t(self, ps):
        *sh, loc, sc = ps
        return tm.add(loc, tm.mul(sc, self._mean(*sh)))


class Frozen:
    def __init__(self, law, ps):
        self.law, self.ps = law, ps

    def _ew(self, f, x):
        return elementwise(lambda t, *ps: f(t, ps), [x] + list(self.ps), sort="R")

    def logpdf(self, x):
        return self._ew(self.law.logpdf_t, x)

    def pdf(self, x):
        return self._ew(self.law.pdf_t, x)

    def cdf(self, x):
        return self._ew(self.law.cdf_t, x)

    def sf(self, x):
        return self._ew(lambda t, ps: tm.sub(N1, self.law.cdf_t(t, ps)), x)

    def logcdf(self, x):
        return self._ew(lambda t, ps: log(self.law.cdf_t(t, ps)), x)

    def logpmf(self, x):
        raise AttributeError("'rv_continuous_frozen' object has no attribute 'logpmf'")

    def ppf(self, x):
        return self._ew(self.law.ppf_t, x)

    def median(self):
        return self.ppf(0.5)

    def mean(self):
        if self.law._mean is None:
            raise Unsupported("mean of " + self.law.name)
        return elementwise(lambda *ps: self.law.mean_t(ps), list(self.ps), sort="R")

    def rvs(self, size=1, random_state=None):
        """contract: entry = quantile of a uniform number in (0, 1), parameters broadcast against size"""
        u = uniform_draw(size)
        return self._ew(self.law.ppf_t, u)


def uniform_draw(size):
    p = cur()
    nm = p.freshname("U")
    p.spec.appsigns[nm] = "+"
    p.spec.appaxioms[nm] = lambda a, t: [tm.lt(t, N1), tm.lt(N0, t)]
    p.spec.appsamplers[nm] = lambda rng, a, env, apps: rng.random()
    sh = size if isinstance(size, (tuple, list)) else (size,)
    p.ghost.setdefault("draws", []).append((nm, sh))
    return SArr.new(sh, lambda i: tm.app(nm, i, "R"), "R")


class Uniform:
    def rvs(self, loc=0, scale=1, size=1, random_state=None):
        return uniform_draw(size)


sq = lambda t: tm.mul(t, t)
inv = lambda t: tm.power(t, tm.num(-1))
asinh = lambda t: tm.fn("arcsinh", t)
gl = lambda t: tm.fn("gammaln", t)
ncdf = lambda t: tm.fn("normcdf", t)
nppf = lambda t: tm.fn("normppf", t)
nlog = lambda z: tm.sub(tm.neg(tm.mul(H, sq(z))), tm.mul(H, LOG2PI))

LAWS = {}


def _law(*a):
    LAWS[a[0]] = Law(*a)


_law("norm", (), None, None, nlog, ncdf, nppf, lambda: N0)
_law("t", ("df",), None, None,
     lambda z, d: tm.add(gl(tm.mul(H, tm.add(d, N1))), tm.neg(gl(tm.mul(H, d))), tm.neg(tm.mul(H, log(tm.mul(d, tm.PI)))),
                         tm.neg(tm.mul(H, tm.add(d, N1), log(tm.add(N1, tm.div(sq(z), d)))))),
     lambda z, d: tm.fn("tcdf", z, d), lambda q, d: tm.fn("tppf", q, d), lambda d: N0)
_law("gamma", ("a",), N0, None,
     lambda z, a: tm.add(tm.mul(tm.sub(a, N1), log(z)), tm.neg(z), tm.neg(gl(a))),
     lambda z, a: tm.fn("gammacdf", z, a), lambda q, a: tm.fn("gammappf", q, a), lambda a: a)
_law("beta", ("a", "b"), N0, N1,
     lambda z, a, b: tm.add(gl(tm.add(a, b)), tm.neg(gl(a)), tm.neg(gl(b)), tm.mul(tm.sub(a, N1), log(z)), tm.mul(tm.sub(b, N1), log(tm.sub(N1, z)))),
     lambda z, a, b: tm.fn("betacdf", z, a, b), lambda q, a, b: tm.fn("betappf", q, a, b), lambda a, b: tm.div(a, tm.add(a, b)))
_law("lognorm", ("s",), N0, None,
     lambda z, s: tm.add(tm.neg(tm.div(sq(log(z)), tm.mul(TWO, sq(s)))), tm.neg(log(s)), tm.neg(log(z)), tm.neg(tm.mul(H, LOG2PI))),
     lambda z, s: ncdf(tm.div(log(z), s)), lambda q, s: exp(tm.mul(s, nppf(q))), lambda s: exp(tm.mul(H, sq(s))))
_law("invgamma", ("a",), N0, None,
     lambda z, a: tm.add(tm.neg(tm.mul(tm.add(a, N1), log(z))), tm.neg(gl(a)), tm.neg(inv(z))),
     lambda z, a: tm.sub(N1, tm.fn("gammacdf", inv(z), a)), lambda q, a: inv(tm.fn("gammappf", tm.sub(N1, q), a)), lambda a: inv(tm.sub(a, N1)))
_law("invgauss", ("mu",), N0, None,
     lambda z, m: tm.add(tm.neg(tm.mul(H, LOG2PI)), tm.neg(tm.mul(tm.num(Fraction(3, 2)), log(z))), tm.neg(tm.div(sq(tm.sub(z, m)), tm.mul(TWO, z, sq(m))))),
     lambda z, m: tm.fn("igcdf", z, m), lambda q, m: tm.fn("igppf", q, m), lambda m: m)
_law("johnsonsu", ("a", "b"), None, None,
     lambda z, a, b: tm.add(log(b), tm.neg(tm.mul(H, log(tm.add(sq(z), N1)))), nlog(tm.add(a, tm.mul(b, asinh(z))))),
     lambda z, a, b: ncdf(tm.add(a, tm.mul(b, asinh(z)))), lambda q, a, b: sinh(tm.div(tm.sub(nppf(q), a), b)),
     lambda a, b: tm.neg(tm.mul(exp(tm.div(H, sq(b))), sinh(tm.div(a, b)))))
_law("logistic", (), None, None,
     lambda z: tm.sub(tm.neg(z), tm.mul(TWO, log(tm.add(N1, exp(tm.neg(z)))))),
     lambda z: inv(tm.add(N1, exp(tm.neg(z)))), lambda q: tm.sub(log(q), log(tm.sub(N1, q))), lambda: N0)
_law("gumbel_l", (), None, None, lambda z: tm.sub(z, exp(z)),
     lambda z: tm.sub(N1, exp(tm.neg(exp(z)))), lambda q: log(tm.neg(log(tm.sub(N1, q)))), lambda: tm.neg(tm.EULER))
_law("gumbel_r", (), None, None, lambda z: tm.sub(tm.neg(z), exp(tm.neg(z))),
     lambda z: exp(tm.neg(exp(tm.neg(z)))), lambda q: tm.neg(log(tm.neg(log(q)))), lambda: tm.EULER)
_law("expon", (), N0, None, lambda z: tm.neg(z), lambda z: tm.sub(N1, exp(tm.neg(z))), lambda q: tm.neg(log(tm.sub(N1, q))), lambda: N1)


class Stats:
    rv_continuous = object
    uniform = Uniform()

    def __getattr__(self, n):
        if n in LAWS:
            return LAWS[n]
        raise Unsupported("scipy.stats." + n)


def _sp(name):
    return lambda x: elementwise(lambda t: tm.fn(name, t), [x], sort="R")


class Special:
    digamma = psi = staticmethod(_sp("digamma"))
    gammaln = staticmethod(_sp("gammaln"))

    @staticmethod
    def polygamma(n, x):
        if n == 1:
            return elementwise(lambda t: tm.fn("trigamma", t), [x], sort="R")
        if n == 0:
            return Special.digamma(x)
        raise Unsupported("polygamma")

    @staticmethod
    def gamma(x):
        return elementwise(lambda t: exp(gl(t)), [x], sort="R")

    def __getattr__(self, n):
        raise Unsupported("scipy.special." + n)


class Optimize:
    def minimize(self, fun, x0=None, args=(), method=None, bounds=None, **k):
        p = cur()
        h = p.ghost.get("minimize")
        if h is None:
            raise Unsupported("scipy.optimize.minimize has no contract in this unit")
        return h(fun, x0, args, method, bounds)

    def __getattr__(self, n):
        raise Unsupported("scipy.optimize." + n)


class Scipy:
    stats = Stats()
    special = Special()
    optimize = Optimize()
