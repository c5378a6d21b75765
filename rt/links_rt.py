"""Run-time contracts C07."""
import numpy as np
from .core import *
from ondil import links as L

NAMES = ["Identity", "Log", "LogShiftValue", "LogShiftTwo", "LogIdent", "Logit", "InverseSoftPlus", "InverseSoftPlusShiftValue",
         "InverseSoftPlusShiftTwo", "Sqrt", "SqrtShiftValue", "SqrtShiftTwo"]
SHIFT = {"LogShiftValue", "InverseSoftPlusShiftValue", "SqrtShiftValue"}


def make(c):
    cls = getattr(L, c["name"])
    return cls(c["v"]) if c["name"] in SHIFT else cls()


def lower(c):
    n = c["name"]
    if n == "Identity":
        return -np.inf
    if n in SHIFT:
        return c["v"]
    return 2.0 if n.endswith("Two") else 0.0


def g_x(g):
    name = NAMES[g.i % len(NAMES)]
    v = float(g.pick([0.0, 2.0, -1.5, 1.0, 10.0, 0.25]))
    k = g.size(1, 8, 20)
    c = dict(name=name, v=v)
    lo = lower(c)
    mag = np.exp(g.r.uniform(np.log(1e-4), np.log(60), size=k))
    x = lo + mag if np.isfinite(lo) else g.r.normal(size=k) * 10
    sp = [f for f in g.lits.floats if 1e-4 < abs(f) < 60] + [1.0, 2.0, 40.0, 0.5, 41.0, 39.5]
    for j in range(min(2, k)):
        s = abs(g.pick(sp))
        x[j] = (lo if np.isfinite(lo) else 0.0) + s * g.pick([1.0, 1 - 1e-3, 1 + 1e-3])
    if name == "Logit":
        x = g.r.uniform(1e-4, 1 - 1e-4, size=k)
        if g.r.random() < 0.3:
            x[0] = g.pick([0.5, 1e-6, 1 - 1e-6, 0.25])
    c["x"] = x
    return c


def c_round(c):
    l, x = make(c), c["x"]
    cp = x.copy()
    e = l.link(x)
    back = l.inverse(e)
    same(cp, x, "argument")
    off = 2e-10 if ("Log" in c["name"] or "Sqrt" in c["name"]) else 0
    close(back, x, 1e-7, off + 1e-8 * np.max(np.abs(x)), f"{c['name']}: inverse(link(x))")
    spec = link_spec(c, x)
    close(e, spec, 1e-6, 1e-6 * (1e-3 + np.max(np.abs(spec))), f"{c['name']}: link(x)")


def link_spec(c, x):
    n = c["name"]
    v = c["v"] if n in SHIFT else (2.0 if n.endswith("Two") else 0.0)
    z = x - v
    if n == "Identity":
        return x.copy()
    if n == "LogIdent":
        return np.where(x <= 1, np.log(x), x - 1)
    if n == "Logit":
        return np.log(x) - np.log1p(-x)
    if n.startswith("Log"):
        return np.log(z)
    if n.startswith("Sqrt"):
        return np.sqrt(z)
    return z + np.log(-np.expm1(-z))


def inv_spec(c, e):
    n = c["name"]
    v = c["v"] if n in SHIFT else (2.0 if n.endswith("Two") else 0.0)
    if n == "Identity":
        return e.copy()
    if n == "LogIdent":
        return np.where(e <= 0, np.exp(np.minimum(e, 0)), e + 1)
    if n == "Logit":
        return 1 / (1 + np.exp(-e))
    if n.startswith("Log"):
        return v + np.exp(e)
    if n.startswith("Sqrt"):
        return v + e ** 2
    return v + np.logaddexp(0, e)


def g_e(g):
    name = NAMES[g.i % len(NAMES)]
    k = g.size(1, 8, 20)
    e = g.r.uniform(-30, 30, size=k) if g.r.random() < 0.7 else g.r.uniform(-500, 500, size=k)
    sp = [f for f in g.lits.floats if abs(f) < 100] + [0.0, 1.0, -1.0, 40.0, -40.0, 35.0, 34.5]
    e[0] = float(g.pick(sp)) * float(g.pick([1, 1, -1, 1.001, 0.999]))
    if g.r.random() < 0.2:
        e[-1] = float(g.pick([-1, 1])) * float(g.pick([700.0, 720.0, 1e3, 1e5, 1e9]))
    if name.startswith("Sqrt"):
        e = np.abs(e) + 1e-3
    return dict(name=name, v=float(g.pick([0.0, 2.0, -1.5, 1.0, 10.0])), e=e)


def c_range(c):
    l, e = make(c), c["e"]
    cp = e.copy()
    m = np.asarray(l.inverse(e), dtype=float)
    same(cp, e, "argument")
    lo, hi = l.link_support
    need(np.all(np.isfinite(m)), f"{c['name']}: inverse link not finite: {short(m)} at {short(e)}")
    if c["name"] in ("Log", "LogIdent", "InverseSoftPlus"):
        need(np.all(m[e > -700] > 0) and np.all(m >= 0), f"{c['name']}: inverse link is not positive: {short(m)} at {short(e)}")
    if c["name"] == "Logit":
        need(np.all(m >= 0) and np.all(m <= 1), f"{c['name']}: inverse link outside [0,1]")
        ok = np.abs(e) < 33
        need(np.all(m[ok] > 0) and np.all(m[ok] < 1), f"{c['name']}: inverse link outside (0,1): {short(m)}")
    else:
        lo = np.where(e > -700, lo, 0.0) if 0 < lo < 1e-300 else lo
        need(np.all(m >= lo) and np.all(m <= hi), f"{c['name']}: inverse link outside the support: {short(m)} at {short(e)}")
    mod = np.abs(e) < 34
    with np.errstate(all="ignore"):
        s = inv_spec(c, e)
    close(m[mod], s[mod], 1e-7, None, f"{c['name']}: inverse link")
    rel = np.abs(m[mod] - s[mod]) > 1e-6 * np.abs(s[mod]) + (1e-13 if lower(c) not in (0.0,) else 0)
    if c["name"] in ("Log", "LogIdent", "InverseSoftPlus"):
        need(not rel.any(), f"{c['name']}: inverse link {short(m[mod])}, expected {short(s[mod])}")


def num_d(f, x, h):
    return (f(x - 2 * h) - 8 * f(x - h) + 8 * f(x + h) - f(x + 2 * h)) / (12 * h)


def c_deriv(c):
    l, x = make(c), c["x"]
    lo = lower(c)
    d = (x - lo) if np.isfinite(lo) else np.ones_like(x)
    d = np.minimum(d, 1.0)
    if c["name"] == "Logit":
        d = np.minimum(x, 1 - x)
    ok = d > 1e-3
    if c["name"] == "LogIdent":
        ok &= np.abs(x - 1) > 1e-2 * np.maximum(1, d)
    x, d = x[ok], d[ok]
    if len(x) == 0:
        return
    cp = x.copy()
    f = lambda z: link_spec(c, z)
    try:
        d1 = l.link_derivative(x)
    except NotImplementedError:
        d1 = None
    if d1 is not None:
        e1 = num_d(f, x, d * 1e-3)
        close(d1, e1, 1e-5, 1e-5 * np.max(np.abs(e1)) * 1e-3, f"{c['name']}: link derivative at {short(x)}")
        rel = np.abs(d1 - e1) > 1e-4 * np.abs(e1)
        need(not rel.any(), f"{c['name']}: link derivative {short(d1)}, expected {short(e1)} at {short(x)}")
    try:
        d2 = l.link_second_derivative(x)
    except NotImplementedError:
        d2 = None
    if d2 is not None and (c["name"] not in ("InverseSoftPlus", "InverseSoftPlusShiftValue", "InverseSoftPlusShiftTwo") or True):
        z = x - (lo if np.isfinite(lo) else 0)
        g1 = {"Identity": lambda t: np.ones_like(t), "Logit": lambda t: 1 / (t * (1 - t)), "LogIdent": lambda t: np.where(t <= 1, 1 / t, 1.0)}.get(c["name"])
        if g1 is None:
            if c["name"].startswith("Log"):
                g1 = lambda t: 1 / (t - lo)
            elif c["name"].startswith("Sqrt"):
                g1 = lambda t: 0.5 / np.sqrt(t - lo)
            else:
                g1 = lambda t: 1 / -np.expm1(-(t - lo))
        e2 = num_d(g1, x, d * 1e-3)
        keep = np.ones(len(x), bool)
        if "SoftPlus" in c["name"]:
            keep = z < 12  # the documented division clamp acts when cosh overflows the tolerance
        rel = np.abs(d2 - e2)[keep] > 1e-4 * np.abs(e2)[keep] + 1e-7
        need(not rel.any(), f"{c['name']}: second derivative {short(d2)}, expected {short(e2)} at {short(x)}")
    same(cp, x, "argument")


def c_invderiv(c):
    l, e = make(c), c["e"]
    if c["name"] == "LogIdent":
        e = e[np.abs(e) > 1e-2]
    full = np.asarray(l.inverse_derivative(e), dtype=float)
    need(np.all(np.isfinite(full)) and np.all(full >= 0), f"{c['name']}: derivative of the inverse link {short(full)} at {short(e)}")
    e = e[np.abs(e) < 30]
    if len(e) == 0:
        return
    cp = e.copy()
    d = l.inverse_derivative(e)
    s = num_d(lambda t: inv_spec({**c, "v": 0.0 if c["name"] in SHIFT else c["v"]}, t) if not c["name"].endswith("Two") else inv_spec(c, t) - 2.0, e, 1e-3)
    small = np.abs(e) < 18
    rel = np.abs(d - s)[small] > 2e-4 * np.abs(s)[small] + 1e-9
    need(not rel.any(), f"{c['name']}: derivative of the inverse link {short(d)}, expected {short(s)} at {short(e)}")
    rel = np.abs(d - s) > 2e-3 * np.abs(s) + 1e-9
    need(not rel.any(), f"{c['name']}: derivative of the inverse link {short(d)}, expected {short(s)} at {short(e)}")
    same(cp, e, "argument")


def g_sup(g):
    return dict(name=NAMES[g.i % len(NAMES)], v=float(g.pick([0.0, 2.0, -1.5, 1.0, 10.0])))


def c_sup(c):
    lo, hi = make(c).link_support
    L0 = lower(c)
    if c["name"] == "Identity":
        need(lo == -np.inf and hi == np.inf, "support")
        return
    need(L0 <= lo <= L0 + 1e-300 + 1e-15 * abs(L0), f"{c['name']}: lower end of the support {lo}")
    need(hi == np.inf if c["name"] != "Logit" else (hi <= 1 and hi > 1 - 1e-12), f"{c['name']}: upper end of the support {hi}")


CONTRACTS = {"C07": [("round_trip", g_x, c_round, 300, 4000), ("range", g_e, c_range, 300, 4000), ("derivatives", g_x, c_deriv, 300, 4000),
                     ("inverse_derivative", g_e, c_invderiv, 300, 4000), ("support", g_sup, c_sup, 36, 60)]}
