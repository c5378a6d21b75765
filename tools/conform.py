"""Conformance of the trusted contracts: every operation of pyvc/npshim.py, pyvc/arr.py and pyvc/scipyshim.py used here is applied to symbolic
arrays with symbolic dimensions, the resulting terms (and their canonical forms) are evaluated at random data and compared with numpy/scipy.

usage: python3-vt tools/conform.py [cases]      exit 1 on a disagreement
"""
import math, os, random, sys, warnings
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")
import numpy as np
import scipy.special as sp
import scipy.stats as st
from pyvc import npshim as S, scipyshim as Z, sym, terms as tm
from pyvc.arr import SArr, symarr
from pyvc.sym import SV, SB, Unsupported, tt

CASES = int(sys.argv[1]) if len(sys.argv) > 1 else 6
# name -> f(np or shim module, arrays); a, b (n x d), s (d x d), v, u (n), c (d), m (bool n), k int vector of columns
OPS = {
    "add": lambda N, A: A.a + A.b, "radd": lambda N, A: 2 + A.a, "sub": lambda N, A: A.a - A.c, "rsub": lambda N, A: 1 - A.v, "mul": lambda N, A: A.a * A.v[:, None],
    "div": lambda N, A: A.a / (1 + A.b**2), "rdiv": lambda N, A: 1 / (2 + A.v**2), "neg": lambda N, A: -A.a, "pow2": lambda N, A: A.a**2, "pow3": lambda N, A: A.v**3,
    "powhalf": lambda N, A: (A.v**2) ** 0.5, "powneg": lambda N, A: (1 + A.v**2) ** -1, "rpow": lambda N, A: 0.5 ** A.k, "powvec": lambda N, A: (1 + A.v**2) ** A.u,
    "lt": lambda N, A: A.v < A.u, "le": lambda N, A: A.v <= A.u, "gt": lambda N, A: A.v > 0, "ge": lambda N, A: A.v >= 0, "eq": lambda N, A: A.k == 1, "ne": lambda N, A: A.k != 1,
    "and": lambda N, A: (A.v < A.u) & (A.v > 0), "or": lambda N, A: (A.v < A.u) | (A.v > 0), "not": lambda N, A: ~(A.v < A.u),
    "matmul": lambda N, A: A.a @ A.s, "matvec": lambda N, A: A.a @ A.c, "vecmat": lambda N, A: A.v @ A.a, "dot": lambda N, A: A.v @ A.u, "gram": lambda N, A: A.a.T @ A.a,
    "npdot": lambda N, A: N.dot(A.a, A.c), "outer": lambda N, A: N.outer(A.v, A.c), "outer_row": lambda N, A: N.outer(A.a[0:1, :], A.a[0:1, :]),
    "T": lambda N, A: A.a.T, "transpose": lambda N, A: N.transpose(A.a), "T1": lambda N, A: A.v.T,
    "sum": lambda N, A: N.sum(A.a), "sum0": lambda N, A: N.sum(A.a, axis=0), "sum1": lambda N, A: N.sum(A.a, axis=1), "summ1": lambda N, A: N.sum(A.a, axis=-1), "msum": lambda N, A: A.v.sum(),
    "sumbool": lambda N, A: N.sum(A.v > 0), "sumkeep": lambda N, A: N.sum(A.a, axis=1, keepdims=True), "mean": lambda N, A: N.mean(A.v), "mean0": lambda N, A: N.mean(A.a, axis=0), "mmean": lambda N, A: A.a.mean(axis=1),
    "average": lambda N, A: N.average(A.a, weights=1 + A.v**2, axis=0), "average1": lambda N, A: N.average(A.v, weights=1 + A.u**2), "var": lambda N, A: N.var(A.v), "var1": lambda N, A: N.var(A.v, ddof=1), "std": lambda N, A: N.std(A.v, ddof=1), "std0": lambda N, A: N.std(A.a, axis=0),
    "any": lambda N, A: N.any(A.v > 0.5), "all": lambda N, A: N.all(A.v > -5), "all0": lambda N, A: N.all(A.a > 0, axis=0), "count_nonzero": lambda N, A: N.count_nonzero(A.k), "count_nonzero1": lambda N, A: N.count_nonzero(A.a > 0, axis=1),
    "max": lambda N, A: N.max(A.v), "min": lambda N, A: N.min(A.v), "mmax": lambda N, A: A.v.max(), "max2": lambda N, A: N.max(N.abs(A.a)), "argmin": lambda N, A: N.argmin(A.v), "argmax": lambda N, A: N.argmax(A.v),
    "sqrt": lambda N, A: N.sqrt(A.v**2), "square": lambda N, A: N.square(A.v), "abs": lambda N, A: N.abs(A.v), "babs": lambda N, A: abs(A.v), "sign": lambda N, A: N.sign(A.v), "exp": lambda N, A: N.exp(A.v), "log": lambda N, A: N.log(1 + A.v**2), "log1p": lambda N, A: N.log1p(A.v**2), "expm1": lambda N, A: N.expm1(A.v),
    "cosh": lambda N, A: N.cosh(A.v), "sinh": lambda N, A: N.sinh(A.v), "arcsinh": lambda N, A: N.arcsinh(A.v), "power": lambda N, A: N.power(1 + A.v**2, 3),
    "maximum": lambda N, A: N.maximum(A.v, A.u), "minimum": lambda N, A: N.minimum(A.v, 0.3), "fmin": lambda N, A: N.fmin(A.v, 0.3), "clip": lambda N, A: N.clip(A.v, -0.5, 0.5), "clip1": lambda N, A: N.clip(A.v, -np.inf, 0.5), "mclip": lambda N, A: A.v.clip(-0.5, 0.5),
    "where": lambda N, A: N.where(A.v > 0, A.u, 0), "where2": lambda N, A: N.where(A.a > 0, A.a, A.c), "isclose": lambda N, A: N.isclose(A.k, 1),
    "add_f": lambda N, A: N.add(A.v, A.u), "subtract": lambda N, A: N.subtract(A.v, A.u), "multiply": lambda N, A: N.multiply(A.v, 2), "divide": lambda N, A: N.divide(A.v, 2 + A.u**2), "negative": lambda N, A: N.negative(A.v), "reciprocal": lambda N, A: N.reciprocal(1 + A.v**2),
    "logical_and": lambda N, A: N.logical_and(A.v > 0, A.u > 0), "logical_not": lambda N, A: N.logical_not(A.v > 0),
    "expand": lambda N, A: N.expand_dims(A.v, -1), "expand0": lambda N, A: N.expand_dims(A.v, 0), "expand_mul": lambda N, A: A.a * N.expand_dims(A.v, -1), "squeeze": lambda N, A: N.squeeze(A.v[:, None], -1), "msqueeze": lambda N, A: (A.a @ A.c[:, None]).squeeze(-1), "ravel": lambda N, A: A.v[:, None].ravel(), "flatten": lambda N, A: A.v[:, None].flatten(), "reshape": lambda N, A: A.v.reshape(-1, 1), "reshape2": lambda N, A: A.v.reshape((1, -1)),
    "hstack": lambda N, A: N.hstack((N.ones((A.n, 1)), A.a)), "column_stack": lambda N, A: N.column_stack((A.v, A.a)), "stack1": lambda N, A: N.stack([A.v, A.u], axis=1), "stack0": lambda N, A: N.stack([A.v, A.u], axis=0), "vstack": lambda N, A: N.vstack([A.v, A.u]), "concat": lambda N, A: N.concatenate((A.v, A.u)), "concat0": lambda N, A: N.concatenate((A.a, A.b), axis=0), "append": lambda N, A: N.append(A.v, 2.0),
    "zeros": lambda N, A: N.zeros((A.n, 2)) + A.v[:, None], "ones": lambda N, A: N.ones(A.n) * A.v, "full": lambda N, A: N.full(A.n, 2.5) + A.v, "zeros_like": lambda N, A: N.zeros_like(A.a), "ones_like": lambda N, A: N.ones_like(A.v), "repeat": lambda N, A: N.repeat(2.0, A.n) + A.v, "repeatT": lambda N, A: N.repeat(True, A.n), "tile": lambda N, A: N.tile([1.0, 2.0], (A.n, 1)),
    "arange": lambda N, A: N.arange(A.n) + 0 * A.v, "arange2": lambda N, A: N.arange(1, A.n + 1), "arange_down": lambda N, A: N.arange(A.n - 1, -1, -1), "eye": lambda N, A: N.eye(A.d), "diag": lambda N, A: N.diag(A.s), "diagv": lambda N, A: N.diag(A.c), "trace": lambda N, A: N.trace(A.s), "linspace": lambda N, A: N.linspace(0.5, 2.0, A.n), "geomspace": lambda N, A: N.geomspace(4.0, 0.04, A.n),
    "row": lambda N, A: A.a[1, :], "row_last": lambda N, A: A.a[-1], "col": lambda N, A: A.a[:, 1], "el": lambda N, A: A.a[1, 0], "slice": lambda N, A: A.a[1:, :], "slice2": lambda N, A: A.v[:-1], "slice1": lambda N, A: A.a[1:2, :], "rev": lambda N, A: A.v[::-1], "newaxis": lambda N, A: A.v[None, :], "fancy": lambda N, A: A.a[:, A.sel], "flip": lambda N, A: N.flip(A.v),
    "delete": lambda N, A: N.delete(np.arange(4) if N is np else N.arange(4), 1),
    "copy": lambda N, A: N.copy(A.a), "array": lambda N, A: N.array([A.v[0], A.v[1]]), "asarray": lambda N, A: N.asarray(A.v),
    "cumsum": lambda N, A: N.cumsum(A.v),
}


def set_col(N, A):
    x = N.copy(A.a)
    x[:, 1] = A.v
    return x


def set_row(N, A):
    x = N.copy(A.a)
    x[0] = A.c
    x[1, :] += A.c
    return x


def set_slice(N, A):
    x = N.copy(A.v)
    x[1:] = 3.0
    return x


def set_sel(N, A):
    x = N.copy(A.a)
    x[:, A.sel] = A.a[:, A.sel] * 2
    return x


def set_view(N, A):
    x = N.copy(A.a)
    y = x[0, :]
    y[1] = 7.0
    z = x.T
    z[0, 1] = 5.0
    return x


def set_el(N, A):
    x = N.zeros(A.n)
    x[-1] = 1
    x[0] = A.v[1]
    x *= 2
    return x


def alias(N, A):
    x = N.copy(A.v)
    y = x
    y += 1
    z = x + 1
    z[0] = 9
    return x


OPS.update(set_col=set_col, set_row=set_row, set_slice=set_slice, set_sel=set_sel, set_view=set_view, set_el=set_el, alias=alias)


class Box:
    pass


def symbolic(p):
    A = Box()
    n, d = tm.var("n", "I"), tm.var("d", "I")
    p.assume(tm.le(tm.num(3), n))
    p.assume(tm.le(tm.num(2), d))
    A.n, A.d = SV(n), SV(d)
    A.a, A.b, A.s, A.v, A.u, A.c = symarr("a", (n, d)), symarr("b", (n, d)), symarr("s", (d, d)), symarr("v", (n,)), symarr("u", (n,)), symarr("c", (d,))
    A.k = symarr("k", (n,), sort="I")
    A.sel = S.asarray([1, 0])
    return A


def concrete(rng):
    A = Box()
    A.n, A.d = int(rng.integers(3, 6)), int(rng.integers(2, 5))
    A.a, A.b, A.s = rng.normal(size=(A.n, A.d)), rng.normal(size=(A.n, A.d)), rng.normal(size=(A.d, A.d))
    A.v, A.u, A.c = rng.normal(size=A.n), rng.normal(size=A.n), rng.normal(size=A.d)
    A.k = rng.integers(0, 3, size=A.n)
    A.sel = np.array([1, 0])
    return A


def evaluate(p, r, A, ctx):
    env = {tm.var("n", "I"): A.n, tm.var("d", "I"): A.d}
    apps = p.ctx_apps

    def val(t):
        x = tm.neval(t, env, lambda f, i: apps(f, i, A, env))
        if t.sort != "B":
            try:
                y = tm.neval(ctx.to_term(ctx.norm.nf(t), t.sort), env, lambda f, i: apps(f, i, A, env))
            except Unsupported:
                y = x
            if not (abs(x - y) <= 1e-8 * max(1, abs(x), abs(y))):
                raise AssertionError(f"canonical form differs: {x} {y}")
        return x
    if isinstance(r, SArr):
        sh = tuple(int(tm.neval(q, env, None)) for q in r._shape)
        out = np.empty(sh, dtype=float)
        for i in np.ndindex(*sh):
            out[i] = val(r.el(*[tm.num(j) for j in i]))
        return out
    if isinstance(r, SB):
        return float(val(r.t))
    if isinstance(r, (SV,)):
        return float(val(r.t))
    return float(r)


def holds(p, A, env, apps):
    """does the data follow the path's hypotheses"""
    try:
        return all(tm.neval(h, env, apps) for h in p.ctx.hyps)
    except tm.EvalError:
        return True


def run():
    bad = ok = unsup = 0
    for name, f in OPS.items():
        got = {"cmp": 0}
        cases = [concrete(np.random.default_rng(100 * k + 7)) for k in range(CASES)]

        def body(p):
            A = symbolic(p)

            def apps(fn, i, B, env):
                if hasattr(B, fn):
                    return getattr(B, fn)[tuple(int(x) for x in i)].item()
                raise tm.EvalError("app " + fn)
            p.ctx_apps = apps
            r = f(S, A)
            for B in cases:
                env = {tm.var("n", "I"): B.n, tm.var("d", "I"): B.d}
                try:
                    if not holds(p, B, env, lambda fn, i: apps(fn, i, B, env)):
                        continue
                    have = evaluate(p, r, B, p.ctx)
                except tm.EvalError as e:
                    got["sk"] = str(e)
                    continue
                want = np.asarray(f(np, B), dtype=float)
                if np.shape(have) != want.shape or not np.allclose(have, want, rtol=1e-8, atol=1e-8):
                    raise AssertionError(f"{have} vs {want}")
                got["cmp"] += 1
        try:
            ex = sym.Explorer(name, body, seed=1, max_paths=50, deadline=None)
            ex.run()
            u = [o for o in ex.obl.values() if o["status"] != "proved"]
            if u:
                unsup += 1
                print(f"{name}: {u[0]['status']} {u[0]['detail'][:200]}")
            elif got["cmp"]:
                ok += 1
            else:
                unsup += 1
                print(f"{name}: specified by axioms only ({got.get('sk')})")
        except Unsupported as e:
            unsup += 1
            print(f"{name}: unsupported ({e})")
        except AssertionError as e:
            bad += 1
            print(f"{name}: DISAGREES {e}")
    print(f"numpy contracts: {ok} operations agree on {CASES} data sets each, {unsup} not comparable, {bad} disagree")
    return bad


LAWPAR = {"norm": [], "t": [3.7], "gamma": [2.3], "beta": [1.7, 2.4], "lognorm": [0.8], "invgamma": [2.9], "invgauss": [0.7], "johnsonsu": [0.4, 1.9], "logistic": [], "gumbel_l": [], "gumbel_r": [], "expon": []}


def laws():
    bad = ok = 0
    for nm, sh in LAWPAR.items():
        def body(p):
            nonlocal bad, ok
            rng = random.Random(5)
            for _ in range(CASES):
                pos = Z.LAWS[nm].lo is not None
                shapes = [x * rng.uniform(0.8, 1.4) for x in sh]
                loc, scale = (0.0 if nm == "beta" else rng.uniform(-1, 1)), (1.0 if nm == "beta" else rng.uniform(0.5, 2))
                ref = getattr(st, nm)(*shapes, loc=loc, scale=scale)
                law = Z.LAWS[nm](*[SV(tm.num(x)) for x in shapes], loc=SV(tm.num(loc)), scale=SV(tm.num(scale)))
                q = rng.uniform(0.05, 0.95)
                x = float(ref.ppf(q))
                for m, arg in (("pdf", x), ("logpdf", x), ("cdf", x), ("logcdf", x), ("ppf", q), ("mean", None)):
                    t = tt(getattr(law, m)() if arg is None else getattr(law, m)(SV(tm.num(arg))))
                    have = tm.neval(t, {}, None)
                    want = float(getattr(ref, m)() if arg is None else getattr(ref, m)(arg))
                    if not math.isclose(have, want, rel_tol=1e-6, abs_tol=1e-9):
                        bad += 1
                        print(f"{nm}.{m}({arg}) DISAGREES {have} {want}")
                    else:
                        ok += 1
        sym.Explorer(nm, body, seed=1, max_paths=50, deadline=None).run()
    # axioms on special functions used by the sign arguments
    for x in [10 ** (k / 7) for k in range(-28, 60)]:
        tg = float(sp.polygamma(1, x))
        eps = 1e-9 * (1 + tg)
        for c in (1 / x + 1 / (2 * x * x) < tg + eps, tg < 1 / x + 1 / (2 * x * x) + 1 / (6 * x**3) + eps, 1 / x**2 < tg + eps, tg < 1 / x**2 + 1.645 + eps):
            ok, bad = ok + c, bad + (not c)
    print(f"scipy contracts: {ok} evaluations agree, {bad} disagree")
    return bad


if __name__ == "__main__":
    b = run() + laws()
    sys.exit(1 if b else 0)
