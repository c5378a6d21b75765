"""Run-time contracts on the real code (bounded evaluation; replayable)."""
import ast, json, math, os, random, sys, time, traceback, warnings
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def enc(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return {"__o__": [enc(v) for v in x.tolist()]}
        return {"__nd__": [enc(v) for v in x.ravel().tolist()], "shape": list(x.shape), "dtype": str(x.dtype)}
    if isinstance(x, (np.floating, float)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return {"__f__": repr(x)}
        return x
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, dict):
        return {"__d__": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, tuple):
        return {"__t__": [enc(v) for v in x]}
    if isinstance(x, list):
        return [enc(v) for v in x]
    return x


def dec(x):
    if isinstance(x, dict):
        if "__nd__" in x:
            return np.array([dec(v) for v in x["__nd__"]], dtype=x["dtype"]).reshape(x["shape"])
        if "__f__" in x:
            return float(x["__f__"])
        if "__d__" in x:
            return {dec(k): dec(v) for k, v in x["__d__"]}
        if "__t__" in x:
            return tuple(dec(v) for v in x["__t__"])
        if "__o__" in x:
            return np.array([dec(v) for v in x["__o__"]], dtype=object)
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


class Fail(Exception):
    pass


def close(a, b, rtol=1e-7, atol=None, what="value"):
    """Assert a == b up to rounding (relative to the scale of the array)."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Fail(f"{what}: shape {a.shape} instead of {b.shape}")
    if a.size == 0:
        return
    fin = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), fin):
        raise Fail(f"{what}: got {short(a)}, expected {short(b)}")
    if not np.array_equal(a[~fin], b[~fin], equal_nan=True):
        raise Fail(f"{what}: got {short(a)}, expected {short(b)}")
    if fin.any():
        if atol is None:
            atol = rtol * max(1e-12, float(np.max(np.abs(b[fin]))))
        bad = np.abs(a[fin] - b[fin]) > atol + rtol * np.abs(b[fin])
        if bad.any():
            raise Fail(f"{what}: got {short(a)}, expected {short(b)} (max diff {np.max(np.abs(a[fin]-b[fin])):.3g})")


def short(a):
    s = np.array2string(np.asarray(a), threshold=12, precision=10)
    return s if len(s) < 400 else s[:400] + "..."


def need(c, msg):
    if not c:
        raise Fail(msg)


def same(a, b, what):
    """exact (bitwise) equality of nested values, used for frame conditions"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            raise Fail(f"{what}: type changed")
        if a.shape != b.shape or a.dtype != b.dtype:
            raise Fail(f"{what} was modified")
        if a.dtype == object:
            for x, y in zip(a.ravel(), b.ravel()):
                same(x, y, what)
            return
        if not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
            raise Fail(f"{what} was modified: {short(a)} -> {short(b)}")
        return
    if isinstance(a, dict):
        need(isinstance(b, dict) and list(a.keys()) == list(b.keys()), f"{what} was modified (keys)")
        for k in a:
            same(a[k], b[k], f"{what}[{k!r}]")
        return
    if isinstance(a, (list, tuple)):
        need(type(a) == type(b) and len(a) == len(b), f"{what} was modified")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what}[{i}]")
        return
    if isinstance(a, float) and a != a:
        need(b != b, f"{what} was modified")
        return
    if isinstance(a, (int, float, str, bool, type(None), np.generic)):
        need(a == b, f"{what} was modified: {a!r} -> {b!r}")


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    except Exception as e:
        raise Fail(f"raised {type(e).__name__} ({e}) instead of {exc}")
    return False


class Lits:
    """Numeric literals of the files under check, used to aim the generators."""

    def __init__(self, files):
        ints, floats = set(), set()
        for f in files:
            p = os.path.join(REPO, f)
            ps = []
            if os.path.isdir(p):
                ps = [os.path.join(p, x) for x in sorted(os.listdir(p)) if x.endswith(".py")]
            elif os.path.exists(p):
                ps = [p]
            for q in ps:
                try:
                    tree = ast.parse(open(q).read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        v = n.value
                        if isinstance(v, int) and abs(v) <= 2000:
                            ints.add(abs(v))
                        elif isinstance(v, float):
                            floats.add(v)
        self.ints = sorted(ints)
        self.floats = sorted(floats)

    def sizes(self, lo, hi):
        s = set()
        for i in self.ints:
            for d in (-1, 0, 1):
                if lo <= i + d <= hi:
                    s.add(i + d)
        return sorted(s) or [lo]


class G:
    """generator helper"""

    def __init__(self, rng, i, lits):
        self.r, self.i, self.lits = rng, i, lits

    def size(self, lo, hi, big=None):
        r = self.r.random()
        if r < 0.25:
            return int(self.r.choice(self.lits.sizes(lo, big or max(hi, 40))))
        if r < 0.4:
            return lo
        if r < 0.5 and big:
            return int(self.r.integers(lo, big + 1))
        return int(self.r.integers(lo, hi + 1))

    def forget(self, allow=True):
        c = [0.0, 0.0, 0.01, 0.1, 0.3, 0.5, 0.9, 1e-6, 0.05, 0.999]
        c += [f for f in self.lits.floats if 0 <= f < 1]
        if self.r.random() < 0.3:
            return float(self.r.uniform(0, 0.95))
        return float(c[self.r.integers(len(c))])

    def mat(self, n, m):
        X = self.r.normal(size=(n, m)) * self.r.choice([1.0, 1.0, 3.0, 0.1])
        k = self.r.random()
        if k < 0.2:
            X = np.round(X)
        if k > 0.9:
            X = X + 5
        return X

    def vec(self, n):
        return self.mat(n, 1)[:, 0]

    def weights(self, n):
        k = self.r.integers(6)
        if k == 0:
            return np.ones(n)
        if k == 1:
            return self.r.integers(0, 3, size=n).astype(float)
        if k == 2:
            w = self.r.uniform(0, 2, size=n)
            w[self.r.random(n) < 0.3] = 0.0
            return w
        if k == 3:
            return np.full(n, float(self.r.choice([0.5, 2.0, 1e-3, 100.0])))
        return self.r.uniform(0.05, 3, size=n)

    def pick(self, xs):
        return xs[int(self.r.integers(len(xs)))]


def run_contracts(contracts, seed, tier, lits, budget_s, focus=None, scale=1.0):
    """contracts: list of (name, gen(G)->case, check(case), n_quick, n_thorough)"""
    out = {"evaluations": 0, "failures": [], "samples": [], "contracts": {}, "invalid": 0}
    seen = set()
    t0 = time.time()
    for name, gen, check, nq, nt in contracts:
        n = int((nq if tier == "quick" else nt) * scale)
        cnt = 0
        for i in range(n):
            if time.time() - t0 > budget_s:
                break
            rng = np.random.default_rng([seed, abs(hash_str(name)) % 2**31, i])
            random.seed(seed * 7919 + i)
            np.random.seed((seed * 104729 + i * 31 + hash_str(name)) % 2**31)
            case = gen(G(rng, i, lits))
            if case is None:
                out["invalid"] += 1
                continue
            e = json.dumps(enc(case), sort_keys=True)
            msg = evaluate(check, dec(json.loads(e)))
            cnt += 1
            out["evaluations"] += 1
            seen.add(hash(e))
            if i == 0 and len(out["samples"]) < 4:
                out["samples"].append({"contract": name, "case": json.loads(e) if len(e) < 1500 else e[:1500]})
            if msg:
                out["failures"].append({"contract": name, "case": json.loads(e), "message": msg, "index": i})
                if sum(1 for f in out["failures"] if f["contract"] == name) >= 3:
                    break
        out["contracts"][name] = cnt
    out["distinct_nontrivial"] = len(seen)
    out["skipped"] = COUNT["skipped"]
    return out


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % (2**31 - 1)
    return h


def evaluate(check, case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                check(case)
                return None
            except Fail as e:
                return str(e)
            except Skip:
                COUNT["skipped"] += 1
                return None
            except Exception as e:
                return f"raised {type(e).__name__}: {e} | " + " / ".join(
                    f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-4:])


COUNT = {"skipped": 0}


class Skip(Exception):
    pass
