"""Mutation bench: AST mutants of one source file that survive the repository's tests must be caught by a check.
usage: mutants.py FILE(rel to src/ondil) PROPS(comma) TESTS(comma, rel to tests) [-j N] [-n MAX] [-s SEED] [--only SUB] [--order rt|proof] [--lines a-b]
Prints SURVIVED for a mutant which neither tests, nor run-time contracts, nor proof see."""
import warnings; warnings.simplefilter("ignore")
import argparse, ast, copy, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("props"); ap.add_argument("tests")
ap.add_argument("-j", type=int, default=6); ap.add_argument("-n", type=int, default=10**9); ap.add_argument("-s", type=int, default=0)
ap.add_argument("--only", action="append", default=[]); ap.add_argument("--order", default="rt+proof"); ap.add_argument("--lines", default="")
ap.add_argument("--list", action="store_true"); ap.add_argument("--skip", default="")
ap.add_argument("--scale", default="0.3")
A = ap.parse_args()
src = open(f"/repo/src/ondil/{A.file}").read()
tree = ast.parse(src)
off = [0]
for l in src.split("\n"):
    off.append(off[-1] + len(l.encode()) + 1)
raw = src.encode()
def span(n):
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
def text(n):
    a, b = span(n); return raw[a:b].decode()
muts = []
def add(n, new, kind):
    a, b = span(n)
    muts.append((n.lineno, kind, a, b, new))
SW = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}
CM = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
NM = {"min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "mean": "sum", "sum": "mean", "any": "all", "all": "any", "zeros": "ones", "ones": "zeros",
      "nanmin": "nanmax", "nanmax": "nanmin", "floor": "ceil", "abs": "float", "argmin": "argmax", "log": "log1p", "zeros_like": "ones_like", "ones_like": "zeros_like", "nansum": "nanmean", "copy": None, "deepcopy": None}
docs = set()
for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
        docs.add(id(n.body[0])); docs.add(id(n.body[0].value))
skipped = set()
for n in ast.walk(tree):
    if isinstance(n, ast.FunctionDef):
        for d in n.decorator_list:
            for x in ast.walk(d): skipped.add(id(x))
        for d in ([n.returns] if n.returns else []) + [a.annotation for a in n.args.args + n.args.kwonlyargs if a.annotation]:
            for x in ast.walk(d): skipped.add(id(x))
    if isinstance(n, ast.AnnAssign):
        for x in ast.walk(n.annotation): skipped.add(id(x))
    if isinstance(n, ast.Raise):
        for x in ast.walk(n): skipped.add(id(x))
    if isinstance(n, ast.Call) and "print" in ast.unparse(n.func):
        for x in ast.walk(n): skipped.add(id(x))
for n in ast.walk(tree):
    if id(n) in skipped or id(n) in docs: continue
    if isinstance(n, ast.BinOp) and type(n.op) in SW:
        add(n, f"({text(n.left)}) {SW[type(n.op)]} ({text(n.right)})", "op")
        if isinstance(n.op, (ast.Add, ast.Sub)): add(n, f"({text(n.left)})", "drop-right")
        if isinstance(n.op, (ast.Mult, ast.Pow)): add(n, f"({text(n.left)})", "drop-right"); 
        if isinstance(n.op, ast.Mult): add(n, f"({text(n.right)})", "drop-left")
    elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CM:
        add(n, f"({text(n.left)}) {CM[type(n.ops[0])]} ({text(n.comparators[0])})", "cmp")
    elif isinstance(n, ast.BoolOp):
        add(n, (" or " if isinstance(n.op, ast.And) else " and ").join(f"({text(v)})" for v in n.values), "bool")
        for v in n.values: add(n, f"({text(v)})", "bool-one")
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
        add(n, f"({text(n.operand)})", "unary")
    elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, type(None), type(...), bytes)):
        v = n.value
        if isinstance(v, bool): add(n, str(not v), "const")
        elif isinstance(v, int): add(n, str(v + 1), "const"); (v > 0 and add(n, str(v - 1), "const"))
        else: add(n, repr(v * 2 if v else 0.1), "const")
    elif isinstance(n, ast.Call):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if nm == "copy" and isinstance(f, ast.Attribute) and not n.args: add(n, text(f.value), "no-copy")
        elif nm in ("deepcopy", "copy") and n.args: add(n, text(n.args[0]), "no-copy")
        elif nm in NM and NM[nm]: add(f, (text(f.value) + "." if isinstance(f, ast.Attribute) else "") + NM[nm], "fun")
        for k in n.keywords:
            if k.arg: muts.append((n.lineno, "kw-" + k.arg, *_kw(n, k), "")) if False else None
        rest = [(x.lineno, x.col_offset, text(x)) for x in n.args] + [(k.value.lineno, k.value.col_offset, (k.arg + "=" if k.arg else "**") + text(k.value)) for k in n.keywords]
        if len(n.args) >= 2:
            add(n, f"{text(f)}({', '.join([rest[1][2], rest[0][2]] + [r[2] for r in rest[2:]])})", "swap-args")
        for i, k in enumerate(n.keywords):
            if k.arg:
                r = [x[2] for j, x in enumerate(rest) if j != len(n.args) + i]
                add(n, f"{text(f)}({', '.join(r)})", "drop-kw-" + k.arg)
    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
        if isinstance(n.slice, ast.Name): add(n, f"{text(n.value)}[{text(n.slice)} - 1]", "index")
        if isinstance(n.slice, ast.Slice) and n.slice.lower is not None:
            add(n, f"{text(n.value)}[{text(n.slice.lower)} + 1 :{text(n.slice.upper) if n.slice.upper else ''}]", "slice")
    elif isinstance(n, ast.If):
        add(n.test, "True", "if-true"); add(n.test, "False", "if-false")
    elif isinstance(n, ast.IfExp):
        add(n, f"({text(n.body)})", "ifexp-a"); add(n, f"({text(n.orelse)})", "ifexp-b")
    elif isinstance(n, ast.AugAssign):
        add(n, f"{text(n.target)} = {text(n.value)}", "aug"); add(n, "pass", "del-stmt")
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
        add(n, "pass", "del-stmt")
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        add(n, "pass", "del-stmt")
    elif isinstance(n, (ast.Break, ast.Continue)):
        add(n, "pass", "del-stmt")
seen = set(); M = []
for m in muts:
    t = raw[:m[2]] + m[4].encode() + raw[m[3]:]
    if t in seen: continue
    seen.add(t)
    try: T = ast.dump(ast.parse(t))
    except SyntaxError: continue
    if T == ast.dump(tree): continue
    M.append(m)
if A.lines:
    a, b = map(int, A.lines.split("-")); M = [m for m in M if a <= m[0] <= b]
random.Random(A.s).shuffle(M)
M = sorted(M[:A.n])
print(len(M), "mutants", flush=True)
W = f"/tmp/mutants.{os.getpid()}"
os.makedirs(W)
free = []
for j in range(A.j):
    subprocess.run(["git", "clone", "-q", "/repo", f"{W}/{j}"], check=True); free.append(j)
def call(cmd, env, cwd, lim):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=lim)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""
def run(m):
    ln, kind, a, b, new = m
    j = free.pop()
    d = f"{W}/{j}"
    try:
        p = f"{d}/src/ondil/{A.file}"
        open(p, "wb").write(raw[:a] + new.encode() + raw[b:])
        env = dict(os.environ, PYTHONPATH=d + "/src", VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        desc = f"L{ln} {kind}: {' '.join(raw[a:b].decode().split())[:90]} -> {' '.join(new.split())[:90]}"
        why = ""
        for st in A.order.split("+"):
          if st == "tests":
            for t in A.tests.split(","):
                if not t: continue
                rc, o = call(["/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--randomly-seed=1", "--randomly-dont-reorganize", *[f"tests/{x}" for x in t.split("+")]], env, d, 400)
                if rc != 0: return "tests", desc, t
            continue
          for pr in A.props.split(","):
            if st == "rt":
                o = f"{W}/o{j}.json"
                rc, s = call(["/opt/venv/bin/python", "-W", "ignore", "-m", "rt.run", pr, "--seed", "1", "--out", o, "--budget", "120", "--scale", A.scale], env, ROOT, 300)
                try: F = json.load(open(o))["failures"]; os.remove(o)
                except Exception as e: F = [{"contract": f"rt broke {rc}"}]
                if F: return "rt", desc, f"{pr} {F[0]['contract']}"
            else:
                rc, s = call(["python3-vt", "-W", "ignore", "-m", "pyvc.main", pr] + [x for o in A.only for x in ("--only", o)], env, ROOT, 900)
                bad = [l for l in s.split("\n") if re.match(r"  (refuted|failed)", l)]
                und = [l for l in s.split("\n") if re.match(r"  (unknown|unsupported)", l)]
                if bad: return "proof", desc, f"{pr} {bad[0][:110]}"
                if und or not re.search(r"C\d\d: \d", s): why += f" [{pr} {len(und)} undecided {und[0][:80] if und else s[-80:]}]"
        return "SURVIVED", desc, why
    finally:
        free.append(j)
cnt = {}
with ThreadPoolExecutor(A.j) as ex:
    for r, d, w in ex.map(run, M):
        cnt[r] = cnt.get(r, 0) + 1
        if not A.skip or r not in A.skip.split(","): print(r, d, "|", w, flush=True)
print(cnt)
shutil.rmtree(W, ignore_errors=True)
