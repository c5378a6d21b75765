"""Quietness bench: behaviour-preserving rewrites of /repo's source (in a scratch copy) on which no obligation may fail.

usage: refactors.py [name-substring ...]     prints ALARM for refuted/failed obligations, 'partly' where obligations become undecided (bounded stand-in)
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
R = []


def r(name, file, props, *subs):
    R.append((name, file, props.split(), subs))


def load():
    d = os.path.join(ROOT, "tools", "refactors.txt")
    cur = None
    for blk in open(d).read().split("\n=== ")[0:]:
        blk = blk[4:] if blk.startswith("=== ") else blk
        if not blk.strip():
            continue
        head, _, body = blk.partition("\n")
        name, file, props = [x.strip() for x in head.split("|")]
        subs = []
        for part in re.split(r"^--- *$", body, flags=re.M):
            if "\n+++\n" not in part and not part.strip():
                continue
            a, b = part.split("\n+++\n") if "\n+++\n" in part else (part, "")
            subs.append((a.strip("\n"), b.strip("\n")))
        r(name, file, props, *subs)


def one(x):
    name, file, props, subs = x
    d = tempfile.mkdtemp(prefix="rf_", dir="/tmp")
    try:
        shutil.copytree(REPO + "/src", d + "/src")
        f = d + "/src/ondil/" + file
        s = open(f).read()
        for a, b in subs:
            if s.count(a) < 1:
                return f"{name}: PATTERN NOT FOUND {a[:60]!r}"
            s = s.replace(a, b, 1)
        compile(s, f, "exec")
        open(f, "w").write(s)
        out = []
        for p in props:
            o = subprocess.run(["python3-vt", "-W", "ignore", "-m", "pyvc.main", p], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True).stdout
            L = [q for q in o.split("\n") if re.match(r"(C\d\d:|  (refuted|failed|unknown|unsupported))", q)]
            bad = [q for q in L[1:] if q.split()[0] in ("refuted", "failed")]
            und = [q for q in L[1:] if q.split()[0] in ("unknown", "unsupported")]
            st = "ALARM " if bad else "partly " if und else "ok "
            out.append(f"{st}{p} {L[0][5:40] if L else o[-200:]}" + "".join("\n      " + q[:230] for q in (bad or und)[:3]))
        return f"{name}: " + "\n    ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    load()
    sel = [x for x in R if not sys.argv[1:] or any(a in x[0] for a in sys.argv[1:])]
    with ThreadPoolExecutor(2) as ex:
        for o in ex.map(one, sel):
            print(o, flush=True)
