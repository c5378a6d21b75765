"""Runs the check of each planted change's property against a scratch copy. usage: runseeds.py [-j N] [id ...]"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/runseeds"
a = sys.argv[1:]
j = 3
if a[:1] == ["-j"]:
    j = int(a[1]); a = a[2:]
ids = a or sorted(os.listdir(ROOT + "/seeded"))
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
shutil.copytree(ROOT, W + "/verif0", ignore=shutil.ignore_patterns(".git", "seeded", "replay", "evidence", "__pycache__"))
def run(i):
    d = f"{W}/{i}"
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    shutil.copytree(W + "/verif0", d + "/verif")
    subprocess.run(["git", "apply", f"{ROOT}/seeded/{i}/patch.diff"], cwd=d + "/repo", check=True)
    p = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]
    t = time.time()
    r = subprocess.run(["bash", "check.sh", p, "quick"], cwd=d + "/verif", env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1"), capture_output=True, text=True)
    shutil.rmtree(d, ignore_errors=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("contract") or l.startswith("failed")]
    return f"{i:32s} {p} rc={r.returncode} {time.time()-t:.0f}s {' || '.join(x[:160] for x in v)} {r.stderr[-200:] if r.returncode not in (0,1) else ''}"
with ThreadPoolExecutor(j) as ex:
    for m in ex.map(run, ids):
        print(m, flush=True)
shutil.rmtree(W, ignore_errors=True)
