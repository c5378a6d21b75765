"""Decides one property: proof obligations from the current source + run-time contracts on the real code.

Exit 0: held on everything explored.  Exit 1: a VIOLATION line.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROVER = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
REALPY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def known(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def start(cmd, log, limit):
    return subprocess.Popen(["timeout", "-k", "5", str(limit)] + cmd, cwd=ROOT, stdout=open(log, "w"), stderr=subprocess.STDOUT)


def load(p):
    try:
        return json.load(open(p))
    except Exception:
        return None


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_")
    try:
        code = run(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(prop, tier, seed, t0, tmp):
    budget = 150 if tier == "quick" else 2400
    plimit = 420 if tier == "quick" else 5400
    left = lambda: (820 if tier == "quick" else 14000) - (time.time() - t0)
    has_proof = os.path.exists(os.path.join(ROOT, "pyvc", "props", prop + ".py"))
    pj, rj = os.path.join(tmp, "proof.json"), os.path.join(tmp, "rt.json")
    proof_cmd = [PROVER, "-W", "ignore", "-m", "pyvc.main", prop, "--tier", tier, "--seed", str(seed), "--limit", str(plimit - 20), "--out", pj]
    rt_cmd = [REALPY, "-W", "ignore", "-m", "rt.run", prop, "--seed", str(seed), "--tier", tier, "--budget", str(budget), "--out", rj]
    pp = start(proof_cmd, os.path.join(tmp, "proof.log"), plimit) if has_proof else None
    rp = start(rt_cmd, os.path.join(tmp, "rt.log"), budget + 200)
    rp.wait()
    if pp:
        pp.wait()
    rt = load(rj)
    pr = load(pj) if pp else None
    fails = list(rt["failures"]) if rt else []
    if rt is None:
        # the interpreter itself died on the real code (segfault, time limit): undecided, one retry with a small budget
        r2 = start([REALPY, "-W", "ignore", "-m", "rt.run", prop, "--seed", str(seed), "--tier", tier, "--budget", "60", "--scale", "0.3", "--out", rj], os.path.join(tmp, "rt.log"), 240)
        r2.wait()
        rt = load(rj)
        fails = list(rt["failures"]) if rt else []
    obl = (pr or {}).get("obligations", [])
    refuted = [o for o in obl if o["status"] in ("refuted", "failed")]
    refuted.sort(key=lambda o: o["status"] != "refuted")
    if refuted and not fails:
        # replay the verifier's counterexamples on the real code
        n = 0
        for o in refuted:
            h = o.get("replay")
            if not h or n >= 12 or left() < 330:
                continue
            n += 1
            hp, hj = os.path.join(tmp, f"h{n}.json"), os.path.join(tmp, f"ho{n}.json")
            json.dump(h, open(hp, "w"))
            start([REALPY, "-W", "ignore", "-m", "rt.run", prop, "--replay", hp, "--out", hj], os.path.join(tmp, "h.log"), 60).wait()
            hr = load(hj)
            if hr and hr.get("failures"):
                fails += hr["failures"]
                break
    if refuted and not fails:
        # aim an extended search at the obligation that is false
        xj = os.path.join(tmp, "rt2.json")
        b = max(30, min(200, left() - 120)) if tier == "quick" else 1200
        x = start([REALPY, "-W", "ignore", "-m", "rt.run", prop, "--seed", str(seed + 1000), "--tier", tier, "--budget", str(int(b)), "--scale", "4", "--out", xj], os.path.join(tmp, "rt2.log"), int(b) + 100)
        x.wait()
        r2 = load(xj)
        if r2:
            fails += r2["failures"]
            if rt:
                rt["evaluations"] += r2["evaluations"]
    lines, nviol = [], 0
    os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
    kn = known(prop)
    hit = set()
    real = []
    for f in fails:
        key = f"{f['contract']} {f['message']}"
        m = [k for k in kn if re.search(k[0], key)]
        if m:
            hit.update(m)
        else:
            real.append(f)
    for k in kn:
        lines.append(f"KNOWN-FINDING: property={prop} {k[1]}")
    if real:
        f = real[0]
        path = os.path.join(ROOT, "replay", f"{prop}.json")
        json.dump({"property": prop, "contract": f["contract"], "case": f["case"], "message": f["message"],
                   "failed_obligations": [o["id"] + ": " + o.get("detail", "")[:400] for o in refuted],
                   "replay_cmd": f"cd {ROOT} && {REALPY} -W ignore -m rt.run {prop} --replay {path}"}, open(path, "w"), indent=1)
        lines.append(f"contract {f['contract']}: {f['message'][:600]}")
        for o in refuted[:3]:
            lines.append(f"failed obligation {o['id']}: {o.get('detail', '')[:300]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        nviol = len(real)
    elif refuted:
        o = refuted[0]
        path = os.path.join(ROOT, "replay", f"{prop}.json")
        json.dump({"property": prop, "failed_obligation": o["id"], "function": o.get("function"), "verifier_output": o.get("detail", ""),
                   "all": refuted}, open(path, "w"), indent=1)
        lines.append(f"failed obligation {o['id']}: {o.get('detail', '')[:600]}")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        nviol = len(refuted)
    ev = evidence(prop, tier, seed, rt, pr, nviol, time.time() - t0, proof_cmd)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    d = sum(o["status"] == "proved" for o in obl)
    print(f"{prop} [{tier}]: {d}/{len(obl)} obligations discharged; {(rt or {}).get('evaluations', 0)} run-time contract evaluations; {time.time() - t0:.0f} s")
    for o in obl:
        if o["status"] not in ("proved", "refuted", "failed"):
            print(f"  not discharged (bounded stand-in): {o['id']}: {o['status']} {o.get('detail', '')[:160]}")
    if pp and pr is None:
        print("  prover gave no result: " + tail(os.path.join(tmp, "proof.log")))
    if rt is None:
        print("  run-time contracts gave no result: " + tail(os.path.join(tmp, "rt.log")))
    for l in lines:
        print(l)
    return 1 if nviol else 0


def tail(p):
    try:
        return open(p).read()[-500:].replace("\n", " | ")
    except OSError:
        return ""


def evidence(prop, tier, seed, rt, pr, nviol, wall, proof_cmd):
    rt = rt or {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "contracts": {}}
    obl = (pr or {}).get("obligations", [])
    done = [o for o in obl if o["status"] == "proved"]
    level = "proof" if obl and len(done) == len(obl) else "exploration"
    cov = {"evaluations": rt["evaluations"], "distinct_nontrivial": rt["distinct_nontrivial"],
           "rule": "inputs drawn from VERIF_SEED, sizes and constants aimed at the literals of the source; a case is counted once per distinct encoded input; cases rejected by the generator are not counted",
           "samples": rt["samples"] or [{"note": "no sample"}], "runtime_contracts": rt["contracts"], "skipped_ill_conditioned": rt.get("skipped", 0)}
    if pr is not None:
        cov.update({
            "obligations": len(obl), "discharged": len(done), "checker_cmd": " ".join(proof_cmd[:-2]),
            "trusted_base": pr.get("trusted", []), "functions_under_contract": pr.get("functions", []),
            "discharged_by_backend": count(o.get("backend", "?") for o in done),
            "solver_time_s": round(pr.get("solver_time", 0), 3), "solver_queries": pr.get("solver_queries", 0), "paths": pr.get("paths", 0),
            "reachability_checks": pr.get("reach", 0),
            "obligation_list": [{k: o.get(k) for k in ("id", "function", "status", "backend", "time")} for o in obl],
            "not_discharged": [{"id": o["id"], "status": o["status"], "detail": o.get("detail", "")[:300], "stand_in": "bounded: run-time contract on the real code with the inputs counted above"} for o in obl if o["status"] != "proved"],
            "bounded_parts": pr.get("bounded", [])})
    ass = list((pr or {}).get("assumptions", [])) + ["run-time contracts are bounded: they decide only the inputs generated in this run"]
    return {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ass, "wall_s": round(wall, 2), "violations": nviol}


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


if __name__ == "__main__":
    main()
