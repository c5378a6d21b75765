"""Generates the obligations of one property from /repo's current source and discharges them."""
import argparse, importlib, json, multiprocessing as mp, os, sys, time, traceback

sys.setrecursionlimit(40000)
WORKERS = int(os.environ.get("VERIF_WORKERS", "7"))


def run_unit(prop, name, seed, tier, conn):
    try:
        import resource, threading
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(40000)
        threading.stack_size(512 << 20)
        box = {}

        def go():
            try:
                box["r"] = _unit(prop, name, seed, tier, conn)
            except BaseException:
                box["e"] = traceback.format_exc()
        t = threading.Thread(target=go)
        t.start()
        t.join()
        conn.send(box.get("r") or {"error": box.get("e", "?")[-1500:]})
    except BaseException:
        conn.send({"error": traceback.format_exc()[-1500:]})
    conn.close()


def _unit(prop, name, seed, tier, conn=None):
    from pyvc import smt, sym, shim
    t0 = time.time()
    mod = importlib.import_module("pyvc.props." + prop)
    u = {x.name: x for x in mod.units(tier)}[name]
    L = shim.Loader()
    ex = sym.Explorer(name, lambda p: u.body(p, L), seed=seed, max_paths=u.max_paths, deadline=t0 + u.timeout * 0.9)
    if conn is not None:
        # failures are reported at once, so that they are not lost if the unit runs out of time
        ex.notify = lambda o: conn.send({"partial": dict(o) if o else None})
    try:
        obl = ex.run()
    except Exception:
        obl = ex.obl
        ex.record(name + ":supported", ("unsupported", "-", traceback.format_exc()[-int(os.environ.get("VERIF_TB", "800")):], None), 0)
    return {"obl": list(obl.values()), "paths": ex.paths, "reach": ex.reach, "z3_time": smt.STATS["z3_time"], "z3_queries": smt.STATS["z3_queries"],
            "files": sorted(L.files.values()), "time": time.time() - t0}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--limit", type=float, default=1e9)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("pyvc.props." + a.prop)
    units = [u for u in mod.units(a.tier) if not a.only or a.only in u.name]
    order = sorted(units, key=lambda u: -u.cost)
    ctx = mp.get_context("fork")
    running, results, part = [], {}, {}
    queue = list(order)
    while queue or running:
        while queue and len(running) < WORKERS:
            u = queue.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=run_unit, args=(a.prop, u.name, a.seed, a.tier, w))
            p.start()
            w.close()
            running.append((u, p, r, time.time()))
        for it in list(running):
            u, p, r, ts = it
            got = None
            if r.poll(0.02):
                try:
                    got = r.recv()
                except EOFError:
                    got = {"error": "the unit's process died (memory limit?)"}
                if "partial" in got:
                    if got["partial"] is None:
                        part.pop(u.name, None)
                    else:
                        part.setdefault(u.name, {})[got["partial"]["id"]] = got["partial"]
                    continue
            elif time.time() - ts > u.timeout or time.time() - t0 > a.limit:
                p.kill()
                got = {"error": f"time limit {min(u.timeout, time.time() - ts):.0f} s"}
            if got is not None:
                p.join(5)
                running.remove(it)
                results[u.name] = got
                if a.v:
                    print(f"{time.time() - ts:6.1f}s {u.name}: " + (got["error"][-300:] if "error" in got else f"{sum(o['status'] == 'proved' for o in got['obl'])}/{len(got['obl'])} paths={got['paths']} reach={got['reach']} z3={got['z3_queries']}/{got['z3_time']:.1f}s"), flush=True)
        if queue and time.time() - t0 > a.limit:
            for u in queue:
                results[u.name] = {"error": "time limit of the check"}
            queue = []
        time.sleep(0.01)
    out = {"obligations": [], "functions": [], "trusted": [], "assumptions": [], "bounded": list(getattr(mod, "BOUNDED", [])), "solver_time": 0.0, "solver_queries": 0, "paths": 0, "reach": 0, "files": []}
    for u in units:
        g = results[u.name]
        for f in u.functions:
            if f not in out["functions"]:
                out["functions"].append(f)
        if "error" in g:
            out["obligations"].append({"id": u.name + ":run", "function": u.name, "status": "unsupported", "backend": "-", "time": 0, "detail": g["error"]})
            out["obligations"] += list(part.get(u.name, {}).values())
            continue
        for o in g["obl"]:
            o["time"] = round(o["time"], 3)
            if not o["id"].startswith(u.name):
                o["id"] = u.name + ":" + o["id"]
            out["obligations"].append(o)
        if g["reach"] == 0:
            out["obligations"].append({"id": u.name + ":reach", "function": u.name, "status": "unknown", "backend": "-", "time": 0, "detail": "no path of this unit reaches its end (vacuous)"})
        if not g["obl"]:
            out["obligations"].append({"id": u.name + ":nonempty", "function": u.name, "status": "unknown", "backend": "-", "time": 0, "detail": "the unit generated no obligation"})
        out["solver_time"] += g["z3_time"]
        out["solver_queries"] += g["z3_queries"]
        out["paths"] += g["paths"]
        out["reach"] += g["reach"]
        out["files"] = sorted(set(out["files"]) | set(g["files"]))
    from pyvc.props import common
    out["trusted"] = common.TRUSTED_ALL + list(getattr(mod, "TRUSTED", []))
    out["assumptions"] = common.ASSUME_ALL + list(getattr(mod, "ASSUMPTIONS", []))
    out["wall_s"] = time.time() - t0
    if a.out:
        json.dump(out, open(a.out, "w"), default=str)
    n = len(out["obligations"])
    d = sum(o["status"] == "proved" for o in out["obligations"])
    print(f"{a.prop}: {d}/{n} obligations proved, {out['paths']} paths, {out['wall_s']:.1f} s")
    for o in out["obligations"]:
        if o["status"] != "proved" or (a.v and False):
            print(f"  {o['status']:11s} {o['id']}: {o['detail'][:(1500 if a.v else 300)]}")


if __name__ == "__main__":
    main()
