import sys, os, json, importlib, time
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo") + "/src")
MODS = {"C01": "linalg_rt", "C02": "linalg_rt", "C05": "linalg_rt", "C06": "linalg_rt",
        "C03": "cd_rt", "C04": "cd_rt", "C07": "links_rt", "C12": "utils_rt", "C13": "utils_rt",
        "C08": "dist_rt", "C09": "dist_rt", "C10": "dist_rt", "C11": "dist_rt",
        "C14": "lm_rt", "C15": "lm_rt",
        "C16": "gam_rt", "C17": "gam_rt", "C18": "gam_rt", "C19": "gam_rt", "C20": "gam_rt", "C21": "gam_rt", "C22": "gam_rt"}


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=200)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    from rt import core
    files = []
    for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == a.prop:
            files = d["anchors"]["files"]
    try:
        mod = importlib.import_module("rt." + MODS[a.prop])
        cs = mod.CONTRACTS[a.prop]
    except Exception as e:
        import traceback
        res = {"import_error": traceback.format_exc(), "failures": [{"contract": "import", "case": {}, "message": f"importing the package raised {type(e).__name__}: {e}", "index": 0}], "evaluations": 1, "distinct_nontrivial": 1, "samples": [], "contracts": {}}
    else:
        if a.replay:
            r = json.load(open(a.replay))
            chk = {n: c for n, g, c, *_ in cs}[r["contract"]]
            m = core.evaluate(chk, core.dec(r["case"]))
            print("FAILS: " + m if m else "holds")
            if a.out:
                json.dump({"failures": [{"contract": r["contract"], "case": r["case"], "message": m, "index": 0}] if m else []}, open(a.out, "w"))
            sys.exit(1 if m else 0)
        res = core.run_contracts(cs, a.seed, a.tier, core.Lits(files), a.budget, scale=a.scale)
    res["wall_s"] = time.time() - t0
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        print(json.dumps({k: v for k, v in res.items() if k not in ("samples", "failures")}))
        for f in res["failures"]:
            print("FAIL", f["contract"], f["index"], f["message"][:600])


if __name__ == "__main__":
    main()
