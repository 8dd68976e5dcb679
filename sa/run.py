"""run.py PROPERTY [--repo DIR]   exit 0: held on everything analysed; 1: violation"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)

from report import Report  # noqa: E402


def load_known():
    """known findings: lines  'property=<id> rule=<rule> construct=<file:function>'  (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            out.append(dict(x.split("=", 1) for x in l.split(" | ") if "=" in x))
    return out


def main(argv):
    import threading
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + argv)
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(_main(argv)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 0)


def _main(argv):
    prop = argv[0]
    repo = "/repo"
    if "--repo" in argv:
        repo = argv[argv.index("--repo") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    t0 = time.time()
    rep = Report(prop)
    rep.tier = tier
    level = "proof"
    # a source this analysis cannot get through in time is left undecided
    limit = float(os.environ.get("SA_LIMIT") or (780 if tier == "thorough" else 480))
    rep.deadline = t0 + limit

    def work():
        try:
            import frontend
            mods = frontend.load_package(repo)
            rep.digest = frontend.digest(mods)
            rule = importlib.import_module("rules." + prop.lower())
            rep.title = (rule.__doc__ or "").strip().split("\n")[0]
            rule.run(mods, rep)
        except Exception:
            rep.undecided("internal", "the rule could not be evaluated", traceback.format_exc()[-1500:])
            if "-v" in argv:
                traceback.print_exc()
    import threading
    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(limit + 20)
    if t.is_alive():
        import multiprocessing
        for p in multiprocessing.active_children():
            p.terminate()
        rep.undecided("internal", "the rule did not finish in the time allowed", "out of time")
    known = load_known()
    viol = []
    for v in rep.violations:
        hit = None
        for k in known:
            if k.get("property") == prop and k.get("rule") == v["rule"] and k.get("construct", "\0") in v["where"] + " " + v["what"]:
                hit = k
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit.get("what", v["what"])))
        else:
            viol.append(v)
    c = rep.counts()
    wall = time.time() - t0
    outdir = os.environ.get("SA_OUT") or os.path.join(ROOT, "out")
    os.makedirs(outdir, exist_ok=True)
    evdir = os.environ.get("SA_OUT") or os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(outdir, "%s.replay.txt" % prop)
    for o in rep.obl:
        if "-v" in argv:
            print("%-11s %-22s %s  [%s] %s" % (o["status"], o["rule"], o["what"], o["where"], (o.get("detail") or o.get("why") or "")))
    if viol:
        with open(replay, "w") as f:
            f.write("# re-run: python3-vt %s/run.py %s\n" % (HERE, prop))
            for v in viol:
                f.write("rule %s: %s\n  at %s\n  %s\n" % (v["rule"], v["what"], v["where"], v.get("detail", "")))
        for v in viol[:10]:
            print("  [%s] %s -- %s" % (v["rule"], v["what"], v["where"]))
    rules = sorted({o["rule"] for o in rep.obl})
    n = len(rep.obl)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": getattr(rep, "level", "proof"),
        "coverage": {
            "obligations": max(n, 1), "discharged": c["discharged"],
            "undecided": [dict(rule=o["rule"], what=o["what"], why=o.get("why", "")[:300]) for o in rep.obl if o["status"] == "undecided"],
            "checker_cmd": "python3-vt %s/run.py %s" % (HERE, prop),
            "trusted_base": ["the abstract interpreter in /verif/sa (front end, value numbers, models of numpy, scipy and copy)",
                             "the caller assumptions stated in DESIGN.md"],
            "source_digest": str(getattr(rep, "digest", "")),
            "rules": rules, "functions_analysed": sorted(rep.functions),
            "constructs": ["%s: %s [%s] %s" % (o["status"], o["rule"], o["where"], o["what"]) for o in rep.obl][:400],
            "explanation": getattr(rep, "title", ""),
            "violated": [{"rule": v["rule"], "what": v["what"], "where": v["where"]} for v in viol],
        },
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions; %.1f s" % (
        prop, n, c["discharged"], c["undecided"], len(viol), len(rep.functions), wall))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


if __name__ == "__main__":
    main(sys.argv[1:])
