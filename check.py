#!/usr/bin/env python3
"""check.py <property-id>: decides one property from /repo's current sources.
exit 0 held, 1 violated (VIOLATION line), 2 the analysis could not be carried out."""
import importlib
import json
import os
import sys
import time
import threading
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
threading.stack_size(1 << 29)
from sa import driver
from sa.ctx import Ctx

HERE = os.path.dirname(os.path.abspath(__file__))


def known(pid):
    out = {}
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as fh:
            for l in fh:
                l = l.strip()
                if l.startswith("known:"):
                    f = l[len("known:"):].strip().split(None, 2)
                    d = dict(x.split("=", 1) for x in f[:2])
                    if d.get("property") == pid:
                        out[d["key"]] = f[2] if len(f) > 2 else ""
    except FileNotFoundError:
        pass
    return out


def main(pid, rc):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    ctx = Ctx(pid, tier)
    broken = None
    try:
        mod = importlib.import_module("rules." + pid.lower())
        mod.check(ctx)
        short = []
        for name, lo in getattr(mod, "FLOOR", {}).items():
            n = ctx.count(name)
            if n < lo:
                short.append("only %d instances of rule %s found (at least %d expected on any tree this analysis understands)" % (n, name, lo))
        for x in short:
            ctx.ob("floor:" + str(short.index(x)), "every rule has its instances", None, "", x)
        if not any(o["ok"] is not None for o in ctx.obs):
            broken = "nothing could be decided: " + "; ".join(short)
    except driver.Broken as x:
        broken = str(x)
    except Exception:
        broken = traceback.format_exc()
    if driver.ERRORS:
        print("undecided: parse errors in %s: %s" % list(driver.ERRORS.items())[0])
        for o in ctx.obs:
            if o["ok"] is False:
                o["ok"] = None
                o["detail"] = "parse errors: %s; %s" % (list(driver.ERRORS.items())[0][1][:200], o["detail"])
    kn = known(pid)
    viol = []
    for o in ctx.obs:
        if o["ok"] is False:
            if o["key"] in kn:
                print("KNOWN-FINDING: property=%s %s [%s at %s]" % (pid, kn[o["key"]], o["key"], o["where"]))
            else:
                viol.append(o)
    und = [o for o in ctx.obs if o["ok"] is None]
    dis = [o for o in ctx.obs if o["ok"] is True]
    for o in und:
        print("undecided: %s: %s (%s) %s" % (o["key"], o["desc"], o["where"], o["detail"][:300]))
    rules = {}
    for o in ctx.obs:
        r = rules.setdefault(o["rule"], {"holds": 0, "violated": 0, "undecided": 0})
        r["holds" if o["ok"] else "undecided" if o["ok"] is None else "violated"] += 1
    cov = {"explanation": "static analysis of the sources as parsed by clang: each obligation is one instance of a rule at one construct (function, class or call site); "
           + (mod.__doc__ or "").strip() if broken is None or "mod" in dir() else "analysis failed",
           "obligations": len(ctx.obs), "discharged": len(dis), "undecided": len(und),
           "rules": rules, "translation_units": sorted(ctx.tus), "functions_analysed": len(ctx.fns_seen),
           "samples": [{"obligation": o["key"], "what": o["desc"], "where": o["where"]} for o in dis[:12]],
           "undecided_items": [{"obligation": o["key"], "where": o["where"], "detail": o["detail"][:300]} for o in und],
           "functions": sorted(ctx.fns_seen)[:400]}
    if broken:
        cov["error"] = broken[:2000]
    with open(os.path.join(ev, pid + ".json"), "w") as fh:
        json.dump({"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov,
                   "assumptions": getattr(mod, "ASSUME", []) if broken is None or "mod" in dir() else [],
                   "wall_s": round(time.time() - t0, 2), "violations": len(viol)}, fh, indent=1)
    if viol:
        rp = os.path.join(ev, pid + ".violations.txt")
        with open(rp, "w") as fh:
            for o in viol:
                fh.write("rule       %s\nobligation %s\nwhat       %s\nat         %s\ndetail     %s\n\n" % (o["rule"], o["key"], o["desc"], o["where"], o["detail"]))
        for o in viol:
            print("violated: %s: %s at %s\n    %s" % (o["key"], o["desc"], o["where"], o["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc.append(1)
        return
    if broken:
        print("ERROR property=%s analysis not carried out: %s" % (pid, broken))
        rc.append(2)
        return
    print("OK property=%s obligations=%d discharged=%d undecided=%d functions=%d wall=%.1fs" % (pid, len(ctx.obs), len(dis), len(und), len(ctx.fns_seen), time.time() - t0))
    rc.append(0)


if __name__ == "__main__":
    rc = []
    th = threading.Thread(target=main, args=(sys.argv[1], rc))
    th.start()
    th.join()
    sys.exit(rc[0] if rc else 2)
