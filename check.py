#!/usr/bin/env python3
"""check.py PROPERTY [--seed N] [--cases N]: rebuilds the harness from /repo, searches, replays, writes evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
import vb  # noqa: E402
from targets import PROPS  # noqa: E402


def run(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    extra = sys.argv[2:]
    if "--seed" in extra:
        seed = int(extra[extra.index("--seed") + 1])
    t0 = time.time()
    pc = PROPS[prop]
    binp = vb.build(pc["bin"])
    print("built %s in %.1fs" % (pc["bin"], time.time() - t0), flush=True)
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json"))) if k.get("property") == prop and k.get("status") == "open"]
    scratch = tempfile.mkdtemp(prefix="vt_%s_" % prop, dir="/tmp")
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    try:
        for k in known:
            rp = os.path.join(VERIF, k["replay"])
            rc, out = run([binp, "--prop", prop, "--replay", rp, "--scratch", scratch], 120)
            if rc == 1 and ("sig=" + k["sig"] + " ") in out:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
            else:
                print("note: listed finding no longer reproduces: %s" % k["sig"], flush=True)
        out_json = os.path.join(scratch, "out.json")
        tcap = pc.get("time_thorough", 3000) if tier == "thorough" else pc.get("time_quick", 240)
        cmd = [binp, "--prop", prop, "--seed", str(seed), "--out", out_json, "--replay-dir", rdir, "--scratch", scratch, "--time", str(tcap),
               "--workers", str(pc.get("workers", 8)), "--case-timeout", str(pc.get("case_timeout", 40))]
        if tier == "thorough":
            cmd.append("--thorough")
        if "--cases" in extra:
            cmd += ["--cases", extra[extra.index("--cases") + 1]]
        for k in known:
            cmd += ["--known", k["sig"]]
        rc, out = run(cmd, tcap + 400)
        sys.stdout.write(out[-3000:])
        res = json.load(open(out_json))
        viol = 0
        for v in res["violations"]:
            ok = 0
            for _ in range(3):
                rc2, o2 = run([binp, "--prop", prop, "--replay", v["replay"], "--scratch", scratch], 200)
                if rc2 == 1:
                    ok += 1
            if ok >= 2:
                viol += 1
                print("  what: " + v["what"])
                print("VIOLATION property=%s replay=%s" % (prop, v["replay"]), flush=True)
            else:
                print("note: unstable failure ignored (%d/3 replays): %s" % (ok, v["what"]))
        for u in res.get("unconfirmed", []):
            print("note: failure did not reproduce when replayed, not reported: " + u)
        cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": res["rule"],
               "samples": res["samples"], "classes": res["classes"], "planned_cases": res["planned_cases"],
               "excluded_known": res["known_hits"], "repro_failures_not_confirmed": len(res.get("unconfirmed", []))}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": pc.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": viol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        return 1 if viol else 0
    finally:
        if scratch.startswith("/tmp/vt_"):
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
