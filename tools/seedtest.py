#!/usr/bin/env python3
"""seedtest.py [--check] [--also C12,...] ID...: confirm planted bugs (build, tests, demo both ways) and run the checks against them"""
import json, os, subprocess, sys, time
args = sys.argv[1:]
chk = "--check" in args
nodemo = "--nodemo" in args
also = []
if "--also" in args:
    i = args.index("--also"); also = args[i + 1].split(","); del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir("/verif/seeded"))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for s in ids:
    d = "/verif/seeded/" + s
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    meta = json.load(open(d + "/meta.json"))
    res = []
    if not nodemo:
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); res.append("demo clean rc=%d" % r.returncode)
        if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(s, "DOES NOT APPLY", a.stderr); continue
    try:
        if not nodemo:
            t = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/t.json")
            j = json.load(open("/tmp/t.json")) if os.path.exists("/tmp/t.json") else {}
            res.append("tests " + ("ok" if "test result: ok. 9 passed" in t.stdout else "FAIL " + t.stdout[-1500:]+t.stderr[-1500:]))
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); res.append("demo patched rc=%d" % r.returncode)
            if r.returncode == 3: print(r.stdout[-1500:])
        if chk:
            for p in [meta["property"]] + also:
                t0 = time.time()
                r = sh("python3 run.py " + p, cwd="/verif", env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                res.append("%s rc=%d viol=%d %.0fs" % (p, r.returncode, len(v), time.time() - t0))
                if r.returncode != 1: print(r.stdout[-1000:], r.stderr[-500:])
                else: print("   ", r.stdout.splitlines()[0][:300])
    finally:
        sh("git -C /repo checkout -- .")
    print(s, meta["property"], "|", "; ".join(res), flush=True)
    R = "/verif/tools/seed_results.json"
    d = json.load(open(R)) if os.path.exists(R) else {}
    for x in res:
        if " rc=" in x and not x.startswith("demo"):
            p, rc = x.split()[0], x.split("rc=")[1].split()[0]
            d.setdefault(s, {})[p] = {"1": "caught", "0": "missed"}.get(rc, "undecided")
    json.dump(d, open(R, "w"), indent=1, sort_keys=True)
