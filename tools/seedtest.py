#!/usr/bin/env python3
"""Development aid: runs checks against the planted bugs in seeded/, each in a
scratch worktree.  seedtest.py [--all] [ids...]; --all runs every check."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedtest.wt"
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
sh = lambda c: subprocess.run(c, shell=True, text=True, capture_output=True)
sh("git -C /repo worktree remove --force %s; git -C /repo worktree prune" % WT)
r = sh("git -C /repo worktree add --detach %s HEAD" % WT)
assert r.returncode == 0, r.stderr
checks = [c["property"] if "property" in c else c["property_id"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
try:
    for i in ids:
        d = ROOT + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        a = sh("git -C %s checkout -- . && git -C %s apply %s/patch.diff" % (WT, WT, d))
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stderr); continue
        hit = []
        for p in (checks if "--all" in sys.argv else [meta["property"]]):
            t = time.time()
            o = sh("cd %s && VERIF_REPO=%s VERIF_SEED=%s python3 run.py %s" % (ROOT, WT, os.environ.get("VERIF_SEED", "1"), p))
            v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")]
            if o.returncode == 1 and v:
                hit.append(p)
            elif o.returncode:
                hit.append("%s?rc%d" % (p, o.returncode))
            dt = time.time() - t
        print("%-22s %s %s caught by: %s (%.0f s)" % (i, meta["property"], "ok  " if meta["property"] in hit else "MISS", " ".join(hit) or "-", dt), flush=True)
finally:
    sh("git -C /repo worktree remove --force %s; git -C /repo worktree prune" % WT)
