#!/usr/bin/env python3
"""matrix.py OUT.json own|all [SEED_ID ...]: run the checks (in a scratch copy of /verif, against a scratch
copy of /repo) on the planted bugs; which checks catch which.  A development tool, not a check."""
import glob, json, os, subprocess, sys, time

out, mode, ids = sys.argv[1], sys.argv[2], sys.argv[3:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MX = os.environ.get("MX", "/tmp/mx")
os.makedirs(MX, exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "--exclude", ".work", V + "/", MX + "/verif/"], check=True)
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
res = json.load(open(out)) if os.path.exists(out) else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    if ids and i not in ids:
        continue
    m = json.load(open(d))
    subprocess.run(["rsync", "-a", "--delete", "--checksum", "--exclude", "target", "/repo/", MX + "/repo/"], check=True)
    subprocess.run(["git", "apply", os.path.dirname(d) + "/patch.diff"], cwd=MX + "/repo", check=True)
    own = m["property"]
    todo = [own] if mode == "own" else [own] + [p for p in props if p != own]
    r = res.setdefault(i, {"property": own, "checks": {}})
    for p in todo:
        t = time.time()
        q = subprocess.run(["python3", "engine/check.py", p, "quick"], cwd=MX + "/verif",
                           env=dict(os.environ, VERIF_REPO=MX + "/repo", VERIF_SEED="1", VERIF_TIER="quick"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r["checks"][p] = q.returncode
        line = [l for l in q.stdout.splitlines() if l.strip()]
        if mode == "own" or q.returncode not in (0, 1):
            print(i, p, q.returncode, "%.0fs" % (time.time() - t), (line[0] if q.returncode == 1 else line[-1] if line else "")[:230], flush=True)
    json.dump(res, open(out, "w"), indent=1)
    if mode != "own":
        print(i, own, "own=%d" % r["checks"][own], [p for p in props if r["checks"].get(p) == 1], flush=True)
