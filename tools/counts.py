#!/usr/bin/env python3
"""Which planted bugs change lines of the original repository (development tool)."""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mine = set(subprocess.run(["git", "log", "--format=%H", "d9c362a..HEAD"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split())
for p in sorted(glob.glob(V + "/seeded/*/patch.diff")):
    i = os.path.basename(os.path.dirname(p))
    ok = subprocess.run(["git", "apply", "--check", p], cwd="/repo", stderr=subprocess.PIPE).returncode == 0
    f = None; orig = own = 0
    for l in open(p):
        if l.startswith("--- a/"): f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if f is None or l.startswith(("diff", "index", "---", "+++")): continue
        if l.startswith("-"):
            b = subprocess.run(["git", "blame", "-l", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", f], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout
            h = b.split()[0].lstrip("^") if b else ""
            if any(x.startswith(h) for x in mine): own += 1
            else: orig += 1
            n += 1
        elif not l.startswith("+"): n += 1
    print("%-28s applies=%s original=%d own=%d%s" % (i, ok, orig, own, "" if orig and ok else "   <---"))
