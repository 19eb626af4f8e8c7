"""Known findings: genuine defects that are recorded rather than repaired (known_findings.json).
Each is one concrete input; the probe below runs it through the real code and says whether it
still fails the way it is listed. Nothing is suppressed by them: the specification's domain
leaves these inputs out, so any other failure of the same property is still reported."""
import json
import os

import build
from build import VERIF

FILE = os.path.join(VERIF, "known_findings.json")


def shown(pid, x, seen):
    if all(s in seen for s in x["seen"]):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, x["id"], x["what"]), flush=True)
        return 1
    print("note: known finding %s no longer shows (now: %s)" % (x["id"], seen[:300]))
    return 0


def report(rep, pid, work):
    with open(FILE) as f:
        fs = [x for x in json.load(f)["findings"] if x["property"] == pid]
    if not fs:
        return
    n = 0
    for x in [x for x in fs if x.get("history")]:
        import writer
        calls = [c.split("|") for c in x["history"].split(";")]
        a = build.run_lines([build.build_crate("hist", "hist"), "write"],
                            [";".join(" ".join([c[0]] + [writer.hx(y) for y in c[1:]]) for c in calls)], 60)[0]
        n += shown(pid, x, str(a.get("xml") or a.get("err")))
    fs = [x for x in fs if not x.get("history")]
    if not fs:
        rep.cov["known_findings_seen"] = n
        return
    ld = build.build_crate("loader", "loader")
    jobs = [{"id": "k" + x["id"].lower(), "files": x["files"], "main": "main.xsd"} for x in fs]
    build.load_units(ld, jobs, os.path.join(work, "known"))
    live = []
    for x, j in zip(fs, jobs):
        j["x"] = x
        if j["load"]["status"] == "ok":
            live.append({"id": j["id"], "rs": j["rs"], "types": [x["type"]] if x.get("document") else [],
                         "exprs": [(x["type"], x["expr"])] if x.get("expr") else [], "strs": []})
    w = os.path.join(work, "knownb")
    os.makedirs(w, exist_ok=True)
    bad, progs = build.build_units(live, w) if live else ({}, {})
    for j in jobs:
        x = j["x"]
        st = j["load"]["status"]
        if st != "ok":
            seen = st + " " + str(j["load"].get("err"))
        elif j["id"] in bad:
            seen = "compile " + "; ".join(bad[j["id"]] or [])
        elif x.get("document") or x.get("expr"):
            op = "D" if x.get("document") else "E"
            a = build.run_cases(progs, [(j["id"], op, 0, x.get("document", ""))])[0]
            seen = a["status"] + " " + (a.get("err") or a.get("dbg") or "") + " -> " + str(a.get("back") or a.get("backerr"))
        else:
            seen = "ok"
        n += shown(pid, x, seen)
    rep.cov["known_findings_seen"] = n
