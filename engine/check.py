#!/usr/bin/env python3
"""check.py <property> quick|thorough      decide one property
   check.py replay <file>                  run one recorded violation again

Exit 0: held on everything explored. 1: a VIOLATION line was printed. 2: the machinery failed."""
import json
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import conform  # noqa: E402
import props  # noqa: E402
import tlc  # noqa: E402
from build import VERIF, Bg  # noqa: E402


def plan_of(pid, tier, seed):
    out = []
    for i, (prof, units, cases) in enumerate(props.PROPS[pid][tier]):
        whole = props.WHOLE.get(prof)
        start = 1 if whole is None or units >= whole else 1 + (seed * 37) % whole
        # the pools of different properties do not overlap
        s = (seed * 1009 + int(pid[1:]) * 53 + i) % 30000 + 1
        out.append({"prof": prof, "seed": s, "from": start, "units": units, "cases": cases,
                    "bad": props.PROPS[pid].get("bad", False),
                    "model": "model" in props.PROPS[pid]["facets"]})
    return out


def slim(u):
    """The unit as the specification handed it over."""
    return {k: u[k] for k in ("p", "ix", "att", "prof", "files", "loads", "surface", "closures", "cases",
                              "strs", "model", "nss", "fail", "id") if k in u}


class Report:
    def __init__(self, pid, tier, seed, where=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t = time.time()
        self.viol = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assume = []
        d = os.path.join(where or os.path.join(VERIF, "replays"), pid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        self.dir = d

    def violation(self, what, data):
        n = len(self.viol) + 1
        p = os.path.join(self.dir, "%d.json" % n)
        self.viol.append(what)
        if n > 20:
            return
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, what=what, **data), f, indent=1, default=str)
        if n <= 5:
            print("  " + what[:400].replace("\n", " "))
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t, 1),
              "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return 1 if self.viol else 0


BATCH = 400


def sessions(rep, pid, tier, seed, work):
    p = props.PROPS[pid]
    crate = p.get("crate", "loader")
    loader = Bg(build.build_crate, crate, crate)
    warm = Bg(build.warm, work) if not p.get("loadonly") else None
    units, st = tlc.session(plan_of(pid, tier, seed), work, timeout=200 if tier == "quick" else 3600)
    rep.cov["states"] += st["states"]
    rep.cov["transitions"] += st["transitions"]
    ld = loader.get()
    if warm:
        warm.get()
    tot = {}
    for i in range(0, len(units), BATCH):
        part = units[i:i + BATCH]
        divs, n = conform.run_units(ld, part, seed, work, nexpr=p.get("nexpr", 2),
                                    all_styles=p.get("all_styles", False), loadonly=p.get("loadonly", False))
        for k, v in n.items():
            tot[k] = tot.get(k, 0) + v
        if i == 0:
            for u in part[:1]:
                rep.cov["samples"].append({"schema": u["files_x"], "documents": [c["doc"] for c in u["cases"][:1]],
                                           "expected": [c["value"] or c["err"] for c in u["cases"][:1]]})
        for d in divs:
            if d.facet in p["facets"]:
                rep.violation(repr(d), {"facet": d.facet, "kind": "session", "unit": slim(d.unit), "seed": seed,
                                        "schemas": d.unit.get("files_x"), "data": d.data})
        shutil.rmtree(os.path.join(work, "xsd"), ignore_errors=True)
    rep.cov["impl"] = tot
    rep.cov["traces_validated_against_impl"] += len(units)
    rep.assume.append("facets compared: " + ", ".join(sorted(p["facets"])))


def main(argv):
    if argv and argv[0] == "replay":
        return replay(argv[1])
    pid, tier = argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = os.path.join(VERIF, ".work", pid + "-" + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep = Report(pid, tier, seed)
    try:
        import findings
        if pid in props.PROPS:
            sessions(rep, pid, tier, seed, work)
        if pid in props.DRIVERS:
            props.DRIVERS[pid](rep, tier, seed, work)
        findings.report(rep, pid, work)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    rc = rep.finish()
    print("%s %s: %s in %.0f s: %s" % (pid, tier, "violated" if rc else "held", time.time() - rep.t,
                                       json.dumps({k: v for k, v in rep.cov.items() if k != "samples"})))
    return rc


def replay(path):
    with open(path) as f:
        r = json.load(f)
    work = os.path.join(VERIF, ".work", "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        if r.get("kind") != "session":
            # the history or invocation is in the file; what decides it is the property's own driver
            print(json.dumps(r["data"], indent=1)[:4000])
            rep = Report(r["property"], "quick", int(os.environ.get("VERIF_SEED", "1")), work)
            props.DRIVERS[r["property"]](rep, "quick", rep.seed, work)
            print("violated" if rep.viol else "no longer violated")
            return 1 if rep.viol else 0
        p = props.PROPS[r["property"]]
        ld = build.build_crate(p.get("crate", "loader"), p.get("crate", "loader"))
        divs, _ = conform.run_units(ld, [r["unit"]], r["seed"], work, nexpr=p.get("nexpr", 2),
                                    all_styles=p.get("all_styles", False), loadonly=p.get("loadonly", False))
        hit = [d for d in divs if d.facet in p["facets"]]
        for d in hit:
            print(d)
            if d.data.get("document"):
                print("   ", d.data["document"])
        print("VIOLATION property=%s replay=%s" % (r["property"], path) if hit else "no longer violated")
        return 1 if hit else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except build.ToolError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
