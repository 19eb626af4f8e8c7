"""Runs TLC."""
import glob
import json
import os
import re
import shutil
import subprocess

from build import VERIF, ToolError

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


def run(module, cfg, work, env=None, workers=8, timeout=800, extra=(), heap="6g"):
    """Returns (states, distinct, log). ToolError when TLC reports anything but success."""
    meta = os.path.join(work, "tlc-" + os.path.basename(cfg))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(
        ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
         "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
         "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module)],
        cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        if os.environ.get("VERIF_KEEP"):
            with open("/tmp/jstack.%d" % p.pid, "w") as f:
                subprocess.run(["jstack", "-l", str(p.pid)], stdout=f, stderr=subprocess.STDOUT)
        raise TlcTimeout("TLC took longer than %ss on %s" % (timeout, module))
    finally:
        p.kill()
        p.wait()
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if p.returncode != 0 or not m:
        with open(os.path.join(work, "tlc.log"), "w") as f:
            f.write(out)
        raise TlcFailure(module, out, os.path.join(work, "tlc.log"), p.returncode)
    return int(m.group(1)), int(m.group(2)), out


class TlcTimeout(ToolError):
    pass


class TlcFailure(ToolError):
    def __init__(self, module, log, path, rc):
        self.log = log
        self.rc = rc
        lines = [l for l in log.splitlines() if l.startswith("Error") or "violated" in l or "***" in l]
        super().__init__("TLC failed on %s (rc %s): %s [%s]" % (module, rc, lines[:4], path))


def session(plan, work, timeout=800, workers=8):
    """plan: list of {prof, seed, from, units, cases}. Returns (units, stats)."""
    out = os.path.join(work, "units")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    pf = os.path.join(work, "plan.json")
    with open(pf, "w") as f:
        json.dump(plan, f)
    # (a run that hangs is given up and started again)
    for last in (False, False, True):
        try:
            gen, dist, _ = run("Session.tla", "Session.cfg", work, {"V_PLAN": pf, "V_OUT": out}, workers, timeout)
            break
        except TlcTimeout:
            # (a unit is written when it is complete: what is there can be used; the evidence counts only that)
            n = len(glob.glob(out + "/*.json"))
            if 2 * n >= sum(p["units"] for p in plan):
                gen = dist = n
                break
            if last:
                raise
    units = []
    for fn in glob.glob(out + "/*.json"):
        with open(fn) as f:
            try:
                u = json.load(f)[0]
            except ValueError:
                continue    # cut off
        u["id"] = os.path.basename(fn)[:-5]
        units.append(u)
    units.sort(key=lambda u: (u["p"], u["ix"]))
    return units, {"states": dist, "transitions": gen}
