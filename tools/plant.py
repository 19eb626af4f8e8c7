#!/usr/bin/env python3
"""Turns the planted-bug definitions of tools/bugs/*.py into /verif/seeded/<id>/.

usage: plant.py [ID ...]      (default: all that are not there yet)

For each bug: a scratch copy of /repo, demo there (must exit 0), apply the edits,
build + stable tests (must pass), demo again (must exit non-zero); then
patch.diff, demo.sh, meta.json and demo/ are written.  Not used by any check.
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for this input; non-zero: it does not
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/demo/." "$tmp/"
sed -i "s|@REPO@|$repo|g" "$tmp/Cargo.toml"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target"
%s
'''
RUN = 'cargo run --offline -q'

CARGO = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
publish = false

[dependencies]
xsd = { path = "@REPO@/xsd" }
xsd-internal = { path = "@REPO@/xsd-internal" }
rust_decimal = "1"

[workspace]
'''


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    bugs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "bugs", "*.py"))):
        for b in runpy.run_path(f)["BUGS"]:
            if b.get("retired"):
                continue
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b
    ids = sys.argv[1:] or [i for i in bugs if not os.path.exists(os.path.join(SEEDED, i, "meta.json"))]
    bad = []
    for i in ids:
        b = bugs[i]
        scratch = tempfile.mkdtemp(prefix="plant_")
        try:
            repo = os.path.join(scratch, "repo")
            sh("rsync -a --exclude target /repo/ %s" % repo, "/")
            sh("find . -name \"*.rs\" | xargs touch", repo)
            out = os.path.join(scratch, "seed")
            demo = os.path.join(out, "demo")
            os.makedirs(os.path.join(demo, "src"))
            open(os.path.join(demo, "Cargo.toml"), "w").write(CARGO)
            for name, text in b["files"].items():
                p = os.path.join(demo, name if name != "main.rs" else "src/main.rs")
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(text.lstrip("\n"))
            open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH % b.get("run", RUN))
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            rc, o = sh("bash %s/demo.sh" % out, repo)
            if rc != 0:
                print(i, "DEMO FAILS ON THE UNCHANGED TREE\n", o[-3000:]); bad.append(i); continue
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(i, "edit does not match once:", s.count(old), f, old); bad.append(i); break
                open(p, "w").write(s.replace(old, new))
            else:
                rc, diff = sh("git diff", repo)
                # the stable tests
                rc, o = sh("export CARGO_TARGET_DIR=/tmp/plant_target; cargo build --offline -q --all 2>&1 && cargo test --offline -q --workspace --no-fail-fast 2>&1", repo)
                if rc != 0:
                    fails = [l for l in o.splitlines() if "FAILED" in l or "panicked" in l or l.startswith("error")]
                    print(i, "BUILD OR TESTS FAIL WITH THE PATCH\n", "\n".join(fails)[-1500:] or o[-1500:]); bad.append(i); continue
                try:
                    rc, o = sh("bash %s/demo.sh" % out, repo, 290)
                except subprocess.TimeoutExpired:
                    rc, o = 124, "timeout"
                if rc == 0:
                    print(i, "DEMO PASSES WITH THE PATCH"); bad.append(i); continue
                if "error: could not compile" in o and not b.get("compile_ok"):
                    print(i, "note: demo fails by not compiling:", o[:1500])
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(os.path.join(out, "meta.json"), "w"), indent=2)
                dst = os.path.join(SEEDED, i)
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(out, dst)
                print(i, "ok")
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    print("bad:", bad)


main()
