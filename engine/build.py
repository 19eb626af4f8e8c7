"""Builds the code under test (from /repo's working tree) together with the harness crates and
runs schemas, documents and values through it.

Nothing here knows what the right answer is: the expected behaviour comes from the TLA+
specification; this file only drives the implementation and records what it did."""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, ".work", "target")
NCRATES = 8


class ToolError(Exception):
    """The machinery itself failed (never reported as a violation)."""


class Bg(threading.Thread):
    """Runs something beside the main thread."""
    def __init__(self, fn, *a):
        super().__init__(daemon=True)
        self.fn, self.a, self.val, self.exc = fn, a, None, None
        self.start()

    def run(self):
        try:
            self.val = self.fn(*self.a)
        except BaseException as e:  # handed to get()
            self.exc = e

    def get(self):
        self.join()
        if self.exc:
            raise self.exc
        return self.val


def env():
    e = dict(os.environ)
    e.update(
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        HOME="/root",
    )
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def repo_path(toml):
    return toml.replace("/repo/", REPO + "/")


def run_cargo(args, cwd, timeout=800):
    return subprocess.run(
        ["cargo"] + args, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        text=True, timeout=timeout)


def build_crate(src, name):
    """Builds one of the committed harness crates in a scratch copy; returns the binary, or the
    compiler's messages when the code under test does not compile with it."""
    dst = os.path.join(VERIF, ".work", "crates", name)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copytree(os.path.join(VERIF, "harness", src), dst,
                    ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    p = os.path.join(dst, "Cargo.toml")
    with open(p) as f:
        t = f.read()
    with open(p, "w") as f:
        f.write(repo_path(t))
    shutil.copy(os.path.join(REPO, "Cargo.lock"), dst)
    r = run_cargo(["build", "--offline", "--target-dir", TARGET], dst)
    if r.returncode != 0:
        raise ToolError("harness crate %s does not build:\n%s" % (src, r.stderr[-4000:]))
    m = re.search(r'^name = "(\S+)"', t, re.M)
    return os.path.join(TARGET, "debug", m.group(1))


_limits = (2 << 30, )


def _preexec():
    resource.setrlimit(resource.RLIMIT_AS, (_limits[0], _limits[0]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_once(argv, text, cpu_s):
    """Returns (output, why it died or None); a process that needs more than cpu_s seconds of
    processor time hangs."""
    def limit():
        _preexec()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
    p = subprocess.run(argv, input=text, text=True, capture_output=True, preexec_fn=limit, errors="replace",
                       encoding="utf-8")
    if p.returncode:
        return p.stdout, "rc %s %s" % (p.returncode, p.stderr.strip()[-300:])
    return p.stdout, None


def cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read().rsplit(")", 1)[1].split()
        return (int(t[11]) + int(t[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def watch(p, fout, timeout):
    """Waits for the process. It hangs when a single line takes it more than `timeout` seconds of
    its own processor time, or ten times that on the clock (a loaded machine is not a hang)."""
    size, t0, c0 = 0, time.time(), 0.0
    while True:
        try:
            p.wait(0.05 if time.time() - t0 < 2 else 0.5)
            return None
        except subprocess.TimeoutExpired:
            pass
        n = os.fstat(fout.fileno()).st_size
        if n != size:
            size, t0, c0 = n, time.time(), cpu(p.pid)
        elif time.time() - t0 > timeout and cpu(p.pid) - c0 > timeout or time.time() - t0 > 10 * timeout:
            p.kill()
            p.wait()
            return "hung (no answer within %ss)" % timeout


def run_lines(argv, lines, timeout, on_stdin=True, tmp=None, tag="in"):
    """Feeds `lines` to a line-oriented driver that answers one line per line. When the driver
    dies or hangs, the line it was working on gets a synthetic answer and the rest is restarted
    in a new process. Returns the list of answers (parsed JSON)."""
    answers = []
    pos = 0
    restarts = 0
    while pos < len(lines):
        chunk = lines[pos:]
        data = "".join(l + "\n" for l in chunk)
        args = list(argv)
        if not on_stdin:
            fn = os.path.join(tmp, "%s-%d.lst" % (tag, pos))
            with open(fn, "w") as f:
                f.write(data)
            args.append(fn)
        with tempfile.TemporaryFile() as fin, tempfile.TemporaryFile() as fout, tempfile.TemporaryFile() as ferr:
            if on_stdin:
                fin.write(data.encode("utf-8"))
                fin.seek(0)
            p = subprocess.Popen(args, stdin=fin, stdout=fout, stderr=ferr, preexec_fn=_preexec)
            why = watch(p, fout, timeout)
            fout.seek(0)
            ferr.seek(0)
            out, err = (f.read().decode("utf-8", "replace") for f in (fout, ferr))
            if not why and p.returncode != 0:
                why = "died rc=%s %s" % (p.returncode, err.strip()[-200:])
        got = []
        for l in out.split("\n"):
            if not l:
                continue
            try:
                got.append(json.loads(l))
            except ValueError:
                break
        answers.extend(got[:len(chunk)])
        pos += len(got)
        if pos < len(lines):
            answers.append({"status": "crash", "err": why or "no answer"})
            pos += 1
            restarts += 1
            if restarts > (2 if why and why.startswith("hung") else 6):
                while pos < len(lines):
                    answers.append({"status": "skipped", "err": "too many crashes before this one"})
                    pos += 1
    return answers


def load_units(loader, units, work, timeout=60):
    """units: list of {id, files: {name: text}, main}. Adds u['load']."""
    lines = []
    for u in units:
        d = os.path.join(work, "xsd", u["id"])
        os.makedirs(d, exist_ok=True)
        for n, t in u["files"].items():
            fn = os.path.join(d, n)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            with open(fn, "w", newline="") as f:
                f.write(t)
        u["rs"] = os.path.join(d, "gen.rs")
        lines.append("%s\t%s\t%s" % (u["id"], os.path.join(d, u.get("main", "main.xsd")), u["rs"]))
    n = max(1, (len(lines) + NCRATES - 1) // NCRATES)
    parts = [(i, lines[i:i + n]) for i in range(0, len(lines), n)]
    with ThreadPoolExecutor(NCRATES) as ex:
        res = list(ex.map(lambda p: run_lines([loader], p[1], timeout, False, work,
                                              "load%d" % p[0]), parts))
    flat = [a for r in res for a in r]
    assert len(flat) == len(units)
    for u, a in zip(units, flat):
        u["load"] = a
    return units


DRV = r'''
#![allow(warnings)]
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
// decode a document, then write the value back and decode that again
macro_rules! dec { ($t:ty, $xml:expr) => {{
    match <$t>::from_xml($xml) {
        Err(e) => format!("{{\"status\":\"err\",\"err\":{},\"msg\":{}}}", js(&format!("{:?}", e)), js(&e.to_string())),
        Ok(v) => { let d = format!("{:?}", v); enc!($t, v, d) }
    }
}}}
macro_rules! enc { ($t:ty, $v:expr, $d:expr) => {{
    let v: $t = $v; let d: String = $d;
    match v.to_xml() {
        Err(e) => format!("{{\"status\":\"ok\",\"dbg\":{},\"xmlerr\":{}}}", js(&d), js(&format!("{:?}", e))),
        Ok(b) => match String::from_utf8(b) {
            Err(_) => format!("{{\"status\":\"ok\",\"dbg\":{},\"xmlerr\":\"not utf-8\"}}", js(&d)),
            Ok(x) => match <$t>::from_xml(&x) {
                Ok(w) => format!("{{\"status\":\"ok\",\"dbg\":{},\"xml\":{},\"back\":{},\"eq\":{}}}", js(&d), js(&x), js(&format!("{:?}", w)), w == v),
                Err(e) => format!("{{\"status\":\"ok\",\"dbg\":{},\"xml\":{},\"backerr\":{}}}", js(&d), js(&x), js(&format!("{:?}", e))),
            }
        }
    }
}}}
// FromStr / Display of simple types
macro_rules! strs { ($t:ty, $s:expr) => {{
    match <$t as ::std::str::FromStr>::from_str($s) {
        Err(e) => format!("{{\"status\":\"err\",\"err\":{}}}", js(&format!("{:?}", e))),
        Ok(v) => format!("{{\"status\":\"ok\",\"dbg\":{},\"show\":{}}}", js(&format!("{:?}", v)), js(&v.to_string())),
    }
}}}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
%MODS%
fn go(u: &str, op: &str, k: usize, arg: &str) -> String {
    match u {
%DISPATCH%
        _ => "{\"status\":\"nounit\"}".to_string(),
    }
}
fn main() {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        let i = std::io::stdin();
        let o = std::io::stdout();
        for line in i.lock().lines() {
            let line = line.unwrap();
            let mut p = line.split('\t');
            let (u, op, k, arg) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap(), p.next().unwrap_or(""));
            let r = std::panic::catch_unwind(|| go(u, op, k.parse().unwrap(), &unhex(arg))).unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("{{\"status\":\"panic\",\"err\":{}}}", js(&m))
            });
            let mut o = o.lock();
            writeln!(o, "{}", r).unwrap();
            o.flush().unwrap();
        }
    }).unwrap();
    t.join().unwrap();
}
'''


def warm(work):
    """Compiles the library and its dependencies while TLC is still working."""
    ws = os.path.join(work, "warm")
    os.makedirs(os.path.join(ws, "src"))
    with open(os.path.join(ws, "src", "lib.rs"), "w") as f:
        f.write("")
    with open(os.path.join(ws, "Cargo.toml"), "w") as f:
        f.write(repo_path('[package]\nname = "warm"\nversion = "0.1.0"\nedition = "2021"\n' + DEPS
                          + "[workspace]\n[profile.dev]\ndebug = 0\n"))
    shutil.copy(os.path.join(REPO, "Cargo.lock"), ws)
    run_cargo(["build", "--offline", "--target-dir", TARGET], ws)


DEPS = ('publish = false\n[dependencies]\nxsd = { path = "/repo/xsd" }\n'
        'rust_decimal = { version = "1.6", default-features = false, features = ["std"] }\n')


def build_units(units, work):
    """Compiles the generated code of `units` (each with u['rs'], u['types']: list of root type
    names, u['exprs']: list of (type, rust expression), u['strs']: type names with FromStr) into
    NCRATES programs. Returns (failures, programs): failures maps a unit id to compiler messages.
    On failure the offending units are left out and the rest is built again."""
    bad = {}
    for attempt in range(6):
        live = [u for u in units if u["id"] not in bad]
        fails, progs = _build_once(live, work)
        if not fails:
            return bad, progs
        bad.update(fails)
    # enough is known to be wrong; the rest is not looked at (None)
    return dict({u["id"]: None for u in units}, **bad), {}


def _build_once(units, work):
    ws = os.path.join(work, "gen")
    shutil.rmtree(ws, ignore_errors=True)
    os.makedirs(ws)
    n = max(1, min(NCRATES, (len(units) + 3) // 4))
    parts = [units[i::n] for i in range(n)]
    members = []
    owner = {}
    progs = {}
    for i, part in enumerate(parts):
        name = "g%d" % i
        members.append(name)
        src = os.path.join(ws, name, "src")
        os.makedirs(src)
        mods, disp = [], []
        for u in part:
            uid = u["id"]
            mods.append('#[path = "%s"] pub mod %s;' % (u["rs"], uid))
            mods.append('#[path = "x_%s.rs"] mod x_%s;' % (uid, uid))
            disp.append('        "%s" => x_%s::go(op, k, arg),' % (uid, uid))
            owner[u["rs"]] = uid
            x = ["use super::js;", "use super::%s as s;" % uid, "use s::*;"]
            arms = []
            for k, t in enumerate(u.get("types", [])):
                arms.append('("D", %d) => dec!(s::%s, arg),' % (k, t))
            for k, (t, e) in enumerate(u.get("exprs", [])):
                x.append("fn e%d() -> s::%s { %s }" % (k, t, e))
                arms.append('("E", %d) => { let v = e%d(); let d = format!("{:?}", v); '
                            'enc!(s::%s, v, d) }' % (k, k, t))
            for k, t in enumerate(u.get("strs", [])):
                arms.append('("S", %d) => strs!(s::%s, arg),' % (k, t))
            x.append("pub fn go(op: &str, k: usize, arg: &str) -> String { match (op, k) {\n%s\n"
                     "_ => \"{\\\"status\\\":\\\"noop\\\"}\".to_string() } }" % "\n".join(arms))
            xf = os.path.join(src, "x_%s.rs" % uid)
            with open(xf, "w") as f:
                f.write("\n".join(x))
            owner[xf] = uid
            progs[uid] = os.path.join(TARGET, "debug", name)
        with open(os.path.join(src, "main.rs"), "w") as f:
            f.write(DRV.replace("%MODS%", "\n".join(mods)).replace("%DISPATCH%", "\n".join(disp)))
        with open(os.path.join(ws, name, "Cargo.toml"), "w") as f:
            f.write(repo_path('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n' % name + DEPS))
    with open(os.path.join(ws, "Cargo.toml"), "w") as f:
        f.write('[workspace]\nresolver = "2"\nmembers = [%s]\n[profile.dev]\ndebug = 0\n'
                % ", ".join('"%s"' % m for m in members))
    shutil.copy(os.path.join(REPO, "Cargo.lock"), ws)
    r = run_cargo(["build", "--offline", "--keep-going", "--message-format=json",
                   "--target-dir", TARGET], ws)
    if r.returncode == 0:
        return {}, progs
    fails = {}
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        for s in m["message"]["spans"]:
            fn = os.path.normpath(os.path.join(ws, s["file_name"]))
            uid = owner.get(fn) or owner.get(s["file_name"])
            if uid:
                fails.setdefault(uid, []).append(m["message"]["message"])
    if not fails:
        raise ToolError("cargo build of the generated crates failed:\n" + r.stderr[-4000:])
    return fails, progs


def run_cases(progs, cases, timeout=120):
    """cases: list of (unit id, op, k, text). Returns the answers in order."""
    by = {}
    for i, (u, op, k, arg) in enumerate(cases):
        by.setdefault(progs[u], []).append((i, "%s\t%s\t%d\t%s" % (u, op, k, arg.encode().hex())))
    out = [None] * len(cases)

    def job(item):
        prog, ls = item
        return ls, run_lines([prog], [l for _, l in ls], timeout)
    with ThreadPoolExecutor(NCRATES) as ex:
        for ls, ans in ex.map(job, by.items()):
            for (i, _), a in zip(ls, ans):
                out[i] = a
    return out
