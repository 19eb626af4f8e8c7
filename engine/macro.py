"""P20: the attribute macro. TLC enumerates the invocations and their outcomes; the invocations are
compiled with the real macro and what the compiler says and the modules do is compared."""
import json
import os
import random
import shutil
import subprocess

import build
import tlc
from build import REPO, TARGET, ToolError, repo_path, run_cargo

X = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns="urn:m" targetNamespace="urn:m" elementFormDefault="qualified">\n'
ONE = X + '<xs:element name="name" type="xs:string"/>\n</xs:schema>\n'
MANY = X + '''<xs:include schemaLocation="../extra.xsd"/>
<xs:element name="thing"><xs:complexType><xs:sequence>
<xs:element name="n" type="xs:string"/>
<xs:element name="part"><xs:complexType><xs:sequence><xs:element name="k" type="kind" maxOccurs="unbounded"/></xs:sequence></xs:complexType></xs:element>
</xs:sequence></xs:complexType></xs:element>
<xs:simpleType name="kind"><xs:restriction base="xs:string"><xs:enumeration value="a"/><xs:enumeration value="b"/></xs:restriction></xs:simpleType>
</xs:schema>
'''
FILES = {
    "one.xsd": ONE,
    "sub/dir/many.xsd": MANY,
    "sub/extra.xsd": X + '<xs:element name="extra" type="xs:string"/>\n</xs:schema>\n',
    "nothing.xsd": X + "</xs:schema>\n",
    "abs.xsd": ONE,
    "folder.xsd/keep": "",
    "garbled.xsd": X + "<xs:element name=\n",
    "unsupported.xsd": X + '\n<xs:element name="name" type="xs:string"/>\n  <xs:frobnicate name="x"/>\n</xs:schema>\n',
    "noinclude.xsd": X + '<xs:include schemaLocation="gone/away.xsd"/>\n</xs:schema>\n',
    "badinclude.xsd": X + '<xs:include schemaLocation="unsupported.xsd"/>\n</xs:schema>\n',
}
PATHS = {"one": "one.xsd", "many": "sub/dir/many.xsd", "nothing": "nothing.xsd", "missing": "not/there.xsd",
         "dir": "folder.xsd", "garbled": "garbled.xsd", "unsupported": "unsupported.xsd",
         "noinclude": "noinclude.xsd", "badinclude": "badinclude.xsd"}
# what the message has to say for each reason; () for those whose wording is the compiler's or syn's
TELLS = {"args": (), "shape": (), "missing": ("not/there.xsd",), "dir": ("folder.xsd",), "garbled": ("garbled.xsd",),
         "unsupported": ("unsupported.xsd", "frobnicate", "line 4"), "noinclude": ("gone/away.xsd",),
         "badinclude": ("unsupported.xsd", "frobnicate", "line 4")}
# what lies where the compiler runs: nobody should read these
DECOY = X + '<xs:element name="decoy" type="xs:string"/>\n</xs:schema>\n'
PANIC = ("panicked", "custom attribute")
PROBE = {
    "one": 's::Name::from_xml("<name xmlns=\'urn:m\'>v</name>").map(|x| x.0 == "v").unwrap_or(false)',
    "many": 's::Thing::from_xml("<thing xmlns=\'urn:m\'><n>v</n><part><k>b</k><k>a</k></part></thing>")'
            '.map(|x| x.n == "v" && x.part.k == vec![s::Kind::B, s::Kind::A]).unwrap_or(false)',
}
PROBE["abs"] = PROBE["one"]


def attribute(i, root):
    path = os.path.join(root, "abs.xsd") if i["file"] == "abs" else PATHS[i["file"]]
    p = '"%s"' % path
    return {"plain": "(schema = %s)" % p, "comma": "(schema = %s,)" % p, "raw": "(schema = r%s)" % p,
            "none": "", "empty": "()", "literal": "(%s)" % p, "noval": "(schema)", "number": "(schema = 5)",
            "list": "(schema(%s))" % p, "unknown": "(file = %s)" % p, "extra": "(schema = %s, root = \"x\")" % p,
            "before": "(root = \"x\", schema = %s)" % p, "flag": "(schema = %s, strict)" % p,
            "case": "(Schema = %s)" % p}[i["args"]]


def body(i):
    low = "pub const lower_case: u8 = 7;"
    t = i["types"][0] if i["types"] else "lower"
    if i["body"] == "empty":
        return ""
    if i["body"] == "data":
        return low + " #[derive(Debug, PartialEq, Clone)] pub struct Own { pub a: u32 } " \
                     "pub enum Choice { One, Two(u8) } pub type Alias = Own; pub static S: &str = \"s\";"
    if i["body"] == "code":
        return low + " use std::collections::HashMap as M; pub const fn twice(x: u32) -> u32 { x * 2 } " \
                     "pub mod deeper { pub use super::twice; } pub fn map() -> M<u8, u8> { M::new() } " \
                     "macro_rules! three { () => { 3u32 } } pub const THREE: u32 = three!();"
    if t == "lower":
        return low
    return low + " pub struct Holder { pub it: Vec<%s> } impl %s { pub fn own(&self) -> u32 { 9 } } " \
                 "pub mod deeper { pub fn f(x: &super::%s) -> u32 { x.own() } }" % (t, t, t)


def checks(i):
    """Statements that hold in the module around the annotated one."""
    out = ["let _: Option<s::%s> = None;" % t for t in i["types"]]
    if i["body"] != "empty":
        out.append("assert!(s::lower_case == 7);")
    if i["body"] == "data":
        out.append("assert!(s::Own { a: 1 } == s::Alias { a: 1 }.clone()); let _ = (s::Choice::One, s::Choice::Two(1)); "
                   "assert!(s::S == \"s\");")
    if i["body"] == "code":
        out.append("assert!(s::deeper::twice(21) == 42 && s::map().is_empty() && s::THREE == 3);")
    if i["body"] == "uses" and i["types"]:
        t = i["types"][0]
        out.append("let _ = s::Holder { it: Vec::new() }; let _: fn(&s::%s) -> u32 = s::deeper::f;" % t)
    if i["file"] in PROBE:
        out.append("assert!(%s);" % PROBE[i["file"]])
    return " ".join(out)


def declaration(i, root):
    at = {"none": "", "denyin": "", "deprecated": "#[deprecated]", "off": "#[cfg(any())]",
          "deny": "#[deny(non_upper_case_globals)]"}[i["attr"]]
    inner = "#![deny(non_upper_case_globals)]" if i["attr"] == "denyin" else ""
    mac = "#[xsd::all%s]" % attribute(i, root)
    head = "%s\n%s\n" % ((at, mac) if i["first"] else (mac, at))
    if i["shape"] == "struct":
        return head + "%s struct s;" % i["vis"]
    return head + "%s mod s { %s %s }" % (i["vis"], inner, body(i))


def select(invs, tier, seed):
    rng = random.Random(seed)
    key = lambda i: json.dumps(i, sort_keys=True)  # noqa: E731
    invs = sorted(invs, key=key)
    rng.shuffle(invs)
    pick, seen = [], set()

    def cover(f, ok=lambda i: True):
        for i in invs:
            k = f(i)
            if ok(i) and (f, k) not in seen:
                seen.add((f, k))
                pick.append(i)
    # every pair of arguments and file on an ordinary module; every kind of module on a good file
    cover(lambda i: (i["args"], i["file"]), lambda i: i["attr"] != "off" and i["shape"] == "mod")
    cover(lambda i: (i["vis"], i["attr"], i["first"], i["body"], i["shape"]), lambda i: i["res"] != "error")
    cover(lambda i: (i["attr"], i["first"], i["res"], i["file"]))
    cover(lambda i: (i["shape"], i["args"]), lambda i: i["shape"] == "struct")
    if tier == "quick":
        pick += invs[:300] + [i for i in invs if i["res"] == "items"][:150]
    else:
        pick += invs[:8000] + [i for i in invs if i["res"] in ("items", "lint")]
    out, ks = [], set()
    for i in pick:
        if key(i) not in ks:
            ks.add(key(i))
            out.append(i)
    return out


def run_build(ws):
    r = run_cargo(["build", "--offline", "--keep-going", "--message-format=json", "--target-dir", TARGET], ws, 1800)
    msgs = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message":
            msgs.append((m["target"]["name"], m["message"]))
    return r, msgs


def check(rep, tier, seed, work):
    warm = build.Bg(build.warm, work)
    gen, dist, log = tlc.run("Macro.tla", "Macro.cfg", work)
    invs = [json.loads(json.loads(l)[2:]) for l in log.splitlines() if l.startswith('"M ')]
    warm.get()
    pick = select(invs, tier, seed)
    ws = os.path.join(work, "macro")
    crates = {"mok": [], "merr": [], "macc": [], "mlint": []}
    for n, i in enumerate(pick):
        i["id"] = "m%d" % n
        crates[{"items": "mok", "absent": "macc", "lint": "mlint", "error": "merr"}[i["res"]]].append(i)
    hidden = []          # (file, invocation, where it is looked at from)
    shown = []
    for i in crates["mok"]:
        for p in (1, 2, 3):
            (shown if i["sees"][p] else hidden).append((i, p))
    files = {}           # compiled file -> what it is about

    def put(crate, name, text):
        fn = os.path.join(ws, crate, name)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "w") as f:
            f.write(text)
        return fn

    for c in list(crates) + ["mext", "mhid", "mxhid"]:
        root = os.path.join(ws, c)
        for n, t in FILES.items():
            put(c, n, t)
    for n in PATHS.values():
        if not os.path.exists(os.path.join(ws, n)):
            os.makedirs(os.path.dirname(os.path.join(ws, n)), exist_ok=True)
            with open(os.path.join(ws, n), "w") as f:
                f.write(DECOY)

    def toml(c, deps=""):
        put(c, "Cargo.toml", repo_path('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n' % c
                                       + build.DEPS + deps))

    def inner(i, c):
        t = "pub mod inner {\n%s\n" % declaration(i, os.path.join(ws, c))
        if i["res"] == "items":
            t += "#[allow(deprecated)] pub fn check() { %s }\n" % checks(i)
            t += "pub mod used { use super::s as _; }\n"
        return t + "}\n"

    # modules that come to be, looked at from where they can be seen
    lib = ["#![allow(dead_code, unused_imports)]"]
    for i in crates["mok"]:
        t = inner(i, "mok")
        if (i, 1) in shown:
            t += "pub mod mid { use super::inner::s as _; }\n"
        files[put("mok", "src/%s.rs" % i["id"], t)] = (i, "items")
        lib.append("pub mod %s;" % i["id"])
        if (i, 2) in shown:
            files[put("mok", "src/c_%s.rs" % i["id"], "use crate::%s::inner::s as _;" % i["id"])] = (i, "items")
            lib.append("mod c_%s;" % i["id"])
    lib.append("pub fn run(id: &str) { match id { %s _ => panic!(\"no module\") } }"
               % " ".join('"%s" => %s::inner::check(),' % (i["id"], i["id"]) for i in crates["mok"]))
    put("mok", "src/lib.rs", "\n".join(lib))
    toml("mok")
    dep = 'mok = { path = "../mok" }\n'
    main = ["#![allow(unused_imports)]"]
    for i, p in shown:
        if p == 3:
            files[put("mext", "src/x_%s.rs" % i["id"], "use mok::%s::inner::s as _;" % i["id"])] = (i, "items")
            main.append("mod x_%s;" % i["id"])
    main.append('fn main() { std::panic::set_hook(Box::new(|_| {})); for id in std::env::args().skip(1) { '
                'let r = std::panic::catch_unwind(|| mok::run(&id)); '
                'println!("{} {}", id, if r.is_ok() { "ok" } else { "failed" }); } }')
    put("mext", "src/main.rs", "\n".join(main))
    toml("mext", dep)
    # the same modules looked at from where they cannot be seen
    lib = []
    hx = ["#![allow(unused_imports)]"]
    for i in crates["mok"]:
        mine = [p for j, p in hidden if j is i]
        if any(p < 3 for p in mine):
            t = inner(i, "mhid")
            put("mhid", "src/%s.rs" % i["id"], t)
            lib.append("pub mod %s;" % i["id"])
            for p in mine:
                if p == 1:
                    # from the module around
                    with open(os.path.join(ws, "mhid", "src", i["id"] + ".rs"), "a") as f:
                        f.write('#[path = "../h1_%s.rs"] pub mod h1;\n' % i["id"])
                    files[put("mhid", "h1_%s.rs" % i["id"], "use super::inner::s as _;")] = (i, "hidden")
                elif p == 2:
                    files[put("mhid", "src/h2_%s.rs" % i["id"], "use crate::%s::inner::s as _;" % i["id"])] = (i, "hidden")
                    lib.append("mod h2_%s;" % i["id"])
        if 3 in mine:
            files[put("mxhid", "src/h3_%s.rs" % i["id"], "use mok::%s::inner::s as _;" % i["id"])] = (i, "hidden")
            hx.append("mod h3_%s;" % i["id"])
    put("mhid", "src/lib.rs", "\n".join(["#![allow(dead_code, unused_imports)]"] + lib))
    toml("mhid")
    put("mxhid", "src/lib.rs", "\n".join(hx))
    toml("mxhid", dep)
    # modules that are configured away: using them is the error
    lib = ["#![allow(dead_code, unused_imports)]"]
    for i in crates["macc"]:
        put("macc", "src/%s.rs" % i["id"], inner(i, "macc"))
        files[put("macc", "src/g_%s.rs" % i["id"], "use crate::%s::inner::s::lower_case as _;" % i["id"])] = (i, "absent")
        lib += ["pub mod %s;" % i["id"], "mod g_%s;" % i["id"]]
    put("macc", "src/lib.rs", "\n".join(lib))
    toml("macc")
    for c, want in (("merr", "error"), ("mlint", "lint")):
        lib = ["#![allow(dead_code)]"]
        for i in crates[c]:
            files[put(c, "src/%s.rs" % i["id"], inner(i, c))] = (i, want)
            lib.append("pub mod %s;" % i["id"])
        put(c, "src/lib.rs", "\n".join(lib))
        toml(c)
    with open(os.path.join(ws, "Cargo.toml"), "w") as f:
        f.write('[workspace]\nresolver = "2"\nmembers = [%s]\n[profile.dev]\ndebug = 0\n'
                % ", ".join('"%s"' % c for c in list(crates) + ["mext", "mhid", "mxhid"]))
    shutil.copy(os.path.join(REPO, "Cargo.lock"), ws)
    r, msgs = run_build(ws)
    said = {}
    crash = ""
    for c, m in msgs:
        if m["level"].startswith("error"):
            if "internal compiler error" in m["message"]:
                crash = m["message"]
        fs = {os.path.normpath(os.path.join(ws, s["file_name"])) for s in m["spans"] if s["is_primary"]}
        for fn in fs:
            said.setdefault(fn, []).append(m)
    if crash:
        raise ToolError("rustc: " + crash)
    for c in ("xsd", "xsd_derive", "xsd_internal"):
        if any(t == c and m["level"] == "error" for t, m in msgs):
            raise ToolError("the library does not build:\n" + r.stderr[-2000:])

    def viol(i, what):
        slim = {k: v for k, v in i.items() if k not in ("id",)}
        src = declaration(i, "<manifest dir>")
        rep.violation("macro: %s: %s" % (" ".join(src.split()), what),
                      {"kind": "macro", "data": {"invocation": slim, "source": src}})
    built = True
    for fn, (i, want) in sorted(files.items()):
        ms = said.get(fn, [])
        errs = [m["message"] for m in ms if m["level"] == "error"]
        pan = [e for e in errs if any(p in e for p in PANIC)]
        if pan:
            viol(i, "the macro panicked: " + pan[0])
        elif want == "items" and errs:
            viol(i, "does not compile: " + "; ".join(errs[:3]))
            built = False
        elif want in ("hidden", "absent") and not errs:
            viol(i, "can be used from where it must not be seen" if want == "hidden" else "is there although configured away")
        elif want == "lint" and not any("lower_case" in e for e in errs):
            viol(i, "the module's attribute has no effect" if not errs else "does not compile: " + "; ".join(errs[:3]))
        elif want == "error":
            if not errs:
                viol(i, "is accepted without an error")
            elif not any(all(t in e for t in TELLS[w]) for w in i["why"] for e in errs):
                viol(i, "the error does not give the reason (%s): %s" % (", ".join(i["why"]), "; ".join(errs[:3])))
        if want == "items" and not errs and os.path.basename(fn) == i["id"] + ".rs":
            dep = any((m.get("code") or {}).get("code") == "deprecated" for m in ms)
            if dep != i["deprecated"]:
                viol(i, "the attribute #[deprecated] " + ("came from nowhere" if dep else "was lost"))
    exe = os.path.join(TARGET, "debug", "mext")
    ran = 0
    if built and not rep.viol:
        ids = [i["id"] for i in crates["mok"]]
        p = subprocess.run([exe] + ids, capture_output=True, text=True, timeout=300)
        got = dict(l.split() for l in p.stdout.splitlines())
        for i in crates["mok"]:
            ran += 1
            if got.get(i["id"]) != "ok":
                viol(i, "the module does not do what its items and its schema say")
    rep.cov["states"] += dist
    rep.cov["transitions"] += gen
    rep.cov["invocations_specified"] = len(invs)
    rep.cov["invocations_compiled"] = len(pick)
    rep.cov["by_outcome"] = {c: len(v) for c, v in crates.items()}
    rep.cov["hidden_places"] = len(hidden)
    rep.cov["modules_run"] = ran
    rep.cov["traces_validated_against_impl"] += len(pick)
    rep.cov["samples"].append({"source": declaration(pick[0], "<manifest dir>"), "outcome": pick[0]["res"]})
