#!/usr/bin/env python3
"""mutants.py list|test|kill DIR [...]: systematic small changes to /repo's sources, to find what the checks miss.
  test DIR N        generate all mutants, keep those that build and pass the stable tests (N workers)
  kill DIR N [P..]  run the checks on the kept ones (N at a time) until one catches it
A development tool, not a check; everything happens in scratch copies under DIR."""
import glob, json, os, re, subprocess, sys, threading, queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = ["xsd/src/*.rs", "xsd-derive/src/*.rs", "xsd-internal/src/*.rs", "xsd-internal/src/*/*.rs", "xsd-internal/src/xsd/parse/*.rs"]
SWAP = [(r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?! -> )(?=.*[^|] )", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\bif !", "if "), (r"(?<![\w.\"#])0(?![\w.])", "1"), (r"(?<![\w.\"#])1(?![\w.])", "0"), (r"(?<![\w.\"#])1(?![\w.])", "2"),
        (r" > ", " >= "), (r" < ", " <= "), (r" > ", " < "), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"),
        (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bpop_front\b", "pop_back"), (r"\bpush_back\b", "push_front"), (r"\bpush_front\b", "push_back"),
        (r"\bmin_occurs\b", "max_occurs"), (r"\bmax_occurs\b", "min_occurs"), (r"\brow\b", "col"), (r"\bcol\b", "row"),
        (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.first\(\)", ".last()"),
        (r"\.last\(\)", ".first()"), (r"\.start\b", ".end"), (r"\.end\b", ".start"), (r"\.is_ok\(\)", ".is_err()"), (r"\.trim\(\)", ""),
        (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\bas_ref\(\)\.map", "as_ref().filter(|_| false).map"),
        (r"\bfilter\(", "skip_while("), (r"\bor_insert_with\b", "or_insert_with"), (r"\bto_lowercase\b", "to_uppercase"),
        (r"\.or_else\(", ".and_then("), (r"\.insert\(0, ", ".push("), (r"\bextend\(", "clone_from("), (r" \+ 1\b", ""), (r" - 1\b", ""),
        (r"\.chars\(\)", ".chars().rev()"), (r"\bstarts_with\b", "ends_with"), (r"\bsplitn\(2", "splitn(3"), (r"\btrim_start\b", "trim")]


def files():
    for p in SRC:
        for f in sorted(glob.glob("/repo/" + p)):
            yield os.path.relpath(f, "/repo")


def mutants():
    out = []
    for f in files():
        s = open("/repo/" + f).read()
        cut = s.find("#[cfg(test)]")
        lim = len(s) if cut < 0 else cut
        seen = set()

        def add(a, b, new, what):
            line = s.count("\n", 0, a) + 1
            t = s[:a] + new + s[b:]
            if t != s and t not in seen:
                seen.add(t)
                out.append({"id": "m%04d" % len(out), "file": f, "a": a, "b": b, "new": new, "line": line,
                            "what": "%s: %s -> %s" % (what, s[a:b].strip()[:70], new.strip()[:40])})
        for rx, new in SWAP:
            for m in re.finditer(rx, s[:lim]):
                ls = s.rfind("\n", 0, m.start()) + 1
                le = s.find("\n", m.start())
                line = s[ls:le].strip()
                if line.startswith(("//", "use ", "#[", "///")):
                    continue
                add(m.start(), m.end(), new, "swap")
        # string literals
        for m in re.finditer(r'"([A-Za-z][A-Za-z:/.0-9]*)"', s[:lim]):
            ls = s.rfind("\n", 0, m.start()) + 1
            line = s[ls:m.start()].strip()
            if line.startswith(("//", "#[", "use ")) or "panic" in line or "expect(" in line or "write!" in line:
                continue
            add(m.start(), m.end(), '"%sX"' % m.group(1), "string")
        # statements on one line
        for m in re.finditer(r"^[ \t]+(?!let |use |return|//|pub |type |mod |impl |fn |break|continue|#)[^\n]*;\n", s[:lim], re.M):
            add(m.start(), m.end(), "", "delete")
        # match arms and call chain links on one line
        for m in re.finditer(r"^[ \t]+[^\n]* => [^\n{]*,\n", s[:lim], re.M):
            add(m.start(), m.end(), "", "arm")
        for m in re.finditer(r"^[ \t]+\.[a-z_]+\([^\n]*\)\n", s[:lim], re.M):
            add(m.start(), m.end(), "", "link")
        # if conditions
        for m in re.finditer(r"\bif (?!let )([^{\n]+) \{", s[:lim]):
            add(m.start(1), m.end(1), "false && " + m.group(1) if "||" not in m.group(1) else "false", "never")
            add(m.start(1), m.end(1), "true", "always")
        for m in re.finditer(r"\bif let ([^{\n]+) = ([^{\n]+) \{", s[:lim]):
            add(m.start(2), m.end(2), "(%s).filter(|_| false)" % m.group(2), "never")
    return out


def copy(d):
    subprocess.run(["rsync", "-a", "--delete", "--checksum", "--exclude", "target", "--exclude", ".git", "/repo/", d + "/"], check=True)


def sh(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         env=dict(os.environ, **(env or {})), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, "timeout"


def pool(n, items, work):
    q = queue.Queue()
    for i in items:
        q.put(i)

    def run(k):
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            work(k, i)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def apply(d, m):
    p = os.path.join(d, m["file"])
    s = open("/repo/" + m["file"]).read()
    open(p, "w").write(s[:m["a"]] + m["new"] + s[m["b"]:])


def restore(d, m):
    with open("/repo/" + m["file"]) as f:
        s = f.read()
    open(os.path.join(d, m["file"]), "w").write(s)


def main():
    cmd, D = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/tmp/mut"
    if cmd == "list":
        ms = mutants()
        for m in ms:
            print(m["id"], m["file"], m["line"], m["what"])
        return
    os.makedirs(D, exist_ok=True)
    lock = threading.Lock()
    if cmd == "test":
        n = int(sys.argv[3])
        if os.path.exists(D + "/mutants.json"):
            ms = json.load(open(D + "/mutants.json"))
        else:
            ms = mutants()
            json.dump(ms, open(D + "/mutants.json", "w"))
        done = {json.loads(l)["id"] for l in open(D + "/tested.jsonl")} if os.path.exists(D + "/tested.jsonl") else set()
        out = open(D + "/tested.jsonl", "a")
        base = [t.split()[0] for t in []]
        for k in range(n):
            copy("%s/w%d" % (D, k))

        def work(k, m):
            d = "%s/w%d" % (D, k)
            apply(d, m)
            env = {"CARGO_TARGET_DIR": d + "/target", "CARGO_BUILD_JOBS": "2", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_INCREMENTAL": "1"}
            rc, o = sh("ulimit -v 16000000; cargo check --offline -q --workspace 2>&1", d, 200, env)
            st = "nocompile"
            if rc == 0:
                rc, o = sh("ulimit -v 16000000; cargo test --offline -q --workspace 2>&1", d, 300, env)
                st = "survives" if rc == 0 else "killed"
            restore(d, m)
            with lock:
                out.write(json.dumps({"id": m["id"], "st": st}) + "\n")
                out.flush()
        pool(n, [m for m in ms if m["id"] not in done], work)
    if cmd == "kill":
        n = int(sys.argv[3])

        def order(f):
            if sys.argv[4:]:
                return sys.argv[4:]
            return (["P13", "P99", "P23"] if f.endswith("decode.rs") else ["P14", "P99"] if f == "xsd/src/lib.rs"
                    else ["P20", "P99"] if f.startswith("xsd-derive") else ["P96", "P99", "P22", "P98"])
        ms = {m["id"]: m for m in json.load(open(D + "/mutants.json"))}
        st = [json.loads(l) for l in open(D + "/tested.jsonl")]
        todo = [x["id"] for x in st if x["st"] == "survives" and x["id"] in ms]
        fn = D + "/killed.jsonl"
        done = {json.loads(l)["id"] for l in open(fn)} if os.path.exists(fn) else set()
        out = open(fn, "a")
        for k in range(n):
            copy("%s/k%d/repo" % (D, k))
            subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "--exclude", ".work", V + "/", "%s/k%d/verif/" % (D, k)], check=True)

        def work(k, i):
            m = ms[i]
            d = "%s/k%d" % (D, k)
            apply(d + "/repo", m)
            res, by = {}, None
            for p in order(m["file"]):
                rc, o = sh("python3 engine/check.py %s quick" % p, d + "/verif", 900,
                           {"VERIF_REPO": d + "/repo", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                res[p] = rc
                if rc == 1:
                    by = p
                    ls = [l for l in o.splitlines() if l.strip()]
                    break
                if rc != 0:
                    print(i, p, rc, o[-300:], flush=True)
            restore(d + "/repo", m)
            with lock:
                out.write(json.dumps({"id": i, "by": by, "res": res, "m": [m["file"], m["line"], m["what"]],
                                      "first": ls[0][:200] if by else ""}) + "\n")
                out.flush()
                print(i, by, m["file"], m["line"], m["what"], flush=True)
        pool(n, [i for i in todo if i not in done], work)


main()
