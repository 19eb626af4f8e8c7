"""P14: the element writer. TLC enumerates all histories of calls up to a length and walks through
long random ones; each is made on the real writer, and what it wrote is compared with the document
the specification says the history writes."""
import json
import xml.parsers.expat

import build
import tlc

SEP = "\x1f"


def parse(text):
    root = []
    stack = []

    def start(name, attrs):
        u, _, n = name.rpartition(SEP)
        e = {"n": n, "u": u, "a": {attrs[i]: attrs[i + 1] for i in range(0, len(attrs), 2)}, "k": []}
        (stack[-1]["k"] if stack else root).append(e)
        stack.append(e)

    def chars(s):
        k = stack[-1]["k"]
        if k and isinstance(k[-1], str):
            k[-1] += s
        else:
            k.append(s)
    p = xml.parsers.expat.ParserCreate(namespace_separator=SEP)
    p.ordered_attributes = True
    p.StartElementHandler = start
    p.EndElementHandler = lambda n: stack.pop()
    p.CharacterDataHandler = chars
    p.Parse(text, True)
    return root[0]


def expected(d):
    k = []
    for x in d["k"]:
        if "t" in x:
            if k and isinstance(k[-1], str):
                k[-1] += x["t"]
            else:
                k.append(x["t"])
        else:
            k.append(expected(x["e"]))
    return {"n": d["n"], "u": d["u"], "a": {a["n"]: a["v"] for a in d["a"]}, "k": k}


def histories(mode, length, walks, seed, work):
    gen, dist, log = tlc.run("Writer.tla", "Writer.cfg", work, {"V_MODE": mode, "V_LEN": str(length),
                                                               "V_WALKS": str(walks), "V_SEED": str(seed)},
                             timeout=3000)
    seen = sorted({l for l in log.splitlines() if l.startswith('"W ')})
    return gen, dist, [json.loads(json.loads(l)[2:]) for l in seen]


def hx(s):
    return s.encode().hex()


def check(rep, tier, seed, work):
    bg = build.Bg(build.build_crate, "hist", "hist")
    length, walks, wlen = (11, 1500, 24) if tier == "quick" else (13, 9000, 40)
    g1, d1, hs = histories("all", length, 1, 1, work)
    g2, d2, ws = histories("walk", wlen, walks, seed % 9000, work)
    g3, d3, bs = histories("wide", 150, 60 if tier == "quick" else 600, seed % 9000, work)
    exe = bg.get()
    allh = hs + bs + ws
    lines = [";".join(" ".join([c["op"]] + [hx(x) for x in (c["a"], c["b"]) if x or (c["op"] == "attr")])
                      for c in h["h"]) for h in allh]
    n = (len(lines) + 7) // 8
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        ans = [a for r in ex.map(lambda i: build.run_lines([exe, "write"], lines[i:i + n], 20),
                                 range(0, len(lines), n)) for a in r]
    for h, a in zip(allh, ans):
        if a["status"] == "skipped":
            continue
        what = None
        if a["status"] != "ok":
            what = "%s %s" % (a["status"], a.get("err"))
        else:
            try:
                got = parse(a["xml"])
                want = expected(h["d"])
                if got != want:
                    what = "wrote %s instead of %s" % (a["xml"], json.dumps(want))
            except xml.parsers.expat.ExpatError as e:
                what = "wrote %s: %s" % (a["xml"], e)
        if what:
            rep.violation("writer: %s: %s" % (" ".join(c["op"] for c in h["h"]), what),
                          {"kind": "writer", "data": {"history": h, "got": a}})
    rep.cov["states"] += d1 + d2 + d3
    rep.cov["transitions"] += g1 + g2 + g3
    rep.cov["histories_all"] = len(hs)
    rep.cov["history_length"] = length
    rep.cov["random_histories"] = len(ws) + len(bs)
    rep.cov["longest_history"] = max(len(h["h"]) for h in allh)
    rep.cov["traces_validated_against_impl"] += len(allh)
    rep.cov["samples"].append({"calls": ws[-1]["h"], "written": ans[-1].get("xml")})
