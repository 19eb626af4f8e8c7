"""P13: the document cursor. TLC checks that the built cursor refines the abstract one and hands out
its transitions; all histories of a given length over them are made on the real cursor. In the other
direction, long random histories recorded from the real cursor are validated by TLC."""
import json
from xml.parsers import expat
import os
import random
import re
from xml.sax.saxutils import escape, quoteattr

import build
import tlc
from build import ToolError

NAMES = [("a", ""), ("b", ""), ("a", "urn:x")]
OPS = {"peek": 0, "next": 1, "child": 2}


def hx(s):
    return s.encode().hex()


def enc_names(ns):
    return ",".join(hx(n) + "|" + hx(u) for n, u in ns)


def word_xml(w):
    kids = "".join("<%s%s id='%d'/>" % (NAMES[q - 1][0],
                                        " xmlns='%s'" % NAMES[q - 1][1] if NAMES[q - 1][1] else "", i + 2)
                   for i, q in enumerate(w))
    return "<r id='1'>%s</r>" % kids


def table(maxlen, work):
    cfg = os.path.join(work, "CursorImpl.cfg")
    with open(os.path.join(tlc.SPEC, "CursorImpl.cfg")) as f:
        t = f.read()
    with open(cfg, "w") as f:
        f.write(re.sub(r"MaxLen = \d+", "MaxLen = %d" % maxlen, t))
    gen, dist, log = tlc.run("CursorImpl.tla", cfg, work)
    docs = {}
    for l in log.splitlines():
        if l.startswith('"T '):
            r = json.loads(json.loads(l)[2:])
            st = docs.setdefault(tuple(r["w"]), {})
            st.setdefault(tuple(r["rem"]), {})[(OPS[r["op"]], r["q"] - 1)] = (r["out"], tuple(r["to"]))
    return gen, dist, docs


def run_tree(exe, docs, depth):
    lines = ["N " + enc_names(NAMES)]
    words = sorted(docs)
    for w in words:
        lines.append("W " + hx(word_xml(w)))
        ids = {tuple(range(2, len(w) + 2)): 0}
        for s in docs[w]:
            ids.setdefault(s, len(ids))
        for s, tr in docs[w].items():
            for (op, q), (out, to) in tr.items():
                lines.append("T %d %d %d %d %d" % (ids[s], op, q, out, ids[to]))
    out, died = build.run_once([exe, "tree", str(depth)], "\n".join(lines) + "\n", 300 if depth < 7 else 20000)
    total, bad = 0, []
    if died:
        bad.append({"document": "", "calls": [], "result": "one of the histories killed the process or hangs: " + died})
    for l in out.splitlines():
        if l.startswith("TOTAL"):
            total = int(l.split()[1])
        elif l.startswith("BAD"):
            m = re.match(r"BAD (\d+) (\[.*?\]) (.*)", l)
            w = words[int(m.group(1))]
            hist = [("peek", "next", "child")[o // len(NAMES)] + " {%s}%s" % NAMES[o % len(NAMES)][::-1]
                    for o in json.loads(m.group(2))]
            bad.append({"document": word_xml(w), "calls": hist, "result": m.group(3)})
    return total, bad


# -- recorded histories ---------------------------------------------------------------------------
LOCAL = ["a", "b", "c-d", "é"]
URIS = ["", "urn:x", "urn:y"]
TEXTS = ["", "t", " x ", "a&b<c>", "\n  ", "]]", "é☃", "0"]
ATTRS = ["x", "id", "y.z", "none"]


def make_doc(rng, size, wide=False):
    """A random document as the specification sees it, and as text; wide: most elements are children of the root."""
    els = []
    pool = [(n, u) for n in LOCAL for u in URIS]
    rng.shuffle(pool)
    often = pool[:2]

    def new(depth):
        i = len(els)
        e = {"n": rng.choice(LOCAL), "u": rng.choice(URIS), "k": [], "a": [{"n": "id", "v": str(i + 1)}], "s": [],
             "lead": [], "order": None}
        els.append(e)
        if wide and depth < 3 and rng.random() < .95:
            e["n"], e["u"] = rng.choice(often)
        for a in ["x", "y.z"] + (["a%d" % j for j in range(rng.choice([0, 0, 40]))] if wide else []):
            if rng.random() < .4:
                e["a"].append({"n": a, "v": rng.choice(["", "1", "v w", "<&\"'", "é"])})
        e["foreign"] = rng.random() < .3
        n = 0 if depth == 0 or len(els) >= size else rng.choice([0, 1, 2, 3, 5, 8])
        if wide:
            n = size if depth == 3 else rng.choice([0, 0, 0, 0, 1])
        for _ in range(n):
            if len(els) < size:
                e["k"].append(new(depth - 1) + 1)
        if n == 0 or not e["k"]:
            e["s"] = [rng.choice(TEXTS)]
        elif rng.random() < .3:
            e["s"] = [rng.choice([t for t in TEXTS if t])]
        return i
    new(3)

    def out(i, scope):
        e = els[i]
        sc = dict(scope)
        decl = ""
        pfx = None
        if e["u"] == "":
            if sc.get("", "") != "":
                decl += " xmlns=''"
                sc[""] = ""
            tag = e["n"]
        else:
            have = [p for p, u in sc.items() if u == e["u"]]
            if have and rng.random() < .7:
                pfx = rng.choice(have)
            else:
                pfx = rng.choice(["", "p", "q", "xs"])
                decl += " xmlns%s=%s" % (":" + pfx if pfx else "", quoteattr(e["u"]))
                sc[pfx] = e["u"]
            tag = (pfx + ":" if pfx else "") + e["n"]
        at = [" %s=%s" % (a["n"], quoteattr(a["v"])) for a in e["a"]]
        if e["foreign"]:
            at.append(" f:x='no'")
            at.append(" f:none='no'")
        rng.shuffle(at)
        noise = lambda: rng.choice(["", "", "<!-- c -->", "<?pi x?>"])  # noqa: E731
        body = ""
        if e["s"] and e["s"][0]:
            t = e["s"][0]
            cuts = sorted(rng.randrange(len(t) + 1) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3, 7] + [30] * wide)))
            parts = [t[a:b] for a, b in zip([0] + cuts, cuts + [len(t)])]
            for p in parts:
                body += noise()
                if p and rng.random() < .3 and "]]" not in p:
                    body += "<![CDATA[%s]]>" % p
                else:
                    body += escape(p)
        else:
            body += noise()
        for j, k in enumerate(e["k"]):
            body += out(k - 1, sc)
            body += noise()
            if rng.random() < .2:
                body += "tail"
        if not body and rng.random() < .5:
            return "<%s%s%s/>" % (tag, decl, "".join(at))
        return "<%s%s%s>%s</%s>" % (tag, decl, "".join(at), body, tag)
    text = out(0, {"": "", "f": "urn:f"})
    # the foreign prefix has to be declared on the root
    m = re.match(r"<[^\s/>]+", text)
    text = text[:m.end()] + " xmlns:f='urn:f'" + text[m.end():]
    if rng.random() < .3:
        text = rng.choice(["<?xml version='1.0'?>\n", "<!-- é☃ -->\n\n", "\n"]) + text + rng.choice(["", "\n", "<!-- end -->"])
    places(text, els)
    return [{k: e[k] for k in ("n", "u", "k", "a", "s", "r")} for e in els], text


def places(text, els):
    """Where each element (attribute id = its number) is in the text; attribute values have no '>' in them."""
    raw = text.encode()
    stack = []
    p = expat.ParserCreate()

    def start(_, attrs):
        stack.append((int(attrs["id"]), p.CurrentByteIndex))

    def end(_):
        i, b = stack.pop()
        e = raw.index(b">", b) + 1
        els[i - 1]["r"] = [b, e if raw[e - 2:e] == b"/>" else raw.index(b">", p.CurrentByteIndex) + 1]
    p.StartElementHandler, p.EndElementHandler = start, end
    p.Parse(raw, True)


WIDE = [40, 70, 140, 270]


def record(exe, seed, count, calls):
    lines, docs = [], []
    for i in range(count):
        rng = random.Random("%s/%s" % (seed, i))
        wide = i % 10 == 9
        els, text = make_doc(rng, rng.choice(WIDE if wide else [3, 6, 12, 20]), wide)
        qs = sorted({(e["n"], e["u"]) for e in els})
        qs += [(n, u) for n in LOCAL[:2] for u in URIS[:2] if (n, u) not in qs]
        lines.append("%s %s %s %d %d" % (hx(text), enc_names(qs), ",".join(hx(a) for a in ATTRS), calls * (4 if wide else 1),
                                         seed * 1000003 + i + 1))
        docs.append((els, text))
    out, died = build.run_once([exe, "rec"], "\n".join(lines) + "\n", 240 if count < 1000 else 5000)
    evs = []
    for l in out.splitlines():
        try:
            evs.append(json.loads(l))
        except ValueError:
            break
    if died:
        evs = evs[:len(docs) - 1] + [[{"op": "panic", "why": died}]]
    elif len(evs) != count:
        raise ToolError("cursor recorder answered %d of %d" % (len(evs), count))
    return docs[:len(evs)], evs


def validate(docs, evs, work):
    """Returns (states, violations)."""
    bad = []
    live = []
    for (els, text), e in zip(docs, evs):
        if e and e[-1]["op"] in ("panic", "error"):
            bad.append({"document": text, "calls": e[-6:], "result": e[-1]["op"]})
        else:
            live.append((els, text, e))
    states = 0
    while live:
        fn = os.path.join(work, "trace.ndjson")
        with open(fn, "w") as f:
            for els, text, e in live:
                f.write(json.dumps({"doc": els, "ev": e}) + "\n")
        try:
            gen, dist, _ = tlc.run("TraceCursor.tla", "TraceCursor.cfg", work, {"V_TRACE": fn})
            return states + dist, bad
        except tlc.TlcFailure as x:
            if "Deadlock reached" not in x.log and "is violated" not in x.log:
                raise
            t = int(re.findall(r"^/\\ t = (\d+)", x.log, re.M)[-1])
            n = int(re.findall(r"^/\\ l = (\d+)", x.log, re.M)[-1])
            els, text, e = live.pop(t - 1)
            bad.append({"document": text, "calls": e[:n], "result": "not a behaviour of the specification"})
            if len(bad) >= 3:
                return states, bad
    return states, bad


def check(rep, tier, seed, work):
    exe_bg = build.Bg(build.build_crate, "hist", "hist")
    maxlen, depth = (3, 6) if tier == "quick" else (4, 7)
    gen, dist, docs = table(maxlen, work)
    exe = exe_bg.get()
    total, bad = run_tree(exe, docs, depth)
    rep.cov["states"] += dist
    rep.cov["transitions"] += gen
    rep.cov["call_histories"] = total
    rep.cov["history_length"] = depth
    count, calls = (300, 60) if tier == "quick" else (6000, 120)
    rdocs, evs = record(exe, seed, count, calls)
    st, bad2 = validate(rdocs, evs, work)
    rep.cov["states"] += st
    rep.cov["recorded_histories"] = count
    rep.cov["recorded_calls"] = sum(len(e) for e in evs)
    rep.cov["traces_validated_against_impl"] += total + count
    rep.cov["samples"].append({"document": rdocs[0][1], "calls": evs[0][:12]})
    for b in bad + bad2:
        rep.violation("cursor: %s on %s: %s" % (b["calls"][-3:], b["document"][:150], b["result"]),
                      {"kind": "cursor", "data": b})
