"""Turns the specification's schema and document trees into text. The trees fix the meaning; how
they are written down (prefixes, white space, comments, quoting ...) is chosen here, by a seed."""
import random

XSNS = "http://www.w3.org/2001/XMLSchema"
XSI = "http://www.w3.org/2001/XMLSchema-instance"
SUBST = [("{e}", "\u00e9"), ("{snow}", "\u2603"), ("{astral}", "\U0001d4b3"), ("{nbsp}", "\u00a0"),
         ("{zwj}", "a\u200db"), ("{comb}", "e\u0301"), ("{bom}", "\ufeff"), ("{ctl}", "\x01"), ("{nul}", "\x00"),
         ("{long}", ("words, \u00e9t\u00e9 & <more> \U0001d4b3; " * 40).strip()), ("{huge}", "0123456789abcde\u00e9" * 700),
         ("{book}", " ".join("word%d" % i for i in range(1, 1500))),
         ("~", "\u00e9"), ("^", "\u2603"), ("`", "\u00b2"), ("@", "\u0663")]


def tx(s):
    for a, b in SUBST:
        if a in s:
            s = s.replace(a, b)
    return s


def uri(u):
    return XSNS if u == "XS" else XSI if u == "XSI" else tx(u)


def esc_text(s, rng=None):
    o = []
    for c in s:
        if c == "&":
            o.append("&amp;")
        elif c == "<":
            o.append("&lt;")
        elif c == ">":
            o.append("&gt;")
        elif c == "\r":      # (as it is, it would be the end of a line)
            o.append("&#13;")
        elif rng and rng.random() < 0.15:
            o.append("&#%d;" % ord(c) if rng.random() < 0.5 else "&#x%X;" % ord(c))
        else:
            o.append(c)
    return "".join(o)


def esc_attr(s, q='"', rng=None):
    o = []
    for c in s:
        if c == "&":
            o.append("&amp;")
        elif c == "<":
            o.append("&lt;")
        elif c == q:
            o.append("&quot;" if q == '"' else "&apos;")
        elif c in "\t\n\r":
            o.append("&#%d;" % ord(c))
        elif c == " " and rng and rng.random() < 0.2:
            o.append(rng.choice(["\n", "\t"]))      # white space in attributes stands for a space
        elif rng and rng.random() < 0.1:
            o.append("&#x%x;" % ord(c))
        else:
            o.append(c)
    return "".join(o)


class Writer:
    """Keeps track of rows and columns (in characters, both from 1)."""

    def __init__(self):
        self.parts = []
        self.row = 1
        self.col = 1
        self.crlf = False

    def w(self, s):
        self.parts.append(s.replace("\n", "\r\n") if self.crlf else s)
        n = s.count("\n")
        if n:
            self.row += n
            self.col = len(s) - s.rfind("\n")
        else:
            self.col += len(s)

    def pos(self):
        return (self.row, self.col)

    def text(self):
        return "".join(self.parts)


# --- schemas ---------------------------------------------------------------------------------

def schema_text(f, seed, style=None, loads=False):
    """Returns (text, positions): positions maps (path, attribute or "") to (row, col)."""
    if f["form"] == "garbage":
        t = tx(f["text"])
        if t.startswith("<") and not t.startswith("<?xml") and random.Random(seed + 2).random() < 0.3:
            t = "\n" * 300 + t                   # the fault lies far down
        return t, {}
    rng = random.Random(seed)
    st = style or {}
    indent = st.get("indent", rng.choice(["  ", "\t", "", "    "]))
    noise = st.get("noise", rng.random() < 0.5)
    q = '"' if rng.random() < 0.8 else "'"
    w = Writer()
    pos = {}
    # further spellings; drawn separately
    rn2 = random.Random(seed + 1)
    w.crlf = rn2.random() < 0.15
    shuffle = loads and rn2.random() < 0.3      # (which of several faults is met first depends on the order)
    if rng.random() < 0.5:
        if rn2.random() < 0.1:
            w.parts.append("\ufeff")
        w.w('<?xml version="1.0" encoding="UTF-8"?>\n')
    if noise and rng.random() < 0.5:
        w.w("<!-- a schema -->\n")
    if rn2.random() < 0.06:     # (a place far down the file)
        w.w("<!--" + "\n" * rn2.choice([260, 1100, 66000]) + "-->\n")
    xp = [d["p"] for d in f["nsd"] if d["u"] == "XS"]
    xp = (xp[0] + ":") if xp and xp[0] else ""

    # second prefixes for the same namespaces
    alt = {d["p"]: d["p"] + "2" for d in f["nsd"] if d["p"]} if loads and rn2.random() < 0.2 else {}
    if set(alt.values()) & {d["p"] for d in f["nsd"]}:
        alt = {}

    def pfx(p):
        return alt[p] if p in alt and rn2.random() < 0.5 else p

    def nl(d):
        if indent:
            w.w("\n" + indent * d)

    def node(n, path, d):
        name = ((pfx(xp[:-1]) + ":" if xp else "") if n["x"] else "fx:") + tx(n["t"])
        pos[(tuple(path), "")] = w.pos()
        w.w("<" + name)
        attrs = []
        if not path:
            for ns in f["nsd"]:
                attrs.append(("xmlns" + (":" + tx(ns["p"]) if ns["p"] else ""), uri(ns["u"]), None))
                if ns["p"] in alt:
                    attrs.append(("xmlns:" + tx(alt[ns["p"]]), uri(ns["u"]), None))
            attrs.append(("xmlns:fx", "urn:foreign", None))
        for a in n["a"]:
            v = a["v"]
            if a["n"] in ("type", "ref", "base") and not a["f"] and ":" in v:
                v = pfx(v.split(":")[0]) + ":" + v.split(":", 1)[1]
            attrs.append((("fx:" if a["f"] else "") + tx(a["n"]), uri(v) if v == "XS" else tx(v),
                          None if a["f"] else a["n"]))
        if shuffle:
            rn2.shuffle(attrs)
        for an, av, key in attrs:
            w.w(" " if rng.random() < 0.9 or not noise else "\n   ")
            if key is not None:
                pos[(tuple(path), key)] = w.pos()
            w.w("%s=%s%s%s" % (an, q, esc_attr(av, q), q))
        if not n["k"] and not n["s"]:
            if rng.random() < 0.8:
                w.w("/>")
            else:
                w.w("></%s>" % name)
            return
        w.w(">")
        if n["s"]:
            # (documentation may be interrupted by comments and contain CDATA sections)
            t = tx(n["s"])
            how = rng.random() if noise else 1
            cut = rng.randint(0, len(t))
            if how < 0.3:
                cuts = [cut] + [rn2.randint(0, len(t)) for _ in range(rn2.choice([0, 0, 1, 4, 30]))]
                cuts = sorted(cuts)
                w.w(esc_text(t[:cuts[0]]))
                for a, b in zip(cuts, cuts[1:] + [len(t)]):
                    w.w(rng.choice(["<!-- c -->", "<?pi x?>"]) + esc_text(t[a:b]))
            elif how < 0.5 and "]]>" not in t:
                w.w(esc_text(t[:cut]) + "<![CDATA[" + t[cut:] + "]]>")
            else:
                w.w(esc_text(t))
        for i, k in enumerate(n["k"]):
            nl(d + 1)
            if noise and rng.random() < 0.1:
                w.w(rng.choice(["<!-- c -->", "<?pi x?>", "<!-- <xs:element name='no'/> -->", "<!-- \u00e9t\u00e9 \u2603 \U0001d4b3 -->"]))
                nl(d + 1)
            if noise and rng.random() < 0.05 and n["t"] not in ("annotation",):
                w.w("<fx:extra note='x'/>")
                nl(d + 1)
            node(k, path + [i + 1], d + 1)
        if n["k"]:
            nl(d)
        w.w("</%s>" % name)
    node(f["root"], [], 0)
    if rng.random() < 0.5:
        w.w("\n")
    return w.text(), pos


# --- documents -------------------------------------------------------------------------------

STYLES = ["plain", "prefix", "default", "local", "pretty", "noisy", "wild", "crlf"]


def doc_text(el, style, seed, spaces=True):
    """spaces: white space between child elements is insignificant in this document."""
    if style == "crlf":
        # the ends of lines are one line feed, however they are written (but the XML reader takes two carriage
        # returns in a row for one of each)
        return doc_text(el, "pretty" if seed % 3 else "wild", seed, spaces).replace("\n", "\r\n")
    rng = random.Random(seed)
    w = []
    uris = []

    def collect(e):
        if e["u"] and e["u"] not in uris:
            uris.append(e["u"])
        for k in e["k"]:
            collect(k)
        for a in e["a"]:
            if a["u"] and a["u"] not in uris:
                uris.append(a["u"])
    collect(el)
    names = ["a", "ns1", "x-y", "_p", "Q", "tns", "b.c"]
    if style in ("wild", "local"):
        rng.shuffle(names)
    pre = {u: names[i % len(names)] + (str(i) if i >= len(names) else "") for i, u in enumerate(uris)}
    pretty = style in ("pretty", "noisy", "wild") and spaces
    noisy = style in ("noisy", "wild")
    wild = style == "wild"
    if style in ("pretty", "wild") and rng.random() < 0.6:
        w.append('<?xml version="1.0" encoding="UTF-8"?>' + rng.choice(["", "\n"]))
    if noisy:
        w.append(rng.choice(["<!-- head -->\n", "<?app do?>\n", "\n", ""]))

    def misc():
        return rng.choice(["<!-- c -->", "<?pi x=\"y\"?>", "<!---->", "<!-- <a>1</a> -->"])

    def text(s):
        if not noisy or not s:
            return esc_text(s, rng if wild else None)
        # split the text by comments, instructions and CDATA sections
        out = []
        n = rng.choice([1, 2, 2, 3, 3, 4, 6, 20])
        cuts = sorted(rng.randint(0, len(s)) for _ in range(n - 1))
        parts = [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])]
        for i, p in enumerate(parts):
            if i:
                out.append(misc())
            if p and "]]>" not in p and "\r" not in p and rng.random() < 0.4:
                out.append("<![CDATA[" + p + "]]>")
            else:
                out.append(esc_text(p, rng if wild else None))
        return "".join(out)

    def elem(e, scope, d):
        # scope: prefix -> uri
        u = tx(e["u"])
        decl = {}
        how = style
        if wild:
            how = rng.choice(["prefix", "default", "local"])
        if not e["u"]:
            p = ""
            if scope.get("", ""):
                decl[""] = ""
        elif how in ("default", "plain", "pretty", "noisy") and (how != "prefix"):
            p = ""
            if how != "default":
                have = [k for k, v in scope.items() if v == u]
                p = have[0] if have else ""
            if scope.get(p, "") != u:
                decl[p] = u
        elif how == "local":
            p = pre[e["u"]]
            decl[p] = u
        else:
            p = pre[e["u"]]
            if scope.get(p) != u:
                decl[p] = u
        for a in e["a"]:
            if a["u"] and dict(scope, **decl).get(pre[a["u"]]) != uri(a["u"]):
                decl[pre[a["u"]]] = uri(a["u"])
        if d == 0 and style in ("prefix", "wild", "pretty"):
            for v in uris:
                if pre[v] not in decl:
                    decl[pre[v]] = uri(v)
        sc = dict(scope)
        sc.update(decl)
        name = (p + ":" if p else "") + tx(e["n"])
        w.append("<" + name)
        at = [("xmlns" + (":" + k if k else ""), v) for k, v in decl.items()]
        at += [((pre[a["u"]] + ":" if a["u"] else "") + tx(a["n"]), tx(a["v"])) for a in e["a"]]
        if noisy:
            rng.shuffle(at)
        for n, v in at:
            q = "'" if (noisy and rng.random() < 0.4) else '"'
            w.append((rng.choice([" ", "  ", "\n  "]) if noisy else " ")
                     + n + (" = " if wild and rng.random() < 0.2 else "=") + q
                     + esc_attr(v, q, rng if wild and not n.startswith("xmlns") else None) + q)
        s = tx(e["s"])
        if not e["k"] and not s:
            if style in ("plain", "pretty") or rng.random() < 0.5:
                w.append("/>")
            else:
                w.append(">" + (misc() if noisy and rng.random() < 0.3 else "") + "</" + name + ">")
            return
        w.append((" " if wild and rng.random() < 0.2 else "") + ">")
        w.append(text(s))
        ws = pretty and e["m"] == "e" and not s and bool(e["k"])
        for k in e["k"]:
            if ws:
                w.append("\n" + "  " * (d + 1))
            if noisy and rng.random() < 0.3:
                w.append(misc())
                if ws:
                    w.append(rng.choice([" ", "\n", "\t"]))
            elem(k, sc, d + 1)
        if ws:
            w.append("\n" + "  " * d)
        w.append("</" + name + (" " if wild and rng.random() < 0.2 else "") + ">")
    elem(el, {}, 0)
    if noisy:
        w.append(rng.choice(["\n", "<!-- tail -->", "<?end?>\n", ""]))
    return "".join(w)


# --- texts -----------------------------------------------------------------------------------

def token_text(t):
    k = t["t"]
    name = (tx(t["p"]) + ":" if t["p"] else "") + tx(t["n"])
    if k.startswith("half-"):
        s = token_text(dict(t, t=k[5:]))
        return s[:(len(s) + 1) // 2] if len(s) > 1 else s
    if k == "bom":
        return "\ufeff"
    if k == "decl":
        return '<?xml version="1.0" encoding="UTF-8"?>'
    if k == "text":
        return esc_text(tx(t["s"]))
    if k == "cdata":
        return "<![CDATA[" + tx(t["s"]) + "]]>"
    if k == "ref":
        return "&" + t["s"] + ";"
    if k == "comment":
        return "<!--" + t["s"] + "-->"
    if k == "pi":
        return "<?" + t["s"] + "?>"
    if k in ("doctype", "raw"):
        return tx(t["s"])
    if k == "close":
        return "</" + name + ">"
    at = ""
    for a in t["a"]:
        at += " " + (a["p"] + ":" if a["p"] else "") + a["n"]
        at += "" if a["w"] == "none" else "=" + (tx(a["w"]) if a["w"] else '"' + esc_attr(uri(a["v"])) + '"')
    return "<" + name + at + ("/>" if k == "empty" else ">")


def tokens_text(toks):
    return "".join(token_text(t) for t in toks)
