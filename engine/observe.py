"""Reads what the implementation did (Debug output, XML, errors) into plain data, and compares it
with what the specification says."""
import re
import struct
import xml.parsers.expat as expat

from render import tx

TOK = re.compile(r'\s*("(?:[^"\\]|\\.)*"|[{}()\[\],:]|[^\s{}()\[\],:"]+)', re.S)


def rust_str(t):
    def one(m):
        s = m.group(0)
        if s.startswith("\\u"):
            return chr(int(s[3:-1], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(s[1], s[1])
    return re.sub(r'\\u\{[0-9a-fA-F]+\}|\\.', one, t[1:-1], flags=re.S)


def parse_debug(text):
    """Rust's derived Debug output as ("st", name, {field: value}), ("tu", name, [..]),
    ("id", word), ("vec", [..]), ("str", s), ("unit",)"""
    toks = []
    i = 0
    n = len(text)
    while i < n:
        m = TOK.match(text, i)
        if not m:
            if text[i:].strip() == "":
                break
            raise ValueError("debug output: " + text[i:i + 60])
        toks.append(m.group(1))
        i = m.end()
    toks.append(None)
    p = [0]

    def val():
        t = toks[p[0]]
        p[0] += 1
        if t is None:
            raise ValueError("debug output ends early")
        if t[0] == '"':
            return ("str", rust_str(t))
        if t == "[":
            out = []
            while toks[p[0]] != "]":
                out.append(val())
                if toks[p[0]] == ",":
                    p[0] += 1
            p[0] += 1
            return ("vec", out)
        if t == "(":
            out = []
            while toks[p[0]] != ")":
                out.append(val())
                if toks[p[0]] == ",":
                    p[0] += 1
            p[0] += 1
            return ("unit",) if not out else ("tup", out)
        if toks[p[0]] == "{":
            p[0] += 1
            out = {}
            order = []
            while toks[p[0]] != "}":
                k = toks[p[0]]
                assert toks[p[0] + 1] == ":", text
                p[0] += 2
                out[k] = val()
                order.append(k)
                if toks[p[0]] == ",":
                    p[0] += 1
            p[0] += 1
            return ("st", t, out)
        if toks[p[0]] == "(":
            p[0] += 1
            out = []
            while toks[p[0]] != ")":
                out.append(val())
                if toks[p[0]] == ",":
                    p[0] += 1
            p[0] += 1
            return ("tu", t, out)
        return ("id", t)
    v = val()
    if toks[p[0]] is not None:
        raise ValueError("debug output: trailing " + str(toks[p[0]]))
    return v


def f32(s):
    s = s.strip()
    x = {"INF": "inf", "-INF": "-inf"}.get(s, s)
    try:
        return struct.pack("<f", float(x))
    except OverflowError:
        return struct.pack("<f", float("inf"))


def same_value(x, v):
    """x: the specification's value, v: parsed Debug output. Returns None or where they differ."""
    k = x["v"]
    if k == "lit":
        s = tx(x["s"])
        l = x["l"]
        if l in ("boolean", "long", "int", "nonNegativeInteger", "decimal"):
            return None if v == ("id", s) else "%s value %r, got %r" % (l, s, v)
        if l == "float":
            ok = v[0] == "id" and f32(v[1]) == f32(s)
            return None if ok else "float value %r, got %r" % (s, v)
        return None if v == ("str", s) else "text %r, got %r" % (s, v)
    if k == "unit":
        return None if v == ("unit",) else "unit, got %r" % (v,)
    if k == "none":
        return None if v == ("id", "None") else "None, got %s" % brief(v)
    if k == "some":
        if v[0] != "tu" or v[1] != "Some" or len(v[2]) != 1:
            return "Some(..), got %s" % brief(v)
        return same_value(x["o"], v[2][0])
    if k == "vec":
        if v[0] != "vec" or len(v[1]) != len(x["es"]):
            return "%d items, got %s" % (len(x["es"]), brief(v))
        for i, (a, b) in enumerate(zip(x["es"], v[1])):
            r = same_value(a, b)
            if r:
                return "[%d].%s" % (i, r)
        return None
    if k == "st":
        n = tx(x["n"])
        if not x["fs"]:
            return None if v in (("id", n), ("st", n, {})) else "%s, got %s" % (n, brief(v))
        if v[0] != "st" or v[1] != n:
            return "struct %s, got %s" % (n, brief(v))
        if set(v[2]) != {tx(f["n"]) for f in x["fs"]}:
            return "%s fields %s, got %s" % (n, [f["n"] for f in x["fs"]], list(v[2]))
        for f in x["fs"]:
            r = same_value(f["x"], v[2][tx(f["n"])])
            if r:
                return "%s.%s" % (tx(f["n"]), r)
        return None
    if k == "tu":
        if v[0] != "tu" or v[1] != tx(x["n"]) or len(v[2]) != 1:
            return "%s(..), got %s" % (x["n"], brief(v))
        r = same_value(x["x"], v[2][0])
        return r and "0." + r
    if k == "en":
        if not x["pl"]:
            return None if v == ("id", tx(x["var"])) else "variant %s, got %s" % (x["var"], brief(v))
        if v[0] != "tu" or v[1] != tx(x["var"]) or len(v[2]) != len(x["pl"]):
            return "variant %s, got %s" % (x["var"], brief(v))
        for a, b in zip(x["pl"], v[2]):
            r = same_value(a, b)
            if r:
                return "%s.%s" % (x["var"], r)
        return None
    raise ValueError(k)


def brief(v):
    s = repr(v)
    return s if len(s) < 160 else s[:160] + ".."


# --- documents -----------------------------------------------------------------------------

def infoset(text):
    """(namespace, name, {attr: value}, [children], text) of the root; ValueError when the text
    is not a well-formed document with namespaces."""
    p = expat.ParserCreate("utf-8", " ")
    p.buffer_text = True
    stack = []
    root = []

    def split(n):
        return tuple(n.rsplit(" ", 1)) if " " in n else ("", n)

    def start(n, a):
        u, l = split(n)
        e = [u, l, {(split(k) if " " in k else ("", k)): v for k, v in a.items()}, [], []]
        (stack[-1][3] if stack else root).append(e)
        stack.append(e)

    def end(n):
        stack.pop()

    def cd(s):
        stack[-1][4].append(s)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = cd
    try:
        p.Parse(text.encode("utf-8"), True)
    except expat.ExpatError as e:
        raise ValueError("not well-formed: %s" % e)
    return root[0]


def same_doc(el, e, path=""):
    """el: the specification's element, e: infoset. None or where they differ."""
    here = path + "/" + tx(el["n"])
    u = tx(el["u"])
    if (e[0], e[1]) != (u, tx(el["n"])):
        return "%s: expected {%s}%s, got {%s}%s" % (here, u, tx(el["n"]), e[0], e[1])
    want = {("", tx(a["n"])): tx(a["v"]) for a in el["a"]}
    if want != e[2]:
        return "%s: attributes %r, got %r" % (here, want, e[2])
    if len(el["k"]) != len(e[3]):
        return "%s: children %r, got %r" % (here, [k["n"] for k in el["k"]], [k[1] for k in e[3]])
    t = "".join(e[4])
    s = tx(el["s"])
    if t != s and not (el["k"] and not s and t.strip() == ""):
        return "%s: text %r, got %r" % (here, s, t)
    for a, b in zip(el["k"], e[3]):
        r = same_doc(a, b, here)
        if r:
            return r
    return None


# --- errors --------------------------------------------------------------------------------

def same_error(x, dbg):
    """x: {k, n, u, x} of the specification, dbg: Debug output of FromXmlError"""
    m = re.match(r'(\w+)', dbg)
    if not m or m.group(1) != x["k"]:
        return "error %s(%s), got %s" % (x["k"], x["n"], dbg)
    name = tx(x["n"])

    def field(f):
        m = re.search(r'\b%s: ("(?:[^"\\]|\\.)*"|None|Some\(("(?:[^"\\]|\\.)*")\))' % f, dbg, re.S)
        if not m:
            return None
        if m.group(1) == "None":
            return ""
        return rust_str(m.group(2) or m.group(1))
    want = {}
    if x["k"] == "MissingElement":
        want = {"name": name, "namespace": tx(x["u"])}
    elif x["k"] in ("MissingAttribute", "TextExpected", "InvalidVariant", "MissingVariant"):
        want = {"name": name}
    elif x["k"] == "ParseType":
        want = {"type_": name, "value": tx(x["x"])}
    elif x["k"] == "FixedMismatch":
        want = {"expected": name, "received": tx(x["x"])}
    for f, v in want.items():
        if field(f) != v:
            return "%s with %s=%r, got %s" % (x["k"], f, v, dbg)
    return None


def told(x, msg):
    """The message for people says what the error says: everything of x is in it."""
    want = {"MissingElement": ("n", "u"), "ParseType": ("n", "x"), "FixedMismatch": ("n", "x")}.get(x["k"], ("n",))
    for f in want:
        if tx(x[f]) not in msg:
            return "the message for %s does not name %r: %s" % (x["k"], tx(x[f]), msg)
    return None


# --- rust expressions ------------------------------------------------------------------------

RAW = set("as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref "
          "return static struct trait true type unsafe use where while async await dyn abstract become box do final "
          "gen macro override priv try typeof unsized virtual yield".split())


def spell(i):
    return "r#" + i if i in RAW else i


def rstr(s):
    return '"' + "".join("\\u{%x}" % ord(c) if c in '"\\' or ord(c) < 32 or ord(c) > 126 else c for c in s) + '"'


def expr(x):
    k = x["v"]
    if k == "lit":
        s = tx(x["s"])
        l = x["l"]
        if l == "boolean":
            return s
        if l in ("long", "int", "nonNegativeInteger"):
            return "%s.parse().unwrap()" % rstr(s)
        if l == "decimal":
            return "%s.parse::<rust_decimal::Decimal>().unwrap()" % rstr(s)
        if l == "float":
            return "%s.parse::<f32>().unwrap()" % rstr({"INF": "inf", "-INF": "-inf"}.get(s, s))
        return "::std::string::String::from(%s)" % rstr(s)
    if k == "unit":
        return "()"
    if k == "none":
        return "::std::option::Option::None"
    if k == "some":
        return "::std::option::Option::Some(%s)" % expr(x["o"])
    if k == "vec":
        return "::std::vec![%s]" % ", ".join(expr(e) for e in x["es"])
    if k == "st":
        return "s::%s { %s }" % (spell(tx(x["n"])), ", ".join("%s: %s" % (spell(tx(f["n"])), expr(f["x"])) for f in x["fs"]))
    if k == "tu":
        return "s::%s(%s)" % (spell(tx(x["n"])), expr(x["x"]))
    if k == "en":
        v = "s::%s::%s" % (spell(tx(x["n"])), spell(tx(x["var"])))
        return v if not x["pl"] else "%s(%s)" % (v, ", ".join(expr(e) for e in x["pl"]))
    raise ValueError(k)
