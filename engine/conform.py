"""Replays the units the specification produced into the real code and reports where the code
does something else. A divergence says in which respect (facet) they differ; which respects a
property is about is decided in props.py."""
import decimal
import hashlib
import json
import os
import re

import build
import observe
import render
from render import tx


class Div:
    def __init__(self, facet, unit, what, case=None, **data):
        self.facet = facet
        self.unit = unit
        self.what = what
        self.case = case
        self.data = data

    def __repr__(self):
        return "[%s] %s%s: %s" % (self.facet, self.unit["prof"] + "/" + self.unit["id"],
                                  "" if self.case is None else " " + str(self.case), self.what)


def h(*a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:12], 16)


def prepare(units, seed, style_of=None):
    """Renders the schemas."""
    for u in units:
        u["files_x"] = {}
        u["pos"] = {}
        for f in u["files"]:
            name = tx("/".join(f["path"]))
            if f["form"] == "missing":
                continue
            text, pos = render.schema_text(f, h(seed, u["id"], name), loads=not u["fail"])
            u["files_x"][name] = text
            u["pos"][name] = pos
    return units


def load(loader, units, work, timeout=10):
    jobs = [{"id": u["id"], "files": u["files_x"], "main": tx("/".join(u["files"][0]["path"]))} for u in units]
    build.load_units(loader, jobs, work, timeout)
    for u, j in zip(units, jobs):
        u["load"] = j["load"]
        u["rs"] = j["rs"]


def surface_key(t):
    return t["n"]


def check_surface(u):
    """The generated types."""
    divs = []
    want = {tx(t["n"]): t for t in u["surface"]}
    got = {}
    for t in u["load"]["surface"]:
        if t["name"] in got:
            divs.append(Div("surface", u, "type %s is generated twice" % t["name"]))
        got[t["name"]] = t
    for n in sorted(set(want) - set(got)):
        divs.append(Div("surface", u, "type %s is missing (generated: %s)" % (n, ", ".join(sorted(got)))))
    for n in sorted(set(got) - set(want)):
        divs.append(Div("surface", u, "type %s is not in the schema" % n))
    for n in sorted(set(got) & set(want)):
        w, g = want[n], got[n]
        if w["kind"] != g["kind"]:
            divs.append(Div("surface", u, "type %s is a %s, not a %s" % (n, g["kind"], w["kind"])))
            continue
        if w["kind"] == "enum":
            gf = {v["name"]: ",".join(f["ty"] for f in v["fields"]) for v in g["variants"]}
            gd = {}
        else:
            gf = {f["name"]: f["ty"] for f in g["fields"]}
            gd = {f["name"]: f["doc"] for f in g["fields"]}
            for f in g["fields"]:
                if not f["pub"]:
                    divs.append(Div("surface", u, "field %s.%s is private" % (n, f["name"])))
        wf = {tx(f["n"]): tx(f["ty"]) for f in w["fields"]}
        wd = {tx(f["n"]): tx(f["docs"]) for f in w["fields"]}
        if gf != wf:
            divs.append(Div("surface", u, "type %s has %s, not %s" % (n, gf, wf)))
        if not set(["Debug", "Clone", "PartialEq"]) <= set(g["derives"]):
            divs.append(Div("surface", u, "type %s derives %s" % (n, g["derives"])))
        if clean(g["doc"]) != tx(w["docs"]):
            divs.append(Div("docs", u, "docs of %s: %r, not %r" % (n, g["doc"], tx(w["docs"]))))
        if w["kind"] == "struct" and set(gd) == set(wd):
            for f in wd:
                if clean(gd[f]) != wd[f]:
                    divs.append(Div("docs", u, "docs of %s.%s: %r, not %r" % (n, f, gd[f], wd[f])))
    return divs


def clean(s):
    return " ".join(s.split(" ")).strip(" ")


def check_closures(u):
    divs = []
    got = {}
    for c in u["load"]["closures"]:
        got.setdefault(c["name"], []).append(c)
    for c in u["closures"]:
        want = sorted(tx(t) for t in c["types"])
        gs = got.get(tx(c["n"]), [])
        if not gs:
            divs.append(Div("closure", u, "no element %s" % tx(c["n"])))
        elif len(gs) == 1:
            if gs[0]["types"] != want:
                divs.append(Div("closure", u, "types for %s: %s, not %s" % (tx(c["n"]), gs[0]["types"], want)))
        elif want not in [g["types"] for g in gs]:
            divs.append(Div("closure", u, "types for %s: none of %s is %s" % (tx(c["n"]), [g["types"] for g in gs], want)))
    for c in u["load"]["closures"]:
        if c["shared"]:
            divs.append(Div("closure", u, "types for %s: %s" % (c["name"], c["shared"])))
    al = u["load"]["all_shared"]
    if sorted(al) != sorted(tx(t["n"]) for t in u["surface"]):
        divs.append(Div("closure", u, "generating all elements with a shared set gives %s" % al))
    return divs


HUGE = 2000000000


def same_facet(w, g):
    if w["t"] != g["t"]:
        return False
    if w["t"] == "pattern":
        return tx(w["v"]) == g["v"]
    return decimal.Decimal(w["v"]) == decimal.Decimal(g["v"])


def expected(m):
    """The model as the specification has it, spelled like the harness does."""
    if isinstance(m, str):
        return tx(m)
    if isinstance(m, list):
        return [expected(x) for x in m]
    if isinstance(m, dict):
        return {k: expected(v) for k, v in m.items()}
    return m


def difference(w, g, at=""):
    if isinstance(w, dict) and isinstance(g, dict):
        if set(w) == {"t", "v"} == set(g):
            return None if same_facet(w, g) else "%s is the facet %s, not %s" % (at, g, w)
        for k in w:
            if k == "docs" and clean(w[k]) == clean(g.get(k) or ""):
                continue
            if k in ("min", "max") and w[k] == HUGE and g.get(k, 0) > 10 ** 9:
                continue
            d = difference(w[k], g.get(k), at + "." + k)
            if d:
                return d
        return None
    if isinstance(w, list) and isinstance(g, list):
        if len(w) != len(g):
            return "%s has %d parts, not %d: %s" % (at, len(g), len(w), g)
        for i, (x, y) in enumerate(zip(w, g)):
            d = difference(x, y, "%s[%d]" % (at, i))
            if d:
                return d
        return None
    return None if w == g else "%s is %r, not %r" % (at, g, w)


def check_model(u):
    """The model of the schema."""
    # (where several things are wrong with the same construct, any of them may be reported, also by another entry point)
    divs = [Div("model", u, x[:600]) for x in u["load"]["odd"] if len(u["fail"]) <= 1 or " reports " not in x]
    if u["fail"]:
        return divs

    def key(m):
        return m["q"]["u"], m["q"]["n"]
    want = {key(m): m for m in expected(u["model"])}
    got = {key(m): m for m in u["load"]["model"]}
    if len(got) != len(u["load"]["model"]):
        divs.append(Div("model", u, "a definition is there twice"))
    for k in sorted(set(want) | set(got)):
        if k not in got:
            divs.append(Div("model", u, "the definition of %s is missing" % (k,)))
        elif k not in want:
            divs.append(Div("model", u, "there is no definition of %s in the schema" % (k,)))
        else:
            d = difference(want[k], got[k], "%s" % k[1])
            if d:
                divs.append(Div("model", u, d))
    nss = sorted(tx(n) for n in u["nss"])
    if sorted(u["load"]["nss"]) != nss:
        divs.append(Div("model", u, "the namespaces are %s, not %s" % (u["load"]["nss"], nss)))
    elif u["load"]["prefixes"] != len(nss):
        divs.append(Div("model", u, "two namespaces have the same prefix"))
    if u["load"]["tns"] != tx(u["files"][0]["tns"]):
        divs.append(Div("model", u, "the target namespace is %r" % u["load"]["tns"]))
    return divs


ERR = re.compile(r'^Xsd \{ err: (.*), file: "((?:[^"\\]|\\.)*)", (row|col): (\d+), (?:row|col): (\d+) \}$', re.S)


def fld(dbg, f):
    m = re.search(r'\b%s: (?:Some\()?("(?:[^"\\]|\\.)*")' % f, dbg, re.S)
    return observe.rust_str(m.group(1)) if m else None


def check_failure(u):
    """A schema that has to be rejected: which error, and where. Where several things are wrong with
    the same construct, any of them may be reported."""
    first = None
    for x in u["fail"]:
        divs = check_failure_as(u, x)
        if not divs:
            return []
        first = first or divs
    return first


def check_failure_as(u, x):
    divs = []
    st = u["load"]["status"]
    if st in ("panic", "crash"):
        return [Div("panic", u, "loading the schema: %s %s" % (st, u["load"].get("err")))]
    if st == "skipped":
        return []
    if st != "error":
        return [Div("schema.accepted", u, "a schema with an unsupported or faulty construct is accepted "
                    "(expected %s %s)" % (x["k"], x["n"]))]
    dbg = u["load"]["err"]
    want_file = tx("/".join(x["file"]))
    if x["k"] == "Open":
        m = re.match(r'^Open \{ .*file: "((?:[^"\\]|\\.)*)"', dbg, re.S)
        if not m:
            return [Div("schema.error", u, "expected Open of %s, got %s" % (want_file, dbg))]
        got = norm(u, observe.rust_str('"' + m.group(1) + '"'))
        if got != want_file:
            divs.append(Div("schema.where", u, "file %s, got %s" % (want_file, got)))
        elif os.path.basename(want_file) not in u["load"]["msg"]:
            divs.append(Div("schema.error", u, "the message does not name %s: %s" % (want_file, u["load"]["msg"])))
        return divs
    m = ERR.match(dbg)
    if not m:
        return [Div("schema.error", u, "expected %s, got %s" % (x["k"], dbg))]
    err, file, row, col = m.group(1), norm(u, observe.rust_str('"' + m.group(2) + '"')), int(m.group(4)), int(m.group(5))
    if m.group(3) == "col":
        row, col = col, row
    kind = x["k"][2:]
    if x["k"].startswith("N."):
        ok = err.startswith("Node(" + kind)
    else:
        ok = err.startswith(kind)
    if not ok:
        divs.append(Div("schema.error", u, "expected %s, got %s" % (x["k"], err)))
    else:
        names = {"N.UnsupportedAttribute": [("name", x["n"]), ("element", x["el"])],
                 "N.UnsupportedElement": [("name", x["n"])],
                 "N.MissingAttribute": [("name", x["n"]), ("element", x["el"])],
                 "N.MissingElement": [("name", x["n"])],
                 "X.UnsupportedElement": [("name", x["n"])],
                 "X.UnsupportedAttributeValue": [("name", x["n"]), ("element", x["el"]), ("value", x["v"])],
                 "X.UnexpectedAttribute": [("name", x["n"]), ("element", x["el"])],
                 "X.UnsupportedType": [("name", x["n"])],
                 }.get(x["k"], [])
        for f, v in names:
            g = fld(err, f)
            if g is not None and g != tx(v):
                divs.append(Div("schema.error", u, "%s with %s=%r, got %s" % (x["k"], f, v, err)))
        # the message for people says the same
        for v in [v for _, v in names] + [str(row), str(col), os.path.basename(want_file)]:
            if tx(v) not in u["load"]["msg"]:
                divs.append(Div("schema.error", u, "the message does not name %r: %s" % (v, u["load"]["msg"])))
    if file != want_file:
        divs.append(Div("schema.where", u, "in file %s, got %s" % (want_file, file)))
    elif x["k"] == "X.Xml":
        # (where the XML reader says it is)
        at = re.findall(r"TextPos \{ row: (\d+), col: (\d+) \}", err)
        if len(at) == 1 and (row, col) != (int(at[0][0]), int(at[0][1])):
            divs.append(Div("schema.where", u, "at %s, got %s" % (at[0], (row, col))))
    else:
        want = u["pos"][want_file].get((tuple(x["p"]), x["at"]))
        alt = u["pos"][want_file].get((tuple(x["p"]), ""))
        if (row, col) not in (want, ) and not (x["at"] == "" and (row, col) == alt):
            divs.append(Div("schema.where", u, "at %s (%s %s), got %s" % (want, x["p"], x["at"], (row, col))))
    return divs


def norm(u, p):
    base = os.path.dirname(u["rs"])
    return os.path.relpath(os.path.normpath(p), base)


def run_units(loader, units, seed, work, styles=None, nexpr=2, all_styles=False, timeout=10,
              loadonly=False):
    """Returns (divergences, counters)."""
    divs = []
    prepare(units, seed)
    load(loader, units, work)
    n = {"schemas": len(units), "malformed_documents": 0, "documents": 0, "values": 0, "strings": 0, "rejected_schemas": 0,
         "valid_documents": 0, "refused_documents": 0}
    live = []
    for u in units:
        st = u["load"]["status"]
        if u["fail"]:
            n["rejected_schemas"] += 1
            divs += check_failure(u)
            if u["load"].get("odd"):
                divs += check_model(u)
            continue
        if st == "skipped":
            continue
        if st in ("panic", "crash"):
            divs.append(Div("panic", u, "loading the schema: %s" % u["load"].get("err")))
        elif st != "ok":
            divs.append(Div("load", u, "the schema is not accepted: %s %s" % (st, u["load"].get("err"))))
        else:
            if "model" in u["load"]:
                divs += check_model(u)
            elif u["surface"]:
                divs += check_surface(u)
                divs += check_closures(u)
            live.append(u)
    if loadonly:
        return divs, n
    for u in live:
        got = {t["name"] for t in u["load"]["surface"]}
        types = sorted({tx(c["type"]) for c in u["cases"]} & got)
        u["types"] = [observe.spell(t) for t in types]
        u["tix"] = {t: i for i, t in enumerate(types)}
        strs = sorted({tx(s["type"]) for s in u["strs"]} & got)
        u["strs_x"] = strs
        u["six"] = {t: i for i, t in enumerate(strs)}
        u["exprs"] = []
        u["ex_case"] = []
        bad = {d.unit["id"] for d in divs if d.facet == "surface"}
        if u["id"] not in bad:
            for j, c in enumerate(u["cases"]):
                if c["made"] and len(u["exprs"]) < nexpr and j not in u["ex_case"]:
                    u["exprs"].append((observe.spell(tx(c["type"])), observe.expr(c["made"][0]["x"])))
                    u["ex_case"].append(j)
    jobs = [{"id": u["id"], "rs": u["rs"], "types": u["types"], "exprs": u["exprs"],
             "strs": [observe.spell(t) for t in u["strs_x"]]} for u in live]
    bad, progs = build.build_units(jobs, work)
    for u in live:
        if bad.get(u["id"]):
            divs.append(Div("compile", u, "the generated code does not compile: %s" % "; ".join(bad[u["id"]][:3])))
    live = [u for u in live if u["id"] not in bad]
    cases = []
    for u in live:
        for j, c in enumerate(u["cases"]):
            if tx(c["type"]) not in u["tix"]:
                continue
            if u["prof"] == "wf":
                cases.append((u, "D", u["tix"][tx(c["type"])], render.tokens_text(c["toks"]), c, j, "tokens"))
                continue
            sts = render.STYLES if all_styles else [(styles or render.STYLES)[h(seed, u["id"], j) % len(styles or render.STYLES)]]
            for s in sts:
                text = render.doc_text(c["doc"], s, h(seed, u["id"], j, s), spaces=c["valid"])
                cases.append((u, "D", u["tix"][tx(c["type"])], text, c, j, s))
        for k, j in enumerate(u["ex_case"]):
            cases.append((u, "E", k, "", u["cases"][j], j, None))
        for c in u["strs"]:
            if tx(c["type"]) in u["six"]:
                cases.append((u, "S", u["six"][tx(c["type"])], tx(c["s"]), c, None, None))
    ans = build.run_cases(progs, [(c[0]["id"], c[1], c[2], c[3]) for c in cases], timeout)
    for (u, op, k, text, c, j, s), a in zip(cases, ans):
        if op == "D":
            n["documents"] += 1
            n["valid_documents"] += c["valid"]
            n["refused_documents"] += not c["ok"]
            n["malformed_documents"] += not c["wf"]
            divs += check_doc(u, c, j, s, text, a)
        elif op == "E":
            n["values"] += 1
            divs += check_value(u, c, j, a)
        else:
            n["strings"] += 1
            divs += check_str(u, c, text, a)
    return divs, n


def died(u, a, where, **data):
    if a["status"] in ("panic", "crash"):
        return [Div("panic", u, "%s: %s %s" % (where, a["status"], a.get("err")), **data)]
    return None


def check_doc(u, c, j, style, text, a):
    case = "case %s (%s)" % (j, style)
    data = {"document": text, "expected": c, "got": a, "style": style}
    if a["status"] == "skipped":
        return []
    d = died(u, a, "reading a document", **data)
    if d:
        return d
    if not c["ok"]:
        if a["status"] == "ok":
            return [Div("reject", u, "a document is accepted although %s: %s" % (c["err"][0], a["dbg"][:200]), case, **data)]
        if len(c["what"]) > 1:
            return []
        r = observe.same_error(c["err"][0], a["err"]) or observe.told(c["err"][0], a["msg"])
        return [Div("error", u, r, case, **data)] if r else []
    if a["status"] == "err":
        f = "accept" if c["valid"] else "lenient"
        return [Div(f, u, "a %sdocument is refused: %s" % ("valid " if c["valid"] else "", a["err"]), case, **data)]
    try:
        v = observe.parse_debug(a["dbg"])
        r = observe.same_value(c["value"][0], v)
    except (ValueError, AssertionError) as e:
        r = "unreadable debug output %s" % e
    if r:
        return [Div("value" if c["valid"] else "value.lax", u, r, case, **data)]
    return check_enc(u, c["back"][0], c["value"][0], case, a, data, strong=True)


def check_enc(u, want, value, case, a, data, strong, reads=True):
    if a.get("xmlerr"):
        return [Div("encode", u, "the value cannot be written: %s" % a["xmlerr"], case, **data)]
    divs = []
    try:
        r = observe.same_doc(want, observe.infoset(a["xml"]))
        if r:
            divs.append(Div("encode", u, r, case, **data))
    except ValueError as e:
        divs.append(Div("encode", u, str(e), case, **data))
    if a.get("backerr") and not reads:
        pass
    elif a.get("backerr"):
        divs.append(Div("roundtrip", u, "what was written is refused: %s" % a["backerr"], case, **data))
    elif strong and not a["eq"]:
        divs.append(Div("roundtrip", u, "read back as %s" % a["back"][:300], case, **data))
    return divs


def check_value(u, c, j, a):
    case = "value %s" % j
    m = c["made"][0]
    data = {"value": observe.expr(m["x"]), "expected": m["enc"], "got": a}
    if a["status"] == "skipped":
        return []
    d = died(u, a, "writing a value", **data)
    if d:
        return d
    return check_enc(u, m["enc"], m["x"], case, a, data, m["unique"], m["reads"])


def check_str(u, c, text, a):
    case = "string %r as %s" % (text, tx(c["type"]))
    data = {"string": text, "expected": c, "got": a}
    if a["status"] == "skipped":
        return []
    d = died(u, a, "parsing a string", **data)
    if d:
        return d
    if not c["ok"]:
        if a["status"] == "ok":
            return [Div("str", u, "accepted as %s" % a["dbg"], case, **data)]
        r = observe.same_error(c["err"][0], a["err"])
        return [Div("str", u, r, case, **data)] if r else []
    if a["status"] != "ok":
        return [Div("str", u, "refused: %s" % a["err"], case, **data)]
    r = observe.same_value(c["value"][0], observe.parse_debug(a["dbg"]))
    if r:
        return [Div("str", u, r, case, **data)]
    x = c["value"][0].get("x", {})
    if x.get("l") == "float":
        # Display of a float may use Rust's spelling (inf) as well as the schema's (INF)
        if observe.f32(a["show"]) == observe.f32(c["show"]):
            return []
    if a["show"] != tx(c["show"]):
        return [Div("str", u, "shown as %r, not %r" % (a["show"], tx(c["show"])), case, **data)]
    return []
