#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEC = "xsd/src/decode.rs"; LIB = "xsd/src/lib.rs"
XI = "xsd-internal/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", na=None, tech=None, level="model_checking", bounds=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, note=note, na=na, tech=tech, level=level))
T_S = "TLA+ (TLC) schema/codec specification; its units replayed into the real parser, generator and generated code"

prop("P01", "Reading a valid document yields the value that mirrors it",
 "For every schema within the supported constructs, every document that is valid against it is accepted by the generated type's from_xml. The resulting value contains exactly the content of the document: every element, attribute and text value ends up in the field, variant or item that corresponds to it, in document order, and nothing is invented, dropped or duplicated.",
 ["inputs", "programs"], "all supported schemas x all valid documents of each",
 "The tests decode about twenty fixed documents of fixed schemas; neither other schemas nor other documents of the same schema are visited.",
 [DEC, XI+"ast/", XI+"xsd/parse/"],
 [("FromXml implementations generated per type", XI+"ast"), ("Node cursor", DEC)],
 observe=["from_xml of generated types, Debug of the value"])
prop("P02", "Writing a value yields a valid document that carries it",
 "For every supported schema, to_xml of every value whose list lengths the schema allows yields a well-formed document that is valid against the schema: root and child elements with the right names, namespaces, order and nesting, all attributes that are set and none that are not. The document carries exactly the value's content, each literal in a lexical form the schema type allows, with markup characters escaped.",
 ["inputs", "programs"], "all supported schemas x all values of the generated types",
 "The tests encode a handful of values and compare with one fixed string each.",
 [LIB, XI+"ast/"],
 [("ToXml implementations generated per type", XI+"ast"), ("Context", LIB)],
 observe=["to_xml of generated types"])
prop("P03", "Writing a value and reading it back gives the same value",
 "For every supported schema and every value of a generated type whose lists have the lengths the schema allows, reading what to_xml wrote succeeds and gives an equal value. The same holds for every value that was read from a document, even from one the schema does not quite allow.",
 ["inputs", "programs", "histories"], "all supported schemas x all values; read-write-read histories",
 "The tests round-trip about twenty values; the law is over all values of all generated types.",
 [LIB, DEC, XI+"ast/"],
 [("ToXml and FromXml are generated from the same tree", XI+"ast")],
 observe=["from_xml(to_xml(v)) == v"])
prop("P04", "Unreadable documents are refused with an error that says why",
 "A document that lacks a required element or attribute, has the wrong root element, an alternative of no choice, an enumeration value or fixed value that is not declared, or a literal that its type cannot represent is refused by from_xml; it never panics, hangs or yields a value. When one thing is wrong, the error names it: the missing element with its namespace, the missing attribute, the offending value and its type, the fixed value that was expected.",
 ["inputs", "programs"], "all supported schemas x all documents obtained by changing a valid one",
 "One or two error cases are tested; what can be wrong is spread over all schema constructs.",
 [DEC, LIB, XI+"ast/"],
 [("FromXmlError", LIB), ("child/attribute lookup", DEC)],
 observe=["Result of from_xml"])
prop("P05", "Choices pick the alternative whose element comes next",
 "In a choice, the alternative is taken whose element - or, for a sequence or nested choice, whose possible first element - is the next one of the document, also when the choice is optional, repeated, nested in sequences and choices, or inherited. A repeated choice or sequence takes as many items as match and stops at the first element that starts none; an optional one is absent exactly if the next element starts none of its alternatives; if a required choice finds no alternative, the document is refused.",
 ["inputs", "programs"], "all nestings of choices and sequences with all occurrence combinations x all words over the element names",
 "Tests have three choice schemas with one document each; lookahead depends on the nesting, the occurrences and the word.",
 [XI+"ast/", DEC],
 [("lookahead generated per group", XI+"ast"), ("peek_child", DEC)],
 observe=["from_xml/to_xml"])
prop("P06", "Occurrences map to plain, optional and repeated content",
 "An element or group with minOccurs=0 may be absent and is then None; one with maxOccurs above 1 yields all consecutive occurrences in order and nothing else; one without both is required exactly once. This holds for every combination of occurrences on elements and on the sequences and choices around them, including inherited ones, and for every word of elements: what belongs to a later part is never swallowed by an earlier one, and absence of a required part is reported as that part missing.",
 ["inputs", "programs"], "all sequences with nested groups and all occurrence combinations x all words over the element names",
 "Each test fixes one combination of occurrences and one document.",
 [XI+"ast/", DEC], [("Leaf with min/max occurs", XI+"ast"), ("try_child/next_child", DEC)],
 observe=["from_xml/to_xml"])
prop("P07", "Members of xs:all may come in any order",
 "The members of an xs:all group are read from every order in which a document lists them, with optional members present or absent in any combination, and the value is the same for every order. A required member that is absent is reported as missing whichever others are there; writing emits each present member exactly once.",
 ["inputs", "programs"], "all xs:all groups up to four members with all optionality x all permutations, omissions and repetitions",
 "One test lists two members in one order.",
 [XI+"ast/", DEC], [("unordered leaves use child/try_child, which search", DEC)],
 observe=["from_xml/to_xml"])
prop("P08", "Elements are matched and written by namespace, never by prefix",
 "Global elements are in their schema's target namespace; local elements are in it exactly if their schema's elementFormDefault is qualified; attributes are unqualified. Elements are accepted exactly when local name and namespace both match and are written with that namespace, in every nesting of types from different namespaces; type and element references are resolved through the prefix and default namespace declarations of the file they are in.",
 ["inputs", "programs"], "all schema sets over several namespaces and forms x all assignments of namespaces to a document's elements",
 "Tests use one or two namespaces, always with the right ones in the document.",
 [DEC, LIB, XI+"xsd/schema.rs", XI+"ast/"], [("Namespaces/Name", XI+"ast"), ("namespace comparison", DEC), ("set_ns/set_default_ns", LIB)],
 observe=["from_xml/to_xml"])
prop("P09", "Schemas spread over files behave like one",
 "A schema reached through xs:include and xs:import, over any graph of relative schemaLocations including cycles, diamonds, subdirectories and a file reached on several ways, is loaded in finite time, each file once, relative to the file that refers to it. The generated types and their behaviour are those of all declarations together, whatever file they are in and in whatever order files refer to each other; a file that cannot be opened is reported with its path.",
 ["inputs", "programs", "fault_sequences"], "all include/import graphs over up to four files, all distributions of declarations over files, missing files",
 "The tests have one include and one import.",
 [XI+"xsd/schema.rs", XI+"lib.rs", XI+"xsd/parse/"], [("Schema::parse_file recursion and set of visited files", XI+"xsd/schema.rs")],
 observe=["generated types, from_xml/to_xml, SchemaError::Open"])
prop("P10", "Generated code compiles and exposes the schema's types and fields",
 "For every supported schema whose names stay distinct from each other and from Rust's prelude when they are converted, the generator produces Rust code that compiles, with one public type per global declaration and per anonymous or grouped type, deriving Debug, Clone and PartialEq. Their names are the schema's in Rust case, escaped where they are keywords, and every element and attribute is a public field or variant whose type says whether it is required (T), optional (Option) or repeated (Vec); nothing is missing and nothing is added.",
 ["inputs", "programs"], "all supported schemas, all XML names up to the length and alphabet explored",
 "Generated code is compiled for the ten test schemas only.",
 [XI+"ast/", XI+"utils.rs", XI+"ast/"], [("identifier conversion and escaping", XI+"utils.rs"), ("derived names of groups", XI+"xsd/parse")],
 observe=["rustc on the generated code; its items parsed with syn"])
prop("P11", "Enumerations are a bijection between values and variants",
 "For every enumerated simple type, whatever its values (empty, non-identifier, differing only in case or punctuation, keywords), each declared value has exactly one variant of its own and no other variant exists. Reading, in elements, attributes and FromStr, maps a declared value to its variant and refuses every other string; writing and Display map the variant back to exactly the declared value.",
 ["inputs", "programs"], "all lists of enumeration values over the explored alphabet x all strings",
 "Tests use one well-behaved enumeration.",
 [XI+"ast/", XI+"utils.rs"], [("variant names with fallback numbering", XI+"ast")],
 observe=["from_xml/to_xml/FromStr/Display"])
prop("P12", "Unsupported or faulty schemas are refused with the place of the fault",
 "A schema with an unsupported element in its declarations, types, groups or restrictions, an unsupported attribute of an element, attribute, type or group, an unsupported or malformed attribute or facet value, without a required attribute or child, that is not well-formed or refers to a file that cannot be opened is refused by the parser with an error, never with a panic and never by silently ignoring it. The error names the construct and carries the file and the row and column of the node at fault. Attributes and elements of foreign namespaces and annotations are not faults: they change nothing in the generated types.",
 ["inputs", "fault_sequences"], "all single faults (unknown element or attribute, bad value, missing part, missing or garbled file) at every place of the explored schemas",
 "No test checks errors of the schema parser.",
 [XI+"xsd/parse/", XI+"xsd/error.rs", XI+"xsd/schema.rs", XI+"xsd/node.rs"], [("XsdError with node position", XI+"xsd/error.rs"), ("prevent_unvisited style checks", XI+"xsd/parse")],
 observe=["Err of Schema::parse_file"])
prop("P13", "The document cursor: every history of lookups behaves like a list",
 "On a decoded document, the children of a node behave like the list of its child elements in document order: peeking never changes it, taking the next matching child removes exactly the first element and only if it matches, and asking for a named child removes exactly the first matching one wherever it is and leaves the order of the others as it was. This holds for every interleaving of these calls, on nested nodes and in every namespace; attributes, text and the place in the document can be read any number of times with the same result.",
 ["histories", "inputs"], "all call histories up to the explored length over all documents up to the explored size, plus long random histories",
 "The tests of the decoder go through about ten fixed call sequences.",
 [DEC], [("peeked queue and next slot", DEC)],
 state=[("remaining children", "the child elements not taken yet, in document order", DEC)],
 observe=["xsd::decode::decode, Document, Node"])
prop("P14", "The element writer: every history of calls writes one balanced element",
 "A Context writes its start tag exactly once, with the attributes and namespaces set up to then, before any content, however many nested values share it, and its end tag exactly once. For every history of creating, wrapping, setting attributes and namespaces, starting and ending that writers of nested values can make, the output is well-formed and its elements, attributes and namespaces are those that were asked for.",
 ["histories"], "all call histories up to the explored length and nesting, plus long random histories",
 "No test calls the writer on its own; generated code takes few of its histories.",
 [LIB], [("is_started flag shared by wrapped contexts", LIB)],
 state=[("stack of open elements", "real and virtual contexts with their pending attributes", LIB)],
 observe=["xsd::Context and the XML written"])
prop("P15", "Attributes: presence, use, type and fixed value",
 "An attribute is a field of its element's type, Option unless use=required, whatever the content of the type is (sequence, choice, all, simple content, extension, none); it is read from the document's attribute of that name only, with the value parsed as its type, and written exactly if it is set. A required attribute that is absent, a value its type cannot represent and a value other than the fixed one are refused; unknown attributes do not disturb.",
 ["inputs", "programs"], "all uses x all kinds of attribute types x all kinds of owning types x absent, good, bad and unknown attributes",
 "Two tests have attributes, both required or optional strings.",
 [XI+"xsd/parse/", XI+"ast/", DEC], [("attribute/try_attribute", DEC), ("set_attr", LIB)],
 observe=["from_xml/to_xml"])
prop("P16", "Extended types have the base's content first, then their own",
 "A type that extends another, over any number of levels, has all elements and attributes of its base followed by its own, with unchanged names, types and occurrences. Documents are read and written in that order, and values of the base type itself are not affected.",
 ["inputs", "programs"], "all bases x all extensions over two levels",
 "Two tests have one extension each.",
 [XI+"xsd/parse/", XI+"ast/"], [("extension merges the base's leaves and attributes", XI+"xsd/parse")],
 observe=["generated types, from_xml/to_xml"])
prop("P17", "Literals: lexical space, value and canonical text of every built-in type",
 "For every supported built-in type, exactly the strings that type's Rust representation can express are accepted in elements, attributes and FromStr, with the value the schema language gives them (white space trimmed, signs, leading zeros, 1/0 booleans, INF and NaN), and all others are refused, naming type and value. A value is written as text that reads back as the same value; strings are kept character by character.",
 ["inputs"], "all built-in types x all strings up to the explored length plus boundary values",
 "Tests use one good value for a few of the types.",
 [XI+"ast/", LIB, XI+"ast/literal_type.rs"], [("literal parse and Display", XI+"ast")],
 observe=["from_xml/to_xml/FromStr/Display"])
prop("P18", "The spelling of a document does not matter",
 "Two documents with the same elements, attributes and text are read alike, whatever prefixes and default namespaces they declare and where, whatever quotes, attribute order, entity and character references, CDATA sections, comments, processing instructions, XML declarations, empty-element tags and insignificant white space they use.",
 ["inputs"], "all documents explored x spellings of each",
 "Tests have one spelling of each document.",
 [DEC], [("event handling of the decoder", DEC)], observe=["from_xml"])
prop("P19", "The types generated for one element are exactly what it needs",
 "Generating code for one global element or type yields its type and every type reachable from it, each exactly once, and no unreachable one, in any schema graph including shared and recursive types. Generating several into one module yields the union without duplicates; generating all yields everything.",
 ["inputs", "programs", "histories"], "all reference graphs explored x all global declarations, generated alone and one after another",
 "Tests only generate whole schemas.",
 [XI+"xsd/schema.rs", XI+"ast/"], [("dependency map and set of generated names", XI+"xsd/schema.rs")],
 observe=["Schema::elements, generate_element_and_dependencies"])
prop("P20", "The macro turns every outcome into items or a compile error",
 "#[xsd::all] keeps the module's visibility, name, attributes and items and adds the schema's types, resolving the path against the crate's manifest directory. A missing or unknown argument, a file that cannot be opened and a schema that is refused are each reported as a compile error with the reason; there is no panic and nothing is generated silently.",
 ["inputs", "configurations"], "all combinations of arguments, schema outcomes, module visibilities, attributes and items",
 "Every test module uses the macro the same way and successfully.",
 ["xsd-derive/src/lib.rs"], [("argument parsing and error conversion", "xsd-derive/src/lib.rs")],
 observe=["rustc on modules with the attribute"])
prop("P21", "Documentation of the schema becomes documentation of the code",
 "The (first) xs:documentation of a declaration, type or group becomes the doc comment of the type or field generated for it, complete up to white space, whatever text and markup it contains and wherever the annotated construct is; no declaration gets another one's documentation, and what is not documented has no doc comment.",
 ["inputs", "programs"], "all placements of documentation x the explored texts",
 "Tests do not look at documentation.",
 [XI+"xsd/parse/", XI+"ast/"], [("docs of AST nodes", XI+"ast")], observe=["doc attributes of the generated items"])

import sys
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                      "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                      "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")

sys.path.insert(0, os.path.join(V, "engine"))
import props
NOTE = {
 "*": "Bounded: TLC evaluates the specification's guarantees on every state of the explored schemas (enumerated families and seeded generators) and the code is compared with the specification on each of them. Assumes the specification's reading of XSD, rustc, xml-rs and expat.",
}
checks, na = [], []
TECH = {
 "P13": "TLA+ cursor specification and its refinement by next/peeked/rest (TLC); exhaustive call trees replayed into the code, recorded histories validated by TLC",
 "P14": "TLA+ writer specification (TLC); exhaustive and random call histories replayed into the code, output compared",
 "P20": "TLA+ specification of the macro's outcomes (TLC); every invocation compiled",
}
for p in P:
    if p["id"] in props.PROPS or p["id"] in props.DRIVERS:
        checks.append({"property": p["id"], "quick_cmd": "python3 engine/check.py %s quick" % p["id"],
          "thorough_cmd": "VERIF_TIER=thorough python3 engine/check.py %s thorough" % p["id"],
          "technique": TECH.get(p["id"], T_S), "level": p["level"], "level_note": p["note"] or NOTE["*"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
