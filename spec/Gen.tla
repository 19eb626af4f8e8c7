--------------------------------- MODULE Gen ---------------------------------
(* Schemas, values and documents to explore.  Every choice is a function of a *)
(* key (Util), so that an index and a seed determine a case; the profile of a *)
(* property says which constructs its schemas are made of.                    *)
EXTENDS Codec, Content

N(t, a, k) == [t |-> t, x |-> TRUE, a |-> a, k |-> k, s |-> "", p |-> <<>>]
TextN(t, s) == [N(t, <<>>, <<>>) EXCEPT !.s = s]
A(n, v) == [n |-> n, v |-> v, f |-> FALSE]
AIf(c, n, v) == IF c THEN <<A(n, v)>> ELSE <<>>

-----------------------------------------------------------------------------
(* names *)
W1 == <<"user", "order", "item", "price", "unit", "zone", "first", "last", "main", "sub", "old",
        "fresh", "red", "big", "tax", "net", "alpha", "bravo", "cargo", "delta", "echo", "fox", "golf",
        "hotel", "india", "kilo", "lima", "mike", "oscar", "papa", "romeo", "tango", "victor", "zulu">>
W2 == <<"name", "code", "kind", "list", "id", "date", "size", "area", "note", "mark", "total", "flag", "group",
        "detail", "x">>
UpperWord(w) == Cat(MapS(Chars(w), ToUp))
HardNames == <<"type", "self", "Self", "match", "crate", "async", "gen", "try", "yield", "super",
  "XMLHttpRequest", "HTTPServer2", "a-b-c", "a.b", "_lead", "trail_", "UPPER_CASE",
  "mixedCase-With.dots", "~mega", "x~y", "dyn", "box", "final", "a1", "A1B2", "fooBAR", "i",
  "in", "loop", "use", "mod", "static", "enum", "struct", "fn", "where", "true", "abstract",
  "do", "priv", "typeof", "userID", "ID", "as", "ref", "move", "macro", "become", "await",
  "impl", "trait", "const", "let", "pub", "extern", "unsafe", "break", "if", "else", "for",
  "while", "return", "mut", "continue", "false", "override", "unsized", "virtual", "Type",
  "x2y", "v1.0", "iPhone", "ISO8601", "a__b", "a-_b", "x.-y", "Ab", "aB", "ABc", "node",
  "value", "attr", "ctx", "child", "name", "text", "children", "document", "decode", "tag",
  "element", "writer", "val", "opt", "prefix", "start", "id", "len", "is", "xsd", "std", "e">>
PlainName(k) ==
  LET a == PickOf(Sub(k, 1), W1)
      b == PickOf(Sub(k, 2), W2)
      st == Below(Sub(k, 3), 12)
  IN  CASE st \in {0, 1, 2} -> a
        [] st \in {3, 4} -> a \o Cap(b)
        [] st = 5 -> Cap(a) \o Cap(b)
        [] st = 6 -> a \o "-" \o b
        [] st = 7 -> a \o "_" \o b
        [] st = 8 -> Cap(a)
        [] st = 9 -> a \o "." \o b
        [] st = 10 -> a \o NumStr(1 + Below(Sub(k, 4), 9))
        [] OTHER -> UpperWord(b)
NameAt(k, pr) ==
  IF Chance(Sub(k, 9), pr.hard) THEN PickOf(Sub(k, 8), HardNames) ELSE PlainName(k)

-----------------------------------------------------------------------------
(* profiles: percentages, and weighted alternatives as sequences *)
AllLits == <<"string", "string", "string", "boolean", "integer", "long", "nonNegativeInteger",
  "positiveInteger", "int", "decimal", "float", "time", "date", "dateTime", "duration",
  "base64Binary", "hexBinary">>
O1 == <<"", "">>
BaseProfile ==
  [hard |-> 4,                        \* difficult names
   simples |-> 2, complexes |-> 3, elements |-> 3, \* at most this many global declarations
   depth |-> 2, kids |-> 4,
   ct |-> <<"seq", "seq", "seq", "seq", "all", "choice", "sc", "cc", "empty">>,
   part |-> <<"el", "el", "el", "el", "choice", "seq">>,
   alt |-> <<"el", "el", "el", "seq">>,
   el |-> <<"lit", "lit", "lit", "simple", "complex", "complex", "inS", "inC", "inC", "ref", "fixed", "any">>,
   occ |-> <<O1, O1, O1, <<"0", "">>, <<"0", "">>, <<"0", "unbounded">>, <<"", "unbounded">>,
             <<"1", "3">>, <<"0", "2">>>>,
   gocc |-> <<O1, O1, <<"0", "">>, <<"0", "unbounded">>, <<"", "unbounded">>, <<"0", "3">>, <<"", "2">>>>,
   lits |-> AllLits, enums |-> 50, attrs |-> 2, pattr |-> 50, docs |-> 12, fixedA |-> 15,
   files |-> 1, ns |-> <<"", "urn:a", "urn:b", "http://example.org/c#d", "urn:a/">>, qual |-> 50,
   bigEnum |-> FALSE, rec |-> 25, fp |-> 25, chain |-> 0]
Profiles == [
  general |-> BaseProfile,
  choice |-> [BaseProfile EXCEPT !.ct = <<"seq", "seq", "choice", "choice", "seq", "cc">>,
     !.part = <<"el", "choice", "choice", "seq">>, !.alt = <<"el", "el", "seq", "seq">>,
     !.el = <<"lit", "lit", "inC", "complex", "ref">>, !.attrs = 1, !.pattr = 20, !.depth = 3,
     !.lits = <<"string", "int", "boolean">>, !.simples = 1],
  occurs |-> [BaseProfile EXCEPT !.ct = <<"seq", "seq", "seq", "all", "choice", "cc">>,
     !.el = <<"lit", "lit", "simple", "complex", "inC", "ref", "fixed", "inS">>,
     !.occ = <<O1, <<"0", "">>, <<"0", "1">>, <<"0", "unbounded">>, <<"", "unbounded">>,
               <<"1", "2">>, <<"0", "2">>, <<"2", "4">>, <<"1", "1">>, <<"1", "unbounded">>, <<"", "2">>, <<"", "3">>>>,
     !.gocc = <<O1, <<"0", "">>, <<"0", "unbounded">>, <<"1", "unbounded">>, <<"2", "3">>, <<"", "2">>, <<"0", "1">>, <<"0", "2">>>>,
     !.attrs = 1, !.lits = <<"string", "int", "boolean", "decimal">>],
  allgrp |-> [BaseProfile EXCEPT !.ct = <<"all">>, !.kids = 5, !.el = <<"lit", "lit", "simple",
     "complex", "inC", "ref", "fixed", "inS">>, !.occ = <<O1, O1, <<"0", "">>, <<"0", "1">>>>,
     !.lits = <<"string", "int", "boolean", "decimal">>],
  nspace |-> [BaseProfile EXCEPT !.ns = <<"urn:a", "urn:a/", "urn:A", "http://example.org/c#d", "", "http://example.org/c">>,
     !.files = 3, !.el = <<"lit", "lit", "complex", "inC", "ref", "ref", "simple", "fixed">>, !.elements = 4,
     !.simples = 1, !.fp = 0],
  compose |-> [BaseProfile EXCEPT !.files = 4, !.elements = 4, !.complexes = 4, !.simples = 3,
     !.el = <<"lit", "simple", "complex", "complex", "ref", "ref", "inC">>, !.depth = 1, !.kids = 3, !.fp = 0],
  names |-> [BaseProfile EXCEPT !.hard = 75, !.attrs = 3, !.simples = 2, !.enums = 80, !.docs = 5],
  enums |-> [BaseProfile EXCEPT !.simples = 4, !.complexes = 1, !.enums = 100, !.elements = 2,
     !.el = <<"simple", "simple", "inS", "lit">>, !.ct = <<"seq", "all", "choice", "sc">>, !.depth = 1,
     !.pattr = 90, !.attrs = 3, !.bigEnum = TRUE],
  attrs |-> [BaseProfile EXCEPT !.attrs = 5, !.pattr = 100, !.fixedA = 25, !.kids = 2, !.depth = 1,
     !.ct = <<"seq", "sc", "cc", "empty", "choice", "all", "empty">>, !.simples = 3],
  extend |-> [BaseProfile EXCEPT !.ct = <<"sc", "cc", "cc", "seq", "cc">>, !.complexes = 5, !.simples = 2,
     !.elements = 2, !.kids = 3, !.depth = 1, !.el = <<"lit", "complex", "complex", "simple", "inC">>],
  lits |-> [BaseProfile EXCEPT !.el = <<"lit", "lit", "lit", "inS", "simple", "fixed">>, !.enums = 0,
     !.simples = 3, !.depth = 1, !.kids = 6, !.ct = <<"seq", "seq", "sc", "all", "choice">>, !.attrs = 3],
  docs |-> [BaseProfile EXCEPT !.docs = 80, !.hard = 0],
  closure |-> [BaseProfile EXCEPT !.elements = 4, !.complexes = 5, !.simples = 3, !.kids = 3,
     !.el = <<"lit", "simple", "complex", "complex", "ref", "ref", "inC", "inS">>, !.depth = 2, !.rec = 60],
  \* many members, alternatives, attributes and items
  wide |-> [BaseProfile EXCEPT !.ct = <<"seq", "all", "choice", "seq", "cc">>, !.kids = 12, !.attrs = 9, !.pattr = 60,
     !.depth = 1, !.elements = 2, !.complexes = 2, !.hard = 0, !.docs = 3,
     !.el = <<"lit", "lit", "lit", "simple", "complex", "fixed", "inS">>, !.part = <<"el", "el", "el", "el", "el", "el", "choice">>,
     !.alt = <<"el", "el", "el", "el", "el", "seq">>,
     !.occ = <<O1, O1, O1, <<"0", "">>, <<"0", "">>, <<"0", "unbounded">>, <<"", "unbounded">>, <<"0", "10">>, <<"3", "12">>, <<"", "100">>, <<"0", "300">>, <<"0", "4294967295">>, <<"10", "unbounded">>>>,
     !.gocc = <<O1, <<"0", "">>, <<"0", "unbounded">>, <<"", "9">>, <<"2", "20">>, <<"0", "256">>>>],
  \* types in types, and long chains of extensions
  deep |-> [BaseProfile EXCEPT !.kids = 2, !.depth = 5, !.el = <<"inC", "inC", "inC", "lit", "complex", "ref">>, !.attrs = 1,
     !.part = <<"el", "el", "choice", "seq">>, !.alt = <<"el", "el", "seq">>, !.complexes = 2, !.elements = 2, !.simples = 1,
     !.ct = <<"seq", "seq", "seq", "choice", "all", "cc">>, !.lits = <<"string", "int", "boolean">>, !.docs = 3],
  chain |-> [BaseProfile EXCEPT !.ct = <<"cc", "cc", "cc", "cc", "seq">>, !.complexes = 8, !.simples = 1, !.elements = 2,
     !.kids = 2, !.depth = 1, !.el = <<"lit", "lit", "simple", "complex">>, !.files = 3, !.chain = 90, !.fp = 0,
     !.ns = <<"urn:a", "urn:b", "urn:c">>],
  \* many files in many namespaces
  many |-> [BaseProfile EXCEPT !.files = 12, !.elements = 9, !.complexes = 9, !.simples = 4, !.kids = 3, !.depth = 1, !.fp = 0,
     !.el = <<"lit", "simple", "complex", "complex", "ref", "ref", "ref">>, !.hard = 0,
     !.ns = <<"urn:a", "urn:b", "urn:c", "urn:d", "urn:e", "urn:f", "urn:g", "urn:h", "urn:i", "urn:j", "urn:k", "urn:l">>],
  strings |-> [BaseProfile EXCEPT !.lits = <<"string">>, !.el = <<"lit", "lit", "simple", "inC">>,
     !.simples = 1, !.enums = 20, !.attrs = 3, !.pattr = 80, !.kids = 3, !.depth = 1] ]

-----------------------------------------------------------------------------
(* the environment of a file: path, target namespace, element form, prefixes *)
NsPrefixes == <<"t", "n1", "abc", "p", "ns-x", "a.b", "_u", "Z", "x1", "tns", "ns1", "ns2", "~p">>
OwnNs(cx, f) == cx.files[f].tns
\* a reference, written in file f, to a name in the namespace u
QRef(cx, f, u, n) ==
  LET i == FirstIx(cx.files[f].nsd, LAMBDA d : d.u = u) IN
  IF u = "" \/ cx.files[f].nsd[i].p = "" THEN n ELSE cx.files[f].nsd[i].p \o ":" \o n
XRef(cx, f, n) == QRef(cx, f, XS, n)
ItemRef(cx, f, j) == QRef(cx, f, OwnNs(cx, cx.items[j].f), cx.items[j].n)

DocPool == << "Simple docs.", "  padded   text ", "line one\nline two\n\tline three",
  "quotes \" and \\ back", "{e}moji {snow} &lt;b&gt;", "*/ end", "//! x", "#[cfg(foo)] mod x {", "a",
  "raw \"# and \"## and r#\"x\"#", "{{}} {0} {name}", "{long}", "{book}", " \n\t ", "\n\n  first\n\n  second paragraph\n", "\\", "\"", "/// slashes", "/*", "*/ /** x",
  "one\n   two\n      three\n", "$x ${y} $$", "'a 'static", "&amp; &#65;", "\ttab\tinside", "- list\n- of\n- things", "ends with back\\" >>
DocNode(k) ==
  CASE Below(Sub(k, 1), 12) = 0 -> TextN("documentation", "")
    [] Below(Sub(k, 1), 12) = 1 ->
         [TextN("documentation", "see ") EXCEPT !.k = << [TextN("b", "bold ") EXCEPT !.x = FALSE], [TextN("i", "words") EXCEPT !.x = FALSE] >>]
    [] Below(Sub(k, 1), 12) = 2 -> [TextN("documentation", PickOf(Sub(k, 2), DocPool)) EXCEPT !.a = <<[n |-> "lang", v |-> "en", f |-> TRUE]>>]
    [] OTHER -> TextN("documentation", PickOf(Sub(k, 2), DocPool))
Annot1(k, cx) ==
  IF Chance(Sub(k, 91), cx.pr.docs)
  THEN LET n == PickOf(Sub(k, 93), <<1, 1, 1, 1, 1, 1, 0, 2, 2, 3>>) IN
       << N("annotation", <<>>, TLCEval([i \in 1..n |-> DocNode(Sub(Sub(k, 92), i))])) >>
  ELSE <<>>

-----------------------------------------------------------------------------
(* simple types *)
EnumSets == << <<"red", "green", "blue">>, <<"A", "a">>, <<"1", "2", "10">>, <<"x">>,
  <<"", "x">>, <<"foo-bar", "foo_bar", "foo bar">>, <<"+", "-", "*", "/">>,
  <<"self", "Self", "type", "crate">>, <<"US", "us", "Us", "uS">>, <<"1.0", "1.1", "2.0">>,
  <<"variant1", "?", "Variant1", "!", "Variant2">>, <<"~", "^", "abc", "x~Y">>, <<"a&b", "a<b", "\"q\"">>,
  <<"two words", "two-words", "TwoWords">>, <<"None", "Some", "Ok">>, <<"0", "00", "000">>,
  <<"true", "false">>, <<"N/A", "NA">>, <<"a", "b", "c", "d", "e", "f", "g">>, <<" lead", "lead", "trail ">>,
  <<"V1", "1">>, <<"@", "V@", "@a", "1@">>, <<"m", "m`", "cm`", "`">>, <<"-1", "1">>, <<"_", "__", "-">>, <<"async", "gen", "try">>, <<"Variant2", "?", "!">>,
  <<"ABCdef", "AbcDef", "abc_def">>, <<"x1", "X1", "x-1">>, <<"Variant1", "Variant3", "#", "##", "###">>,
  <<"!", "#", "$", "%", "&", "(", ")", "*", "+", ",", ".", ":", ";">>,
  <<"Variant10", "!", "#", "$", "%", "&", "(", ")", "*", "+", ",", "Variant12", ".", ":">>,
  <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "01", "02", "V1", "V10">>,
  <<"variant1", "variant_1", "Variant-1", "1", "variant2", "?">>,
  MapS(Idx(120), LAMBDA i : "c" \o NumStr(i)), MapS(Idx(35), LAMBDA i : Cat(MapS(Idx(i), LAMBDA x : "#"))) >>
FacetFor(lit, k) ==
  CASE lit \in {"string", "base64Binary", "hexBinary"} ->
         PickOf(k, << N("maxLength", <<A("value", "10")>>, <<>>), N("minLength", <<A("value", "1")>>, <<>>),
                      N("length", <<A("value", "4")>>, <<>>), N("pattern", <<A("value", "[A-Z]+")>>, <<>>),
                      N("maxLength", <<A("value", "0")>>, <<>>), N("minLength", <<A("value", "18446744073709551615")>>, <<>>) >>)
    [] lit \in {"decimal"} ->
         PickOf(k, << N("fractionDigits", <<A("value", "2")>>, <<>>), N("totalDigits", <<A("value", "9")>>, <<>>),
                      N("minInclusive", <<A("value", "-1.5")>>, <<>>), N("maxInclusive", <<A("value", "99")>>, <<>>) >>)
    [] lit \in {"integer", "long", "int", "nonNegativeInteger", "positiveInteger", "float"} ->
         PickOf(k, << N("minInclusive", <<A("value", "0")>>, <<>>), N("maxInclusive", <<A("value", "1000")>>, <<>>) >>)
    [] OTHER -> N("pattern", <<A("value", ".*")>>, <<>>)
SimpleNode(k, cx, f, name) ==
  LET isEnum == Chance(Sub(k, 1), cx.pr.enums)
      lit == PickOf(Sub(k, 2), cx.pr.lits)
      vals == PickOf(Sub(k, 3), EnumSets)
      facets == TLCEval([i \in 1..Below(Sub(k, 4), 3) |-> FacetFor(lit, Sub(Sub(k, 5), i))])
      kids == IF isEnum THEN MapS(vals, LAMBDA v : N("enumeration", <<A("value", v)>>, <<>>)) ELSE facets
  IN  N("simpleType", AIf(name # "", "name", name),
        Annot1(k, cx) \o
        << N("restriction", <<A("base", XRef(cx, f, IF isEnum THEN "string" ELSE lit))>>, kids) >>)

-----------------------------------------------------------------------------
(* complex types and elements.  i is the index of the global declaration the  *)
(* construct is in: declarations with a lower index may be referred to freely,*)
(* others only by repeatable elements                                         *)
OccAttrs(o) == AIf(o[1] # "", "minOccurs", o[1]) \o AIf(o[2] # "", "maxOccurs", o[2])
IsRep(o) == o[2] \notin {"", "1"}
\* candidates of a kind
ItemsOf(cx, ts, i, all) ==
  SelectSeq(Idx(Len(cx.items)), LAMBDA j : cx.items[j].t \in ts /\ (all \/ j < i))
ConstVal(lit, k) ==
  PickOf(k, CASE lit \in {"boolean"} -> <<"true", "false">>
              [] lit \in {"integer", "long", "nonNegativeInteger", "positiveInteger", "int"} -> <<"1", "42">>
              [] lit \in {"decimal", "float"} -> <<"1.5", "2">>
              [] OTHER -> <<"fix", "{e}", "a b", "v1.0", "a\"b", "", " pad ", "<&>", "two  spaces", "0", "{snow}", "{}", "\\n", "{long}">>)

RECURSIVE ElNode(_, _, _, _, _, _, _), GroupNode(_, _, _, _, _, _), PartNode(_, _, _, _, _, _),
          CtNode(_, _, _, _, _, _)

AttrNode(k, cx, f, i, name) ==
  LET simple == ItemsOf(cx, {"S"}, i, TRUE)
      lit == PickOf(Sub(k, 1), cx.pr.lits)
      kind == PickOf(Sub(k, 2), <<"lit", "lit", "simple", "inline">>)
      fixed == Chance(Sub(k, 3), cx.pr.fixedA)
      use == PickOf(Sub(k, 4), <<"", "optional", "required", "required", "required", "", "prohibited">>)
      dflt == kind = "lit" /\ ~fixed /\ use # "required" /\ Chance(Sub(k, 5), 20)
      an == Annot1(k, cx)
      us == AIf(use # "", "use", use)
  IN  IF kind = "inline" THEN N("attribute", <<A("name", name)>> \o us, an \o << SimpleNode(Sub(k, 6), cx, f, "") >>)
      ELSE IF kind = "simple" /\ simple # <<>>
      THEN N("attribute", <<A("name", name), A("type", ItemRef(cx, f, PickOf(Sub(k, 7), simple)))>> \o us, an)
      ELSE N("attribute", <<A("name", name), A("type", XRef(cx, f, lit))>> \o us
               \o AIf(fixed, "fixed", ConstVal(lit, Sub(k, 8)))
               \o AIf(dflt, "default", ConstVal(lit, Sub(k, 9))), an)
AttrNodesOf(k, cx, f, i) ==
  LET n == IF Chance(Sub(k, 80), cx.pr.pattr) THEN Below(Sub(k, 81), cx.pr.attrs + 1) ELSE 0 IN
  TLCEval([j \in 1..n |-> LET kk == Sub(Sub(k, 82), j) IN AttrNode(kk, cx, f, i, NameAt(Sub(kk, 20), cx.pr))])

\* an element particle; o: its occurrence attributes
ElNode(k, cx, f, i, d, o, inAll) ==
  LET kind == PickOf(Sub(k, 1), cx.pr.el)
      name == NameAt(Sub(k, 2), cx.pr)
      \* ten of itself within itself would be no document at all
      free == IsRep(o) /\ o[1] # "10" /\ Chance(Sub(k, 3), cx.pr.rec)
      simple == ItemsOf(cx, {"S"}, i, TRUE)
      cplx == ItemsOf(cx, {"C"}, i, free)
      elems == ItemsOf(cx, {"E"}, i, free)
      lit == PickOf(Sub(k, 4), cx.pr.lits)
      an == Annot1(k, cx)
      at == <<A("name", name)>> \o OccAttrs(o)
      typed(t) == N("element", <<A("name", name), A("type", t)>> \o OccAttrs(o), an)
  IN  CASE kind = "simple" /\ simple # <<>> -> typed(ItemRef(cx, f, PickOf(Sub(k, 5), simple)))
        [] kind = "complex" /\ cplx # <<>> -> typed(ItemRef(cx, f, PickOf(Sub(k, 6), cplx)))
        [] kind = "ref" /\ elems # <<>> ->
             N("element", <<A("ref", ItemRef(cx, f, PickOf(Sub(k, 7), elems)))>> \o OccAttrs(o), <<>>)
        [] kind = "inS" -> N("element", at, an \o << SimpleNode(Sub(k, 8), cx, f, "") >>)
        [] kind = "inC" /\ d > 0 -> N("element", at, an \o << CtNode(Sub(k, 9), cx, f, i, d - 1, "") >>)
        [] kind = "fixed" ->
             N("element", <<A("name", name), A("type", XRef(cx, f, lit)),
                            A("fixed", ConstVal(lit, Sub(k, 10)))>> \o OccAttrs(o), an)
        [] kind = "any" -> N("element", at, an)
        [] OTHER -> typed(XRef(cx, f, lit))

\* a member of a sequence
PartNode(k, cx, f, i, d, kinds) ==
  LET kind == PickOf(Sub(k, 1), kinds)
      o == PickOf(Sub(k, 2), cx.pr.occ)
      g == PickOf(Sub(k, 3), cx.pr.gocc)
      inner == GroupNode(Sub(k, 4), cx, f, i, d - 1, kind)
      so == IF "seq" \in Range(cx.pr.alt) /\ kinds = cx.pr.alt THEN g ELSE <<IF g[1] = "0" THEN "0" ELSE "", "">>
  IN  IF kind = "el" \/ d <= 0 THEN ElNode(Sub(k, 5), cx, f, i, d, o, FALSE)
      ELSE IF kind = "choice" THEN [inner EXCEPT !.a = OccAttrs(g)]
      ELSE [inner EXCEPT !.a = OccAttrs(so)]

\* a sequence or choice with members
GroupNode(k, cx, f, i, d, kind) ==
  LET n == (IF kind = "choice" THEN 2 ELSE 1) + Below(Sub(k, 1), Max2(1, cx.pr.kids - 1))
      kinds == IF kind = "choice" THEN cx.pr.alt ELSE cx.pr.part
      fill(p) == \* an alternative that may be empty is rare
        IF kind = "choice" /\ Has(p, "minOccurs") /\ AVal(p, "minOccurs") = "0" /\ Chance(Sub(k, 3), 60)
        THEN [p EXCEPT !.a = Filter(@, LAMBDA x : x.n # "minOccurs")] ELSE p
  IN  N(IF kind = "choice" THEN "choice" ELSE "sequence", <<>>,
        TLCEval([j \in 1..n |-> fill(PartNode(Sub(Sub(k, 2), j), cx, f, i, d, kinds))]))

CtNode(k, cx, f, i, d, name) ==
  LET kind == PickOf(Sub(k, 1), cx.pr.ct)
      at == AttrNodesOf(Sub(k, 2), cx, f, i)
      g == PickOf(Sub(k, 3), cx.pr.gocc)
      sup == ItemsOf(cx, {"S"}, i, TRUE)
      base == ItemsOf(cx, {"C"}, i, FALSE)
      scBase == IF sup # <<>> /\ Chance(Sub(k, 4), 40) THEN ItemRef(cx, f, PickOf(Sub(k, 5), sup))
                ELSE XRef(cx, f, PickOf(Sub(k, 6), cx.pr.lits))
      an == Annot1(k, cx)
      seqD == IF Chance(Sub(k, 7), 75) THEN O1 ELSE g
      sq == [GroupNode(Sub(k, 8), cx, f, i, d, "seq") EXCEPT !.a = OccAttrs(seqD)]
      allKids == TLCEval([j \in 1..(1 + Below(Sub(k, 9), cx.pr.kids)) |->
                   ElNode(Sub(Sub(k, 10), j), cx, f, i, d,
                          PickOf(Sub(Sub(k, 11), j), <<O1, <<"0", "">>, O1, <<"0", "1">>>>), TRUE)])
      ext(b, kids) == << N("extension", <<A("base", b)>>, kids) >>
      hasSeq == Chance(Sub(k, 12), 65)
      sq1 == [sq EXCEPT !.a = IF g[1] = "0" /\ Chance(Sub(k, 13), 30) THEN <<A("minOccurs", "0")>> ELSE <<>>]
      kids == CASE kind = "all" -> << N("all", IF Chance(Sub(k, 14), 15) THEN <<A("minOccurs", "0")>> ELSE <<>>, allKids) >> \o at
                [] kind = "choice" -> << GroupNode(Sub(k, 8), cx, f, i, d, "choice") >> \o at
                [] kind = "sc" -> << N("simpleContent", <<>>, ext(scBase, at)) >>
                [] kind = "cc" /\ base # <<>> ->
                     << N("complexContent", <<>>,
                          ext(ItemRef(cx, f, IF Chance(Sub(k, 16), cx.pr.chain) THEN base[Len(base)] ELSE PickOf(Sub(k, 15), base)), (IF hasSeq THEN <<sq1>> ELSE <<>>) \o at)) >>
                [] kind = "empty" -> at
                [] OTHER -> <<sq>> \o at
  IN  N("complexType", AIf(name # "", "name", name), an \o kids)

GlobalElement(k, cx, f, i, name) ==
  LET kind == PickOf(Sub(k, 1), <<"complex", "inC", "inC", "inC", "lit", "simple", "inS", "fixed", "elType">>)
      cplx == ItemsOf(cx, {"C"}, i, TRUE)
      simple == ItemsOf(cx, {"S"}, i, TRUE)
      lit == PickOf(Sub(k, 2), cx.pr.lits)
      an == Annot1(k, cx)
      typed(t) == N("element", <<A("name", name), A("type", t)>>, an)
  IN  CASE kind = "complex" /\ cplx # <<>> -> typed(ItemRef(cx, f, PickOf(Sub(k, 3), cplx)))
        [] kind = "simple" /\ simple # <<>> -> typed(ItemRef(cx, f, PickOf(Sub(k, 4), simple)))
        [] kind = "lit" -> typed(XRef(cx, f, lit))
        [] kind = "inS" -> N("element", <<A("name", name)>>, an \o << SimpleNode(Sub(k, 5), cx, f, "") >>)
        [] kind = "fixed" -> N("element", <<A("name", name), A("type", XRef(cx, f, lit)),
                                            A("fixed", ConstVal(lit, Sub(k, 6)))>>, an)
        [] OTHER -> N("element", <<A("name", name)>>, an \o << CtNode(Sub(k, 7), cx, f, i, cx.pr.depth, "") >>)
ItemNode(k, cx, i) ==
  LET it == cx.items[i] IN
  CASE it.t = "S" -> SimpleNode(k, cx, it.f, it.n)
    [] it.t = "C" -> CtNode(k, cx, it.f, i, cx.pr.depth, it.n)
    [] it.t = "E" -> GlobalElement(k, cx, it.f, i, it.n)

-----------------------------------------------------------------------------
(* files *)
Paths == << <<"main.xsd">>, <<"common.xsd">>, <<"sub", "types.xsd">>, <<"sub", "deep", "more.xsd">>,
            <<"other", "x.xsd">>, <<"no extension">>, <<"sp ace", "a b.xsd">>, <<"sub", "types.v2.xsd">>,
            <<"~t~", "x.xsd">>, <<"other", "deep", "er", "y.XSD">>, <<"x.xsd">>, <<"sub", "main.xsd">> >>
RelLoc(from, to) ==
  LET df == Len(from) - 1
      same == {c \in 0..Min2(df, Len(to) - 1) : SubSeq(from, 1, c) = SubSeq(to, 1, c)}
      c == CHOOSE c \in same : \A x \in same : x <= c
  IN  TLCEval([i \in 1..(df - c) |-> ".."]) \o SubSeq(to, c + 1, Len(to))
JoinPath(segs) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "/" \o b, "", segs)
LinkNode(from, to, k) ==
  LET loc0 == RelLoc(from.path, to.path)
      df == Len(from.path) - 1
      \* now and then a way round
      loc == CASE Chance(Sub(k, 1), 25) -> <<".">> \o loc0
               [] df > 0 /\ Chance(Sub(k, 2), 25) -> <<"..", from.path[df]>> \o loc0
               [] df > 0 /\ Chance(Sub(k, 3), 15) -> <<".", "..", ".", from.path[df], ".">> \o loc0
               [] OTHER -> loc0
      same == from.tns = to.tns
  IN  [t |-> IF same THEN "include" ELSE "import", x |-> TRUE,
       a |-> AIf(~same /\ to.tns # "", "namespace", to.tns) \o <<A("schemaLocation", JoinPath(loc))>>,
       k |-> <<>>, s |-> "", p |-> <<>>, loc |-> loc]

MkFile(path, root, nsd, tns, qual) ==
  [path |-> path, root |-> root, nsd |-> nsd, tns |-> tns, qual |-> qual, form |-> "ok"]
RootAttrs(tns, qual) ==
  AIf(tns # "", "targetNamespace", tns) \o AIf(qual, "elementFormDefault", "qualified")

\* foreign attributes and elements in schema documents change nothing
Sprinkle(k, node, pr) ==
  IF ~Chance(Sub(k, 1), pr.fp) THEN node
  ELSE [node EXCEPT !.a = @ \o IF Chance(Sub(k, 2), 50) THEN <<[n |-> "note", v |-> "x", f |-> TRUE]>> ELSE <<>>]

\* a schema of several global declarations in one or more files
RandomFiles(k, pr) ==
  LET nf == 1 + Below(Sub(k, 1), pr.files)
      nsPool == Shuffle(Sub(k, 2), pr.ns)
      noNs == pr.files = 1 /\ nsPool[1] = ""
      tnsOf == TLCEval([f \in 1..nf |-> IF f = 1 \/ Chance(Sub(Sub(k, 3), f), 45) THEN nsPool[1]
                                ELSE nsPool[1 + ((f - 1) % Len(nsPool))]])
      \* prefixes: none of the files has a default namespace when one has no namespace
      plain == "" \in Range(tnsOf)
      used == SelectSeq(pr.ns, LAMBDA u : u # "" /\ u \in Range(tnsOf))
      nsdOf(f) ==
        LET ps == Shuffle(Sub(Sub(k, 4), f), NsPrefixes)
            xp == IF ~plain /\ Chance(Sub(Sub(k, 5), f), 15) THEN ""
                  ELSE PickOf(Sub(Sub(k, 6), f), <<"xs", "xsd", "xs", "s">>)
            own(u, j) == IF u = tnsOf[f] /\ ~plain /\ xp # "" /\ Chance(Sub(Sub(k, 7), f), 40) THEN "" ELSE ps[j]
        IN  << [p |-> xp, u |-> XS] >> \o TLCEval([j \in 1..Len(used) |-> [p |-> own(used[j], j), u |-> used[j]]])
      qualOf == TLCEval([f \in 1..nf |-> Chance(Sub(Sub(k, 8), f), pr.qual)])
      fs == TLCEval([f \in 1..nf |-> [path |-> Paths[f], tns |-> tnsOf[f], nsd |-> nsdOf(f), qual |-> qualOf[f]]])
      nS == Below(Sub(k, 9), pr.simples + 1)
      nC == Below(Sub(k, 10), pr.complexes + 1)
      nE == 1 + Below(Sub(k, 11), pr.elements)
      n == nS + nC + nE
      kinds == TLCEval([j \in 1..n |-> IF j <= nS THEN "S" ELSE IF j <= nS + nC THEN "C" ELSE "E"])
      mixed == Shuffle(Sub(k, 12), kinds)
      order == IF Chance(Sub(k, 13), 30) THEN mixed ELSE kinds
      items == TLCEval([j \in 1..n |-> [t |-> order[j], f |-> 1 + Below(Sub(Sub(k, 14), j), nf),
                                n |-> LET b == NameAt(Sub(Sub(k, 15), j), pr) IN
                                      IF order[j] = "E" THEN b
                                      ELSE IF Chance(Sub(Sub(k, 16), j), 70) THEN b \o "Type" ELSE b]])
      cx == [pr |-> pr, files |-> fs, items |-> items]
      nodesOf(f) ==
        LET ix == Shuffle(Sub(Sub(k, 17), f), SelectSeq(Idx(n), LAMBDA j : items[j].f = f))
        IN  MapS(ix, LAMBDA j : Sprinkle(Sub(Sub(k, 18), j), ItemNode(Sub(Sub(k, 19), j), cx, j), pr))
      parent == TLCEval([f \in 1..nf |-> IF f = 1 THEN 0 ELSE 1 + Below(Sub(Sub(k, 20), f), f - 1)])
      links(f) == SelectSeq(Idx(nf), LAMBDA g : g # f /\ (parent[g] = f \/ Chance(Sub(Sub(k, 21), f * 7 + g), 35)))
      linkNodes(f) == MapS(links(f), LAMBDA g : LinkNode(fs[f], fs[g], Sub(Sub(k, 22), f * 7 + g)))
  IN  TLCEval([f \in 1..nf |->
        MkFile(fs[f].path, N("schema", RootAttrs(fs[f].tns, fs[f].qual), linkNodes(f) \o nodesOf(f)),
               fs[f].nsd, fs[f].tns, fs[f].qual)])

-----------------------------------------------------------------------------
(* values.  Literals are written as one of their lexical representations here *)
(* (raw); Canon turns that into the value                                     *)
RECURSIVE Canon(_)
Canon(x) ==
  CASE x.v = "lit" -> VLit(x.l, Parse(x.l, x.s).v)
    [] x.v \in {"unit", "none"} -> x
    [] x.v = "some" -> VSome(Canon(x.o))
    [] x.v = "vec" -> VVec(MapS(x.es, Canon))
    [] x.v = "st" -> VSt(x.n, MapS(x.fs, LAMBDA f : FV(f.n, Canon(f.x))))
    [] x.v = "tu" -> VTu(x.n, Canon(x.x))
    [] x.v = "en" -> VEn(x.n, x.var, MapS(x.pl, Canon))

RECURSIVE RawContent(_, _, _, _), RawRoot(_, _, _, _), RawLeaf(_, _, _, _, _)
RawContent(sc, c, k, d) ==
  CASE c.c = "lit" -> VLit(c.l, PickOf(Sub(k, 1), GoodPool[c.l]))
    [] c.c = "fixed" -> VUnit
    [] OTHER -> IF sc.roots[c.nm].k = "leaf" THEN RawContent(sc, sc.roots[c.nm].c, k, d)
                ELSE RawRoot(sc, c.nm, k, d)
\* n items of a leaf; items of a group that would be written as nothing are left out
RawMany(sc, l, k, d, n) ==
  LET es == TLCEval([j \in 1..n |-> RawContent(sc, l.c, Sub(k, j), d - 1)]) IN
  IF l.virt THEN SelectSeq(es, LAMBDA x : EncContent(sc, l.c, x).k # <<>>) ELSE es
RawLeaf(sc, l, k, d, filled) ==
  LET \* now and then a long list
      more == IF d >= 3 /\ ~l.virt /\ Chance(Sub(k, 4), 7) THEN 9 + Below(Sub(k, 5), 12) ELSE 2
      least == Min2(l.min, 99)
      hi == IF l.max = Unbounded THEN Max2(least, 1) + more ELSE Min2(l.max, Max2(least, 1) + more)
      lo == IF filled THEN Max2(1, least) ELSE least
      n == IF d <= -2 THEN (IF filled THEN lo ELSE 0)
           ELSE IF d <= 0 THEN lo
           ELSE lo + Below(Sub(k, 1), (IF d >= 3 THEN hi - lo ELSE Min2(hi - lo, 1)) + 1)
      es == RawMany(sc, l, Sub(k, 2), d, n)
      one == RawMany(sc, l, Sub(k, 2), d, 1)
  IN  IF IsVec(l)
      THEN IF IsOpt(l) /\ ~filled THEN (IF es = <<>> THEN VNone ELSE VSome(VVec(es)))
           ELSE VVec(es)
      ELSE IF IsOpt(l) /\ ~filled
      THEN IF d <= 0 \/ Chance(Sub(k, 3), 45) \/ one = <<>> THEN VNone ELSE VSome(one[1])
      ELSE RawContent(sc, l.c, Sub(Sub(k, 2), 1), d - 1)
RawRoot(sc, nm, k, d) ==
  LET r == sc.roots[nm]
      tn == r.id
  IN  CASE r.k = "leaf" -> VTu(tn, RawContent(sc, r.c, k, d))
        [] r.k = "enum" -> VEn(tn, PickOf(Sub(k, 1), r.vs).var, <<>>)
        [] r.k = "choice" ->
             LET l == PickOf(Sub(k, 2), r.vars) IN
             VEn(tn, l.v, << RawLeaf(sc, l, Sub(k, 3), d, TRUE) >>)
        [] r.k = "elem" ->
             LET content ==
                   CASE r.ck = "none" -> <<>>
                     [] r.ck = "leaf" -> << FV(FieldIdent(r.ln.n), RawContent(sc, r.lc, Sub(k, 4), d)) >>
                     [] OTHER -> TLCEval([j \in 1..Len(r.leaves) |->
                                   FV(r.leaves[j].f,
                                      RawLeaf(sc, r.leaves[j], Sub(Sub(k, 5), j), d, FALSE))])
                 at == TLCEval([j \in 1..Len(r.attrs) |->
                         LET a == r.attrs[j]
                             kk == Sub(Sub(k, 6), j)
                             y == RawContent(sc, a.c, kk, d)
                             \* (tabs in attributes are a known finding)
                             x == IF y.v = "lit" /\ y.l \in Textual /\ IndexOfCh(y.s, "\t") # 0
                                  THEN VLit(y.l, "t") ELSE y
                         IN  FV(a.f,
                                IF ~a.opt THEN x ELSE IF Chance(Sub(kk, 7), 40) THEN VNone ELSE VSome(x))])
             IN  VSt(tn, content \o at)

\* the number of items is as the schema says (the types cannot express that), and no value stands
\* for nothing where there is another way to say so
RECURSIVE BoundedC(_, _, _), BoundedLeaf(_, _, _, _)
BoundedLeaf(sc, l, x, filled) ==
  LET opt == IsOpt(l) /\ ~filled
      y == IF ~opt THEN <<x>> ELSE IF x.v = "none" THEN <<>> ELSE <<x.o>>
      es == IF y = <<>> THEN <<>> ELSE IF IsVec(l) THEN y[1].es ELSE y
  IN  /\ y # <<>> /\ IsVec(l) => Len(es) >= Max2(l.min, 1) /\ (l.max = Unbounded \/ Len(es) <= l.max)
      /\ \A i \in 1..Len(es) :
           /\ BoundedC(sc, l.c, es[i])
           /\ (l.virt /\ (opt \/ IsVec(l) \/ filled)) => EncContent(sc, l.c, es[i]).k # <<>>
BoundedC(sc, c, x) ==
  IF c.c # "named" THEN TRUE
  ELSE LET r == sc.roots[c.nm] IN
       CASE r.k = "leaf" -> BoundedC(sc, r.c, IF x.v = "tu" THEN x.x ELSE x)
         [] r.k = "enum" -> TRUE
         [] r.k = "choice" ->
              BoundedLeaf(sc, r.vars[FirstIx(r.vars, LAMBDA v : v.v = x.var)], x.pl[1], TRUE)
         [] r.k = "elem" ->
              CASE r.ck = "none" -> TRUE
                [] r.ck = "leaf" -> BoundedC(sc, r.lc, x.fs[1].x)
                [] OTHER -> \A i \in 1..Len(r.leaves) : BoundedLeaf(sc, r.leaves[i], x.fs[i].x, FALSE)
Bounded(sc, nm, x) == BoundedC(sc, NamedC(nm), x)

-----------------------------------------------------------------------------
(* changes to documents *)
RECURSIVE ElPaths(_, _)
ElPaths(el, p) == <<p>> \o Flat(TLCEval([i \in 1..Len(el.k) |-> ElPaths(el.k[i], Append(p, i))]))
RECURSIVE At(_, _)
At(el, p) == IF p = <<>> THEN el ELSE At(el.k[p[1]], Tail(p))
RECURSIVE Put(_, _, _)
Put(el, p, new) == IF p = <<>> THEN new ELSE [el EXCEPT !.k[p[1]] = Put(@, Tail(p), new)]

Changes == <<"drop", "dup", "swap", "rename", "ns", "foreign", "adrop", "adrop", "aadd", "text", "text", "attr",
             "attr", "shuffle", "move", "fillText", "empty", "aren", "swapNames", "graft",
             "near", "near", "near", "anear", "anear", "aforeign", "aforeign", "axsi", "drop", "root">>
\* almost the same
Cut(s) == SubSeq(s, 1, Len(s) - 1)
UpperAll(s) == Cat(MapS(Chars(s), ToUp))
NearText(s, k) ==
  PickOf(k, << Cut(s), SubSeq(s, 2, Len(s)), s \o "x", "x" \o s, s \o " ", " " \o s, UpperAll(s), s \o "0",
               IF Len(s) <= 6 THEN s \o s ELSE Cut(s), s \o ".", "" >>)
NearName(n, k) ==
  PickOf(k, << n \o "X", n \o "X", n \o "1", n \o "_", IF Len(n) > 1 THEN Cut(n) ELSE n \o "s", UpperAll(n) \o "", Cap(n), "x" \o n >>)
NearNs(u, k) ==
  IF u = "" THEN PickOf(k, <<"urn:else", "urn:a", "urn:b">>)
  ELSE PickOf(k, <<"", "", "urn:else", u \o "/", Cut(u), UpperAll(u), u \o "#", "urn:a", "urn:b">>)
TextPool == <<"", "zzz", "true", "12", "-3", "1.25", "x y", "2147483648", "18446744073709551616", "NaN?", "a<b&c">>
\* the changed document; a change that does not apply leaves it as it is
Mutate(doc, k, whats) ==
  LET ps == ElPaths(doc, <<>>)
      p == PickOf(Sub(k, 1), ps)
      \* prefer elements that have what is changed
      what == PickOf(Sub(k, 2), whats)
      cand == SelectSeq(ps, LAMBDA q : LET e == At(doc, q) IN
                CASE what \in {"drop", "dup", "foreign", "rename", "ns", "graft"} -> e.k # <<>>
                  [] what \in {"swap", "shuffle", "move", "swapNames"} -> Len(e.k) > 1
                  [] what \in {"adrop", "attr", "aren", "anear", "aforeign"} -> e.a # <<>>
                  [] what \in {"text", "near"} -> e.m = "t"
                  [] what = "root" -> q = <<>>
                  [] what = "fillText" -> e.k # <<>>
                  [] OTHER -> TRUE)
      q == PickOf(Sub(k, 3), cand)
      e == At(doc, q)
      n == Len(e.k)
      i == 1 + Below(Sub(k, 4), n)
      j == 1 + Below(Sub(k, 5), n)
      na == Len(e.a)
      ai == 1 + Below(Sub(k, 6), na)
      stranger == El(PickOf(Sub(k, 7), <<"stranger", "user", "item">>), PickOf(Sub(k, 8), <<"", e.u, "urn:else">>),
                     <<>>, <<>>, "s", "t")
      new ==
        CASE what = "drop" -> [e EXCEPT !.k = RemoveAtIx(@, i)]
          [] what = "dup" -> [e EXCEPT !.k = InsertAtIx(@, i, e.k[i])]
          [] what = "swap" -> [e EXCEPT !.k[i] = e.k[j], !.k[j] = e.k[i]]
          [] what = "swapNames" -> [e EXCEPT !.k[i].n = e.k[j].n, !.k[j].n = e.k[i].n]
          [] what = "rename" -> [e EXCEPT !.k[i].n = NearName(@, Sub(k, 15))]
          [] what = "ns" -> [e EXCEPT !.k[i].u = NearNs(@, Sub(k, 9))]
          [] what = "foreign" -> [e EXCEPT !.k = InsertAtIx(@, 1 + Below(Sub(k, 10), n + 1), stranger)]
          [] what = "graft" -> [e EXCEPT !.k[i] = [stranger EXCEPT !.n = e.k[i].n, !.u = e.k[i].u]]
          [] what = "shuffle" -> [e EXCEPT !.k = Shuffle(Sub(k, 11), @)]
          [] what = "move" -> [e EXCEPT !.k = Append(RemoveAtIx(@, i), e.k[i])]
          [] what = "adrop" -> [e EXCEPT !.a = RemoveAtIx(@, ai)]
          [] what = "attr" -> [e EXCEPT !.a[ai].v = PickOf(Sub(k, 12), TextPool)]
          [] what = "aren" -> LET nn == NearName(e.a[ai].n, Sub(k, 16)) IN
                              IF AttrIx(e, nn) # 0 THEN e ELSE [e EXCEPT !.a[ai].n = nn]
          [] what = "anear" -> [e EXCEPT !.a[ai].v = NearText(@, Sub(k, 17))]
          \* an attribute of the same local name in a namespace: instead of, before or after it
          [] what = "aforeign" ->
               LET u == PickOf(Sub(k, 18), <<"urn:else", IF e.u = "" THEN "urn:a" ELSE e.u>>)
                   other == [n |-> e.a[ai].n, u |-> u, v |-> PickOf(Sub(k, 19), <<"zz", "1", "true", e.a[ai].v>>)]
                   how == Below(Sub(k, 20), 4)
               IN  IF \E x \in Range(e.a) : x.n = other.n /\ x.u # "" THEN e
                   ELSE CASE how = 0 -> [e EXCEPT !.a[ai] = other]
                          [] how = 1 -> [e EXCEPT !.a[ai].u = u]
                          [] how = 2 -> [e EXCEPT !.a = InsertAtIx(@, ai, other)]
                          [] OTHER -> [e EXCEPT !.a = Append(@, other)]
          [] what = "axsi" -> IF \E x \in Range(e.a) : x.u = XSI THEN e
                              ELSE [e EXCEPT !.a = InsertAtIx(@, 1 + Below(Sub(k, 21), na + 1),
                                     [n |-> PickOf(Sub(k, 22), <<"schemaLocation", "noNamespaceSchemaLocation">>),
                                      u |-> XSI, v |-> "urn:a a.xsd"])]
          [] what = "root" -> IF Chance(Sub(k, 23), 50) THEN [e EXCEPT !.n = NearName(@, Sub(k, 24))]
                              ELSE [e EXCEPT !.u = NearNs(@, Sub(k, 25))]
          [] what = "near" -> [e EXCEPT !.s = NearText(@, Sub(k, 26))]
          [] what = "aadd" -> IF AttrIx(e, "extra") # 0 THEN e
                              ELSE [e EXCEPT !.a = Append(@, At1("extra", "1"))]
          [] what = "text" -> [e EXCEPT !.s = PickOf(Sub(k, 13), TextPool)]
          [] what = "fillText" -> [e EXCEPT !.s = "words", !.m = "t"]
          [] what = "empty" -> [e EXCEPT !.k = <<>>, !.s = ""]
  IN  IF cand = <<>> THEN [doc |-> doc, what |-> "none"] ELSE [doc |-> Put(doc, q, new), what |-> what]

-----------------------------------------------------------------------------
(* the schemas the codec's guarantees are claimed for *)
NonVecRefs(sc, nm) ==
  LET r == sc.roots[nm] IN
  CASE r.k = "leaf" -> ContentNames(sc, r.c)
    [] r.k = "enum" -> {}
    [] r.k = "choice" -> UNION {IF IsVec(r.vars[i]) THEN {} ELSE ContentNames(sc, r.vars[i].c) : i \in 1..Len(r.vars)}
    [] r.k = "elem" -> (IF r.ck = "leaf" THEN ContentNames(sc, r.lc) ELSE {})
                       \cup UNION {IF IsVec(r.leaves[i]) THEN {} ELSE ContentNames(sc, r.leaves[i].c)
                                   : i \in 1..Len(r.leaves)}
                       \cup UNION {ContentNames(sc, r.attrs[i].c) : i \in 1..Len(r.attrs)}
Finite(sc) == \* no type contains itself other than through a Vec
  LET edges == UNION {{<<nm, x>> : x \in NonVecRefs(sc, nm)} : nm \in DOMAIN sc.roots} IN
  \A nm \in DOMAIN sc.roots : nm \notin Reach(edges, NonVecRefs(sc, nm))
\* the attributes that end up on one element have different names
RECURSIVE AttrNames(_, _)
AttrNames(sc, nm) ==
  LET r == sc.roots[nm] IN
  IF r.k # "elem" THEN (IF r.k = "leaf" /\ r.c.c = "named" THEN AttrNames(sc, r.c.nm) ELSE <<>>)
  ELSE MapS(r.attrs, LAMBDA a : a.nm.n)
       \o (IF r.ck = "leaf" /\ r.lc.c = "named" THEN AttrNames(sc, r.lc.nm) ELSE <<>>)
       \o (IF r.ck = "leaves"
           THEN Flat(MapS(SelectSeq(r.leaves, LAMBDA l : l.virt), LAMBDA l : AttrNames(sc, l.c.nm))) ELSE <<>>)
AttrsApart(sc) == \A nm \in DOMAIN sc.roots : Distinct(AttrNames(sc, nm))
\* an extension adds elements to a type that has element content, of its own kind
ExtBasesOk(files) ==
  LET g == GlobalsOf(files)
      ok(f, ct) ==
        LET kids == XKids(ct) IN
        ~HasKid(kids, "complexContent") \/
        LET ext == ExtOf(ct)[1]
            d == Global(g, "t", Qn(f, AVal(ext, "base")))
        IN  /\ d.node.t = "complexType"
            /\ ~IsSimpleContent(g, d.f, d.node)
            /\ HasKid(XKids(ext), "sequence") =>
                 \A p \in Range(Particles(g, d.f, d.node)) : p.node.t # "all"
  IN  \A i \in 1..Len(files) : files[i].form = "ok" =>
        LET cts == CtNodes(files[i].root) IN \A j \in 1..Len(cts) : ok(files[i], cts[j])
\* an element and a type of one name are the same thing
NamesApart(files) ==
  LET g == GlobalsOf(files) IN
  \A i, j \in 1..Len(g) : (i # j /\ g[i].n = g[j].n /\ g[i].u = g[j].u) =>
    /\ g[i].t # g[j].t
    /\ LET e == IF g[i].t = "e" THEN g[i] ELSE g[j] IN
       Has(e.node, "type") /\ Qn(e.f, AVal(e.node, "type")) = [n |-> e.n, u |-> e.u]
Resolved(files) == \* references are to declarations that exist, and of the right kind
  LET g == GlobalsOf(files)
      has(ts, q, kinds) == \E i \in 1..Len(g) : g[i].t \in ts /\ g[i].n = q.n /\ g[i].u = q.u /\ g[i].node.t \in kinds
      okAttr(f, node) ==
        /\ (Has(node, "type") /\ Qn(f, AVal(node, "type")).u # XS) =>
             has({"t"}, Qn(f, AVal(node, "type")), IF node.t = "attribute" THEN {"simpleType"}
                                                   ELSE {"simpleType", "complexType"})
        /\ Has(node, "ref") => has({"e"}, Qn(f, AVal(node, "ref")), {"element"})
        /\ (Has(node, "base") /\ Qn(f, AVal(node, "base")).u # XS) =>
             has({"t"}, Qn(f, AVal(node, "base")), {"simpleType", "complexType"})
      RECURSIVE okTree(_, _)
      okTree(f, node) == okAttr(f, node) /\ \A i \in 1..Len(node.k) : okTree(f, node.k[i])
  IN  \A i \in 1..Len(files) : files[i].form = "ok" => okTree(files[i], files[i].root)
\* a value is declared once
EnumsApart(sc) == \A nm \in DOMAIN sc.roots : sc.roots[nm].k = "enum" => Cardinality(Range(sc.roots[nm].vals)) = Len(sc.roots[nm].vals)
InDomain(files, sc, dup) ==
  /\ ~dup /\ WellNamed(sc) /\ Closed(sc) /\ Resolved(files) /\ NamesApart(files)
  /\ AttrsSimple(sc) /\ Finite(sc) /\ AttrsApart(sc)
  /\ ExtBasesOk(files)
  /\ Deterministic(files) /\ EnumsApart(sc)
=============================================================================
