------------------------------- MODULE Faults --------------------------------
(* Schemas that are not quite right, and what else can be in a schema: random  *)
(* changes to random schemas, and every single change to a catalogue of        *)
(* schemas that has every construct in every place.                            *)
EXTENDS Gen

TNs == <<"urn:a", "", "urn:b", "http://example.org/c#d">>   \* (FormFiles counts on these)
Decls(tns) == << [p |-> "xs", u |-> XS] >> \o (IF tns = "" THEN <<>> ELSE <<[p |-> "t", u |-> tns]>>)
OneFile(tns, qual, kids) ==
  << MkFile(<<"main.xsd">>, N("schema", RootAttrs(tns, qual), kids), Decls(tns), tns, qual) >>
Own(tns, n) == IF tns = "" THEN n ELSE "t:" \o n
Elem(n, ty, o) == N("element", <<A("name", n), A("type", ty)>> \o OccAttrs(o), <<>>)
ElemIn(n, kids) == N("element", <<A("name", n)>>, kids)
Ct(kids) == N("complexType", <<>>, kids)
CtNamed(n, kids) == N("complexType", <<A("name", n)>>, kids)
Sq(kids) == N("sequence", <<>>, kids)
StrT == "xs:string"
LocU(files) == IF files[1].qual THEN files[1].tns ELSE ""
TextEl(n, u, s) == El(n, u, <<>>, <<>>, s, "t")
KidsEl(n, u, k) == El(n, u, <<>>, k, "", "e")
\* an index into more than can be visited: spread over the range, shifted by the seed
Spread(seed, ix, total) == (((seed % 97) * 7919 + (ix % 19997) * 104729 + ix \div 19997) % total)

-----------------------------------------------------------------------------
(* schemas with a construct that does not belong there *)
XTags == <<"any", "group", "attributeGroup", "key", "unique", "keyref", "anyAttribute", "notation", "list", "union",
           "redefine", "restriction", "field", "selector", "attribute", "element", "sequence", "documentation",
           "whiteSpace", "minExclusive", "maxExclusive", "annotation", "simpleType", "complexType", "simpleContent",
           "complexContent", "extension", "appinfo", "pattern", "enumeration", "all", "choice", "unknown">>
XAttrs == <<"abstract", "nillable", "block", "final", "id", "substitutionGroup", "foo", "default", "fixed", "form", "use",
            "type", "name", "ref", "minOccurs", "maxOccurs", "mixed", "base", "value", "itemType">>
XVals == <<"true", "xs:gYear", "nope:x", "xs:NOPE", "", "abc", "-1", "1.5", "99999999999", "sometimes", "unqualified", "0", "xs:int">>
SchemaChanges == <<"delattr", "delattr", "badattr", "badattr", "renattr", "badkid", "badkid", "rentag", "delkid", "setval",
                   "setval", "foreignkid", "foreignattr", "mixed", "dupkid">>
MutSchema(files, k) ==
  LET fi == 1 + Below(Sub(k, 1), Len(files))
      root == files[fi].root
      ps == ElPaths(root, <<>>)
      what == PickOf(Sub(k, 2), SchemaChanges)
      isDoc(e) == e.t \in {"documentation", "include", "import"}
      cand == SelectSeq(ps, LAMBDA q : LET e == At(root, q) IN
                ~isDoc(e) /\
                CASE what \in {"delattr", "renattr", "setval"} -> q # <<>> /\ e.a # <<>>
                  [] what \in {"delkid", "dupkid"} -> e.k # <<>> /\ e.t # "annotation"
                  [] what = "rentag" -> TRUE
                  [] what = "mixed" -> e.t = "complexType"
                  [] what \in {"badattr"} -> q # <<>>
                  [] what = "badkid" -> q # <<>> /\ e.t # "annotation"
                  [] what = "foreignkid" -> e.s = ""
                  [] OTHER -> TRUE)
      q == PickOf(Sub(k, 3), cand)
      e == At(root, q)
      ai == 1 + Below(Sub(k, 4), Len(e.a))
      ki == 1 + Below(Sub(k, 5), Len(e.k))
      at == PickOf(Sub(k, 6), XAttrs)
      val == PickOf(Sub(k, 7), XVals)
      new ==
        CASE what = "delattr" -> [e EXCEPT !.a = RemoveAtIx(@, ai)]
          [] what = "renattr" -> [e EXCEPT !.a[ai].n = @ \o "X"]
          [] what = "setval" -> IF e.a[ai].n = "name" THEN e ELSE [e EXCEPT !.a[ai].v = val]
          [] what = "badattr" -> IF \E i \in 1..Len(e.a) : e.a[i].n = at THEN e ELSE [e EXCEPT !.a = Append(@, A(at, val))]
          [] what = "foreignattr" -> IF \E i \in 1..Len(e.a) : e.a[i].f THEN e
                                     ELSE [e EXCEPT !.a = Append(@, [n |-> at, v |-> val, f |-> TRUE])]
          [] what = "mixed" -> IF Has(e, "mixed") THEN e ELSE [e EXCEPT !.a = Append(@, A("mixed", PickOf(Sub(k, 8), <<"true", "false">>)))]
          [] what = "badkid" -> [e EXCEPT !.k = InsertAtIx(@, 1 + Below(Sub(k, 9), Len(e.k) + 1), N(PickOf(Sub(k, 10), XTags), <<>>, <<>>))]
          [] what = "foreignkid" -> [e EXCEPT !.k = InsertAtIx(@, 1 + Below(Sub(k, 9), Len(e.k) + 1),
                                                               [N("element", <<>>, <<>>) EXCEPT !.x = FALSE])]
          [] what = "rentag" -> [e EXCEPT !.t = PickOf(Sub(k, 10), XTags)]
          [] what = "delkid" -> [e EXCEPT !.k = RemoveAtIx(@, ki)]
          [] what = "dupkid" -> [e EXCEPT !.k = InsertAtIx(@, ki, e.k[ki])]
  IN  IF cand = <<>> THEN files ELSE [files EXCEPT ![fi].root = Put(root, q, new)]
\* texts that are no XML documents: broken off, two roots, crossed tags, prefixes that are not declared, attributes
\* twice, references that mean nothing, document type declarations
XsOpen == "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\""
Garbage == <<
  "<xs:schema", "", " ", "text", XsOpen \o ">", XsOpen \o "/>" \o XsOpen \o "/>", XsOpen \o "></xs:schemas>", "<xs:schema/>",
  XsOpen \o "><xs:element name=\"a\" name=\"b\" type=\"xs:int\"/></xs:schema>", XsOpen \o "><xs:element name=\"a\" type=\"xs:int\"></xs:schema>",
  XsOpen \o "><xs:element name=\"a&b\" type=\"xs:int\"/></xs:schema>", XsOpen \o "><xs:element name=\"a&nope;\" type=\"xs:int\"/></xs:schema>",
  XsOpen \o "><ys:element name=\"a\"/></xs:schema>", XsOpen \o " ys:a=\"1\"/>", XsOpen \o "/>text", "text" \o XsOpen \o "/>",
  "<!DOCTYPE xs:schema>" \o XsOpen \o "/>", "<!DOCTYPE xs:schema [<!ENTITY n 'a'>]>" \o XsOpen \o "><xs:element name=\"&n;\" type=\"xs:int\"/></xs:schema>",
  "<!DOCTYPE xs:schema PUBLIC \"-//W3C//DTD XMLSCHEMA 200102//EN\" \"XMLSchema.dtd\">" \o XsOpen \o "/>",
  " <?xml version=\"1.0\"?>" \o XsOpen \o "/>", XsOpen \o "><!-- a -- b --></xs:schema>", XsOpen \o ">{ctl}</xs:schema>",
  XsOpen \o "></xs:schema", XsOpen \o " a=b/>", XsOpen \o "><xs:element name='a'type='xs:int'/></xs:schema>" >>
Garbled(f, k) == [f EXCEPT !.form = "garbage"] @@ [text |-> PickOf(k, Garbage)]
FaultProfile == [BaseProfile EXCEPT !.docs = 10, !.files = 2, !.fp = 10, !.kids = 3, !.hard = 0]
FaultFiles(seed, ix) ==
  LET k == Key(seed, 70000 + ix)
      base == RandomFiles(Sub(k, 1), FaultProfile)
      n == Len(base)
      what == Below(Sub(k, 2), 30)
  IN  CASE what = 0 /\ n > 1 -> [base EXCEPT ![n].form = "missing"]
        [] what = 1 -> [base EXCEPT ![n] = Garbled(@, Sub(k, 4))]
        [] what = 2 -> [base EXCEPT ![n].form = "missing"]
        [] OTHER -> MutSchema(base, Sub(k, 3))


-----------------------------------------------------------------------------
(* the catalogue *)
At3(n, ty, more) == N("attribute", <<A("name", n), A("type", ty)>> \o more, <<>>)
Restr(b, kids) == N("restriction", <<A("base", b)>>, kids)
Facet(t, v) == N(t, <<A("value", v)>>, <<>>)
StNamed(n, r) == N("simpleType", <<A("name", n)>>, <<r>>)
Doc(s) == N("annotation", <<>>, << TextN("documentation", s) >>)
InEnum == N("simpleType", <<>>, << Restr(StrT, << Facet("enumeration", "on"), Facet("enumeration", "off") >>) >>)
GrpIn(t, o, kids) == N(t, OccAttrs(o), kids)
Ext(t, b, kids) == N(t, <<>>, << N("extension", <<A("base", b)>>, kids) >>)
Catalogue == <<
  << Elem("e1", StrT, O1), Elem("e2", "t:Ct", O1), N("element", <<A("name", "e3"), A("type", "xs:int"), A("fixed", "5")>>, <<>>),
     CtNamed("Ct", << Sq(<< Elem("a", StrT, O1) >>) >>), ElemIn("e4", << InEnum >>) >>,
  << ElemIn("e", << Ct(<< Sq(<< Elem("a", "xs:date", <<"0", "">>), Elem("b", "t:St", <<"", "unbounded">>),
        N("element", <<A("ref", "t:g"), A("minOccurs", "0"), A("maxOccurs", "3")>>, <<>>),
        ElemIn("c", << Ct(<< Sq(<< Elem("in", StrT, O1) >>) >>) >>), ElemIn("d", << InEnum >>),
        N("element", <<A("name", "f"), A("type", StrT), A("fixed", "x")>>, <<>>), ElemIn("h", <<>>),
        N("element", <<A("name", "df"), A("type", "xs:int"), A("default", "4")>>, <<>>) >>) >>) >>),
     StNamed("St", Restr("xs:long", <<>>)), Elem("g", "xs:boolean", O1) >>,
  << CtNamed("C", << GrpIn("sequence", <<"0", "2">>, <<
        GrpIn("choice", <<"0", "unbounded">>, << Elem("x", StrT, O1), GrpIn("sequence", <<"1", "3">>, << Elem("y", StrT, O1) >>) >>),
        GrpIn("sequence", <<"0", "">>, << Elem("z", StrT, O1) >>) >>) >>) >>,
  << ElemIn("r", << Ct(<< GrpIn("all", <<"0", "">>, << Elem("x", StrT, O1), Elem("y", "xs:int", <<"0", "1">>) >>), At3("k", StrT, <<>>) >>) >>) >>,
  << ElemIn("r", << Ct(<< N("choice", <<>>, << Elem("x", StrT, O1), Sq(<< Elem("y", StrT, O1), Elem("z", StrT, O1) >>),
        N("element", <<A("ref", "t:g")>>, <<>>) >>) >>) >>), Elem("g", "xs:float", O1) >>,
  << CtNamed("T", << At3("a1", "xs:int", <<A("use", "required")>>), At3("a2", StrT, <<A("fixed", "v")>>),
        At3("a3", "xs:boolean", <<A("default", "true")>>), N("attribute", <<A("name", "a4"), A("use", "optional")>>, << InEnum >>),
        At3("a5", "t:St", <<>>), At3("a6", StrT, <<A("use", "prohibited")>>) >>),
     StNamed("St", Restr("xs:decimal", <<>>)) >>,
  << ElemIn("r", << Ct(<< Ext("simpleContent", "xs:decimal", << At3("k", StrT, <<>>), At3("l", "xs:int", <<A("use", "required")>>) >>) >>) >>),
     CtNamed("T", << Ext("simpleContent", "t:St", << N("attribute", <<A("name", "m")>>, << InEnum >>) >>) >>), StNamed("St", Restr(StrT, <<>>)) >>,
  << CtNamed("B", << Sq(<< Elem("x", StrT, O1) >>), At3("k", StrT, <<>>) >>),
     CtNamed("D1", << Ext("complexContent", "t:B", << GrpIn("sequence", <<"0", "">>, << Elem("y", StrT, O1) >>), At3("l", "xs:int", <<>>) >>) >>),
     ElemIn("d2", << Ct(<< Ext("complexContent", "t:B", << At3("m", StrT, <<A("use", "required")>>) >>) >>) >>) >>,
  << StNamed("S", Restr(StrT, << Facet("length", "4"), Facet("minLength", "1"), Facet("maxLength", "9"), Facet("pattern", "[A-Z]+") >>)),
     Elem("e", "t:S", O1) >>,
  << StNamed("S", Restr("xs:decimal", << Facet("minInclusive", "-1.5"), Facet("maxInclusive", "99"), Facet("fractionDigits", "2"), Facet("totalDigits", "9") >>)),
     ElemIn("e", << Ct(<< N("attribute", <<A("name", "k")>>, << N("simpleType", <<>>, << Restr("xs:int", << Facet("minInclusive", "0"), Facet("maxInclusive", "7") >>) >>) >>) >>) >>) >>,
  << StNamed("Hue", Restr(StrT, << Facet("enumeration", "red"), Facet("enumeration", "dark red"), Facet("enumeration", "") >>)),
     N("element", <<A("name", "e"), A("type", "t:Hue")>>, << Doc("An element.") >>) >>,
  << N("element", <<A("name", "e")>>, << Doc("Outside."), N("complexType", <<>>, << Doc("Type."), N("sequence", <<>>, << Doc("Group."),
        N("element", <<A("name", "a"), A("type", StrT)>>, << Doc("Field a.") >>),
        N("sequence", <<A("minOccurs", "0")>>, << Doc("Inner group."), Elem("b", StrT, O1) >>),
        N("choice", <<>>, << Elem("c", StrT, O1), N("sequence", <<>>, << Doc("Alternative."), Elem("d", StrT, O1) >>) >>) >>),
        N("attribute", <<A("name", "k"), A("type", StrT)>>, << Doc("Attribute k.") >>) >>) >>),
     N("simpleType", <<A("name", "S")>>, << Doc("Simple."), Restr("xs:int", <<>>) >>),
     N("complexType", <<A("name", "X")>>, << Doc("Extended."), Ext("simpleContent", "t:S", << At3("q", StrT, <<>>) >>) >>),
     N("annotation", <<>>, << TextN("documentation", "Of the schema.") >>) >> >>
NCat == Len(Catalogue)
\* the last one is spread over two files
CatFiles(s) ==
  IF s <= NCat THEN OneFile("urn:a", TRUE, Catalogue[s])
  ELSE LET f1 == [path |-> <<"main.xsd">>, tns |-> "urn:a"]
           f2 == [path |-> <<"lib", "b.xsd">>, tns |-> IF s = NCat + 1 THEN "urn:a" ELSE "urn:b"]
           d2 == << [p |-> "xs", u |-> XS], [p |-> "b", u |-> f2.tns] >>
       IN  << MkFile(f1.path, N("schema", RootAttrs(f1.tns, TRUE), << Elem("e", "o:T", O1), LinkNode(f1, f2, <<7, 7>>) >>),
                     << [p |-> "xs", u |-> XS], [p |-> "t", u |-> f1.tns], [p |-> "o", u |-> f2.tns] >>, f1.tns, TRUE),
              MkFile(f2.path, N("schema", RootAttrs(f2.tns, FALSE), << CtNamed("T", << Sq(<< Elem("x", "b:S", O1) >>) >>), StNamed("S", Restr("xs:int", <<>>)) >>),
                     d2, f2.tns, FALSE) >>

\* every change of a kind, for one node
Fx(f, q, what, i, x, v) == [f |-> f, q |-> q, what |-> what, i |-> i, x |-> x, v |-> v]
BadVals(n, t) ==
  CASE n \in {"minOccurs", "maxOccurs"} -> <<"", "abc", "-1", "1.5", "99999999999", "2", " 1", "Unbounded", "unbounded">>
    [] n \in {"type", "base"} -> <<"xs:gYear", "nope:x", "xs:NOPE", "xs:", "xs:anyURI", "xs:int", "xs:String">>
    [] n = "ref" -> <<"xs:int", "nope:x", "xs:NOPE">>
    [] n = "use" -> <<"sometimes", "", "Required", "optional", "prohibited", "required">>
    [] n = "value" /\ t \in {"pattern", "enumeration"} -> <<"zz">>
    [] n = "value" -> <<"abc", "", "-1", "1.5", "99999999999", "99999999999999999999", "1e3", " 1", "7">>
    [] OTHER -> <<>>
FaultsAt(f, root, q) ==
  LET e == At(root, q)
      link == e.t \in {"include", "import"}
      doc == e.t = "documentation"
      as == Idx(Len(e.a))
      ks == Idx(Len(e.k))
      free == SelectSeq(XAttrs, LAMBDA a : ~\E i \in 1..Len(e.a) : e.a[i].n = a)
      sure ==
        (IF q = <<>> THEN <<>> ELSE MapS(as, LAMBDA i : Fx(f, q, "delattr", i, "", "")))
        \o (IF q = <<>> \/ link THEN <<>>
            ELSE Flat(MapS(as, LAMBDA i : MapS(BadVals(e.a[i].n, e.t), LAMBDA v : Fx(f, q, "setval", i, "", v))))
                 \o MapS(as, LAMBDA i : Fx(f, q, "renattr", i, "", "")))
        \o MapS(ks, LAMBDA i : Fx(f, q, "delkid", i, "", ""))
        \o (IF q = <<>> THEN <<>> ELSE MapS(ks, LAMBDA i : Fx(f, q, "dupkid", i, "", "")))
        \o (IF doc THEN <<>> ELSE MapS(<<"element", "annotation", "restriction", "attribute", "sequence", "documentation">>, LAMBDA t : Fx(f, q, "foreignkid", 1, t, "")))
        \o (IF doc \/ q = <<>> THEN <<>>
            ELSE MapS(<<"name", "type", "use", "base", "value", "ref", "fixed", "mixed", "minOccurs", "maxOccurs", "default", "schemaLocation">>,
                      LAMBDA a : Fx(f, q, "foreignattr", 1, a, "zz"))
                 \o MapS(<<"name", "type", "use", "base", "value", "ref", "fixed", "mixed", "minOccurs", "maxOccurs">>,
                         LAMBDA a : Fx(f, q, "foreignattr", 2, a, "zz")))
        \o (IF doc \/ e.t = "annotation" \/ q = <<>> THEN <<>> ELSE MapS(Idx(6), LAMBDA i : Fx(f, q, "annot", i, "", "")))
        \o (IF link THEN << Fx(f, q, "away", 1, "", "") >> ELSE <<>>)
        \o (IF e.t = "complexType" THEN << Fx(f, q, "mixed", 1, "", "true"), Fx(f, q, "mixed", 1, "", "false") >> ELSE <<>>)
        \o (IF q = <<>> \/ doc \/ link THEN <<>> ELSE MapS(free, LAMBDA a : Fx(f, q, "badattr", 1, a, "true")))
      some ==
        (IF doc \/ link THEN <<>>
            ELSE MapS(XTags, LAMBDA t : Fx(f, q, "badkid", 0, t, ""))
                 \o (IF e.k = <<>> THEN <<>> ELSE MapS(XTags, LAMBDA t : Fx(f, q, "badkid", Len(e.k), t, "")))
                 \o MapS(XTags, LAMBDA t : Fx(f, q, "rentag", 1, t, "")))
  IN  [sure |-> sure, some |-> some]
NewAnnot(i) ==
  CASE i = 1 -> Doc("Inserted docs.")
    [] i = 2 -> N("annotation", <<>>, <<>>)
    [] i = 3 -> N("annotation", <<A("id", "x")>>, << TextN("documentation", "d") >>)
    [] i = 4 -> N("annotation", <<>>, << N("appinfo", <<>>, <<>>) >>)
    [] i = 5 -> N("annotation", <<>>, << TextN("documentation", "first"), TextN("documentation", "second") >>)
    [] OTHER -> N("annotation", <<>>, << N("documentation", <<A("source", "urn:x")>>, <<>>) >>)
Faulty(files, fx) ==
  LET root == files[fx.f].root
      e == At(root, fx.q)
      new ==
        CASE fx.what = "delattr" -> [e EXCEPT !.a = RemoveAtIx(@, fx.i)]
          [] fx.what = "renattr" -> [e EXCEPT !.a[fx.i].n = @ \o "X"]
          [] fx.what = "setval" -> [e EXCEPT !.a[fx.i].v = fx.v]
          [] fx.what = "badattr" -> [e EXCEPT !.a = Append(@, A(fx.x, fx.v))]
          \* a foreign attribute of the name of one of the schema language, behind or in front of the others
          [] fx.what = "foreignattr" /\ fx.i = 1 -> [e EXCEPT !.a = Append(@, [n |-> fx.x, v |-> fx.v, f |-> TRUE])]
          [] fx.what = "foreignattr" -> [e EXCEPT !.a = << [n |-> fx.x, v |-> fx.v, f |-> TRUE] >> \o @]
          [] fx.what = "mixed" -> [e EXCEPT !.a = Append(@, A("mixed", fx.v))]
          [] fx.what = "badkid" -> [e EXCEPT !.k = InsertAtIx(@, fx.i + 1, N(fx.x, <<>>, <<>>))]
          [] fx.what = "foreignkid" -> [e EXCEPT !.k = InsertAtIx(@, 1, [N(fx.x, <<A("name", "no"), A("type", "nope:x")>>, <<>>) EXCEPT !.x = FALSE])]
          [] fx.what = "annot" -> [e EXCEPT !.k = InsertAtIx(@, 1, NewAnnot(fx.i))]
          [] fx.what = "rentag" -> [e EXCEPT !.t = fx.x]
          [] fx.what = "delkid" -> [e EXCEPT !.k = RemoveAtIx(@, fx.i)]
          [] fx.what = "dupkid" -> [e EXCEPT !.k = InsertAtIx(@, fx.i, e.k[fx.i])]
          [] fx.what = "away" -> [e EXCEPT !.loc = <<"no", "where.xsd">>, !.a[FirstIx(e.a, LAMBDA x : x.n = "schemaLocation")].v = "no/where.xsd"]
  IN  [files EXCEPT ![fx.f].root = Put(root, fx.q, new)]
AllFaults ==
  LET of(s) == LET fs == CatFiles(s) IN
               Flat([f \in 1..Len(fs) |-> MapS(ElPaths(fs[f].root, <<>>), LAMBDA q : FaultsAt(f, fs[f].root, q))])
      pick(s, which(_)) == Flat(MapS(of(s), LAMBDA r : MapS(which(r), LAMBDA x : x @@ [s |-> s])))
  IN  [sure |-> Flat([s \in 1..(NCat + 2) |-> pick(s, LAMBDA r : r.sure)]),
       some |-> Flat([s \in 1..(NCat + 2) |-> pick(s, LAMBDA r : r.some)])]
FaultSure == TLCEval(AllFaults.sure)
FaultSome == TLCEval(AllFaults.some)
CatFaultAt(seed, ix) ==
  IF ix <= Len(FaultSure) THEN FaultSure[ix] ELSE FaultSome[1 + Spread(seed, ix - Len(FaultSure), Len(FaultSome))]
CatFault(seed, ix) == LET fx == CatFaultAt(seed, ix) IN Faulty(CatFiles(fx.s), fx)

-----------------------------------------------------------------------------
(* documentation in every place *)
DocPlaces == TLCEval(Flat([s \in 1..(NCat + 2) |->
  LET fs == CatFiles(s) IN
  Flat([f \in 1..Len(fs) |->
    MapS(SelectSeq(ElPaths(fs[f].root, <<>>), LAMBDA q : At(fs[f].root, q).t \notin {"annotation", "documentation", "include", "import"}),
         LAMBDA q : [s |-> s, f |-> f, q |-> q])])]))
DocUnit(seed, ix) ==
  LET pl == DocPlaces[1 + ((ix - 1) % Len(DocPlaces))]
      k == Key(seed, 120000 + ix)
      fs == CatFiles(pl.s)
      root == fs[pl.f].root
      e == At(root, pl.q)
      n == PickOf(Sub(k, 1), <<1, 1, 1, 2, 3>>)
      an == N("annotation", <<>>, TLCEval([i \in 1..n |-> DocNode(Sub(Sub(k, 2), i))]))
      old == FirstIx(e.k, LAMBDA x : x.t = "annotation")
      pos == PickOf(Sub(k, 3), <<1, 1, 1, Len(e.k) + 1>>)
  IN  [fs EXCEPT ![pl.f].root = Put(root, pl.q, [e EXCEPT !.k = IF old # 0 THEN [@ EXCEPT ![old] = an] ELSE InsertAtIx(@, pos, an)])]
=============================================================================
