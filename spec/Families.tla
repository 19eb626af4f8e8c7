------------------------------ MODULE Families ------------------------------
(* Systematic families of schemas and documents: where the generators of Gen  *)
(* sample, these enumerate.  A unit of a family is determined by its index    *)
(* (and the seed, where there are more than can be visited); cases below      *)
(* FixedCases are enumerated, further ones are written from random values and *)
(* changed like those of the random profiles.                                 *)
EXTENDS Faults, Markup

-----------------------------------------------------------------------------
(* content models: every nesting of groups in Shapes, with every combination  *)
(* of occurrences; documents are all words over the elements' names           *)
SE == [g |-> "e", m |-> <<>>]
SS(m) == [g |-> "s", m |-> m]
SC(m) == [g |-> "c", m |-> m]
SA(m) == [g |-> "a", m |-> m]
SX(m) == [g |-> "x", m |-> m]        \* a base type and what an extension adds
E2 == <<SE, SE>>
E3 == <<SE, SE, SE>>
ChoiceShapes == <<
  SS(<<SC(E2)>>), SC(E2), SC(E3), SS(<<SC(E2), SE>>), SS(<<SE, SC(E2)>>), SS(<<SC(E2), SC(E2)>>),
  SS(<<SC(<<SS(E2), SE>>)>>), SC(<<SS(E2), SE>>), SC(<<SE, SS(E2)>>), SS(<<SC(<<SS(E2), SS(E2)>>)>>),
  SS(<<SE, SC(<<SE, SS(<<SE, SE>>)>>)>>), SC(<<SS(<<SC(E2), SE>>), SE>>), SS(<<SS(<<SC(E2), SE>>), SE>>), SS(<<SS(<<SC(E2)>>), SE>>), SS(<<SS(<<SS(<<SC(E2)>>)>>)>>), SC(<<SS(<<SC(<<SS(E2)>>)>>), SE>>),
  SC(<<SS(<<SS(E2), SE>>), SE>>), SS(<<SC(<<SS(<<SS(<<SE>>), SE>>), SE>>), SE>>),
  SS(<<SC(<<SE, SS(<<SC(E2)>>)>>), SE>>), SX(<<SC(E2), SS(<<SE>>)>>), SX(<<SS(<<SE>>), SS(<<SC(E2)>>)>>) >>
OccShapes == <<
  SS(<<SE>>), SS(E2), SS(E3), SS(<<SE, SS(E2)>>), SS(<<SS(E2), SE>>), SS(<<SE, SS(<<SE>>), SE>>),
  SS(<<SS(<<SS(<<SE>>), SE>>), SE>>), SS(<<SS(E2), SS(E2)>>), SS(<<SC(E2), SE>>),
  SS(<<SE, SS(<<SC(E2), SE>>)>>), SX(<<SS(E2), SS(<<SE>>)>>), SX(<<SS(<<SE>>), SS(E2)>>) >>
AllShapes == << SA(E2), SA(E3), SA(<<SE, SE, SE, SE>>), SA(<<SE>>) >>

ElOcc == <<O1, <<"0", "">>, <<"0", "unbounded">>, <<"", "unbounded">>, <<"0", "2">>, <<"", "2">>>>
GrOcc == <<O1, <<"0", "">>, <<"0", "unbounded">>, <<"1", "unbounded">>, <<"", "2">>, <<"0", "2">>>>
OccOf(shape, par) ==
  CASE par = "c" -> <<O1, <<"", "unbounded">>, <<"0", "">>, <<"0", "unbounded">>>>
    [] par \in {"top", "x"} /\ shape.g = "s" -> IF par = "x" THEN <<O1, <<"0", "">>>> ELSE GrOcc
    [] par \in {"top", "x"} /\ shape.g = "a" -> <<O1, <<"0", "">>>>
    [] par \in {"top", "x"} -> <<O1>>
    [] par = "a" -> <<O1, <<"0", "">>>>
    [] shape.g = "e" -> ElOcc
    [] shape.g = "c" -> GrOcc
    [] OTHER -> <<O1, <<"0", "">>>>
RECURSIVE Combos(_, _)
Combos(shape, par) ==
  Len(OccOf(shape, par))
  * FoldLeft(LAMBDA a, m : a * Combos(m, shape.g), 1, shape.m)
Letter(i) == Ch(LowerS, i)
\* [node, n, l]: the node built with the digits of n, starting with the l-th letter
\* the types the elements of a model have: cf is [tns, ks: the kind of the l-th element]
LeafKinds == <<"str", "simple", "enum", "complex", "inC", "inA", "inE", "ref", "refS", "fixed", "any">>
Plain == [tns |-> "", ks |-> [l \in 1..12 |-> "str"]]
KindsOf(tns, seed, ix) ==
  IF ix % 3 = 0 THEN [Plain EXCEPT !.tns = tns]
  ELSE [tns |-> tns, ks |-> TLCEval([l \in 1..12 |-> PickOf(Sub(Key(seed, 91000 + ix), l), LeafKinds)])]
Vs == <<"v1", "v2", "v3", "v4", "v5">>
EnumOf(vals) == << N("restriction", <<A("base", StrT)>>, MapS(vals, LAMBDA v : N("enumeration", <<A("value", v)>>, <<>>))) >>
InSeq == << Sq(<< Elem("in", StrT, <<"0", "">>) >>) >>
InAttr == << N("attribute", <<A("name", "at"), A("type", StrT)>>, <<>>) >>
LeafNode(cf, l, o) ==
  LET k == cf.ks[l]
      n == Letter(l)
      kids(x) == N("element", <<A("name", n)>> \o OccAttrs(o), x)
  IN  CASE k = "str" -> Elem(n, StrT, o)
        [] k = "simple" -> Elem(n, Own(cf.tns, "Sim"), o)
        [] k = "enum" -> Elem(n, Own(cf.tns, "Enu"), o)
        [] k = "complex" -> Elem(n, Own(cf.tns, "Cpl"), o)
        [] k = "inC" -> kids(<< Ct(InSeq) >>)
        [] k = "inA" -> kids(<< Ct(InAttr) >>)
        [] k = "inE" -> kids(<< N("simpleType", <<>>, EnumOf(Vs)) >>)
        [] k \in {"ref", "refS"} -> N("element", <<A("ref", Own(cf.tns, n))>> \o OccAttrs(o), <<>>)
        [] k = "fixed" -> N("element", <<A("name", n), A("type", StrT), A("fixed", "v")>> \o OccAttrs(o), <<>>)
        [] k = "any" -> kids(<<>>)
LeafGlobals(cf, n) ==
  << N("simpleType", <<A("name", "Sim")>>, << N("restriction", <<A("base", StrT)>>, << N("maxLength", <<A("value", "10")>>, <<>>) >>) >>),
     N("simpleType", <<A("name", "Enu")>>, EnumOf(Vs)), CtNamed("Cpl", InSeq) >>
  \o MapS(SelectSeq(Idx(n), LAMBDA l : cf.ks[l] = "ref"), LAMBDA l : ElemIn(Letter(l), << Ct(InSeq \o InAttr) >>))
  \o MapS(SelectSeq(Idx(n), LAMBDA l : cf.ks[l] = "refS"), LAMBDA l : Elem(Letter(l), StrT, O1))
LeafEl(files, cf, l, i) ==
  LET k == cf.ks[l]
      u == IF k \in {"ref", "refS"} THEN files[1].tns ELSE LocU(files)
      v == "v" \o NumStr(i)
      a == IF k \in {"inA", "ref"} /\ i % 2 = 1 THEN << At1("at", v) >> ELSE <<>>
  IN  IF k \in {"complex", "inC", "inA", "ref"}
      THEN El(Letter(l), u, a, IF k # "inA" /\ i % 3 # 2 THEN << TextEl("in", LocU(files), v) >> ELSE <<>>, "", "e")
      ELSE TextEl(Letter(l), u, IF k = "fixed" THEN "v" ELSE v)
RECURSIVE Bld(_, _, _, _, _)
Bld(cf, shape, par, n, l) ==
  LET os == OccOf(shape, par)
      o == os[1 + (n % Len(os))]
      step(st, m) == LET r == Bld(cf, m, shape.g, st.n, st.l) IN
                     [nodes |-> Append(st.nodes, r.node), n |-> r.n, l |-> r.l]
      sub == FoldLeft(step, [nodes |-> <<>>, n |-> n \div Len(os), l |-> l], shape.m)
  IN  IF shape.g = "e"
      THEN [node |-> LeafNode(cf, l, o), n |-> n \div Len(os), l |-> l + 1]
      ELSE [node |-> N(CASE shape.g = "s" -> "sequence" [] shape.g = "c" -> "choice" [] OTHER -> "all",
                       OccAttrs(o), sub.nodes), n |-> sub.n, l |-> sub.l]
ShapeCombos(s) == IF s.g = "x" THEN Combos(s.m[1], "top") * Combos(s.m[2], "x") ELSE Combos(s, "top")
ModelTotal(shapes) == FoldLeft(LAMBDA a, s : a + ShapeCombos(s), 0, shapes)
\* the shapes are visited in turn, so that the ones with few combinations are not drowned
\* the next combination that is in the domain: deterministic
NoFile == [qual |-> FALSE, tns |-> "", nsd |-> <<>>]
RECURSIVE Filled(_, _, _)
Filled(s, n, tries) ==
  LET c == ShapeCombos(s)
      nodes == IF s.g = "x" THEN LET b == Bld(Plain, s.m[1], "top", n, 1) IN <<b.node, Bld(Plain, s.m[2], "x", b.n, b.l).node>>
               ELSE <<Bld(Plain, s, "top", n, 1).node>>
  IN  IF tries = 0 \/ DeterministicParts(MapS(nodes, LAMBDA x : [f |-> NoFile, node |-> x])) THEN [s |-> s, n |-> n]
      ELSE Filled(s, (n + 1) % c, tries - 1)
ModelFrom(shapes, seed, ix) ==
  LET i == 1 + ((ix \div 2) % Len(shapes)) IN
  [s |-> shapes[i], n |-> Spread(seed, 2 * ((ix \div 2) \div Len(shapes)) + (ix % 2), ShapeCombos(shapes[i]))]
ModelAt(shapes, seed, ix) == LET m == TLCEval(ModelFrom(shapes, seed, ix)) IN Filled(m.s, m.n, 40)
RECURSIVE Leaves(_)
Leaves(s) == IF s.g = "e" THEN 1 ELSE FoldLeft(LAMBDA a, m : a + Leaves(m), 0, s.m)
ModelFiles(shapes, seed, ix) ==
  LET m == ModelAt(shapes, seed, ix)
      ns == (ix \div 3) % 3
      tns == IF ns = 0 THEN "" ELSE "urn:a"
      cf == KindsOf(tns, seed, ix)
      one == Bld(cf, m.s, "top", m.n, 1)
      b == Bld(cf, m.s.m[1], "top", m.n, 1)
      x == Bld(cf, m.s.m[2], "x", b.n, b.l)
  IN  OneFile(tns, ns = 1,
        (IF ix % 3 = 0 THEN <<>> ELSE LeafGlobals(cf, Leaves(m.s))) \o
        IF m.s.g = "x"
        THEN << CtNamed("Trunk", <<b.node>>),
                ElemIn("r", << Ct(<< N("complexContent", <<>>,
                         << N("extension", <<A("base", Own(tns, "Trunk"))>>, <<x.node>>) >>) >>) >>) >>
        ELSE << ElemIn("r", << Ct(<<one.node>>) >>) >>)
Pow(n, e) == FoldLeft(LAMBDA a, i : a * n, 1, Idx(e))
WordLen(n, all) == CASE n = 1 -> 4 [] n = 2 -> 5 [] n = 3 -> 4 [] n = 4 -> (IF all THEN 4 ELSE 3) [] OTHER -> 3
WordCount(n, all) == FoldLeft(LAMBDA a, i : a + Pow(n, i), 1, Idx(WordLen(n, all)))
RECURSIVE WordAt(_, _)
WordAt(n, j) == IF j = 0 THEN <<>> ELSE <<1 + ((j - 1) % n)>> \o WordAt(n, (j - 1) \div n)
WordDoc(files, cf, n, j) ==
  LET w == WordAt(n, j) IN
  KidsEl("r", files[1].tns, TLCEval([i \in 1..Len(w) |-> LeafEl(files, cf, w[i], i)]))

-----------------------------------------------------------------------------
(* lexical representations: an element and an attribute of every built-in     *)
(* type; the strings of the pools and all short strings over an alphabet      *)
LitSeq == <<"boolean", "int", "integer", "long", "nonNegativeInteger", "positiveInteger", "decimal", "float",
            "string", "time", "date", "dateTime", "duration", "base64Binary", "hexBinary", "anyType">>
ShortAlpha == <<"0", "1", "7", "-", "+", ".", "a", " ">>
ShortStr(n) == Cat(MapS(WordAt(Len(ShortAlpha), n), LAMBDA i : ShortAlpha[i]))
Short(l) == l \in {"boolean", "int", "long", "nonNegativeInteger", "decimal"}
LitFiles(ix) ==
  LET l == LitSeq[1 + ((ix - 1) % Len(LitSeq))] IN
  OneFile("", FALSE,
    << ElemIn("r", << Ct(<< Sq(<< Elem("v", "xs:" \o l, O1) >>),
                            N("attribute", <<A("name", "at"), A("type", "xs:" \o l)>>, <<>>) >>) >>),
       Elem("plain", "xs:" \o l, O1),
       N("simpleType", <<A("name", "Plain2")>>, << N("restriction", <<A("base", "xs:" \o l)>>, <<>>) >>),
       ElemIn("sc", << Ct(<< N("simpleContent", <<>>, << N("extension", <<A("base", Own("", "Plain2"))>>, <<>>) >>) >>) >>) >>)
LitPool(l) == GoodPool[l] \o LimitsOf(l) \o (IF HasBad(l) THEN BadPool[l] ELSE <<>>)
LitKind(ix) == LitOf[LitSeq[1 + ((ix - 1) % Len(LitSeq))]]
\* short strings up to two letters are all there, longer ones as many as the plan says
LitShort(ix) == IF Short(LitKind(ix)) THEN 73 ELSE 0
LitFixed(ix, n) == 4 * Len(LitPool(LitKind(ix))) + LitShort(ix) + (IF Short(LitKind(ix)) THEN n ELSE 0)
LitDoc(seed, ix, jj) ==
  LET pool == LitPool(LitKind(ix))
      np == Len(pool)
      good == GoodPool[LitKind(ix)][1]
      s == IF jj <= 4 * np THEN pool[1 + ((jj - 1) \div 4)]
           ELSE IF jj <= 4 * np + LitShort(ix) THEN ShortStr(jj - 4 * np - 1)
           ELSE ShortStr(73 + Spread(seed, jj, 512 + 4096))
      w == IF jj <= 4 * np THEN (jj - 1) % 4 ELSE 0
      t(x) == TextEl("v", "", x)
  IN  CASE w = 0 -> KidsEl("r", "", << t(s) >>)
        [] w = 1 -> El("r", "", << At1("at", IF IndexOfCh(s, "\t") # 0 /\ LitKind(ix) \in Textual THEN "" ELSE s) >>,
                       << t(good) >>, "", "e")
        [] w = 2 -> TextEl("plain", "", s)
        [] OTHER -> TextEl("sc", "", s)

-----------------------------------------------------------------------------
(* names: every difficult name in every place a name can be in; groups that   *)
(* are named after what the names of their members have in common             *)
TwinNames == << <<"userOldName", "userNewName">>, <<"homeACity", "homeBCity", "homeCCity">>, <<"line1", "line2">>,
  <<"abcX", "abdX">>, <<"x_one", "y_one">>, <<"FirstName", "LastName", "FullName">>, <<"angleDeg", "angleRad">>,
  <<"a-b-c", "a-d-c">>, <<"taxRateA", "taxRateB">>, <<"AData", "BData">>, <<"one", "two">>, <<"itemID", "item">>,
  <<"NETAmount", "GROSSAmount">>, <<"~a", "~b">>, <<"x~", "y~">>, <<"m1x", "m2x">> >>
Twins(ix, sh) == TwinNames[1 + ((ix + sh) % Len(TwinNames))]
IdentFiles(ix) ==
  LET h == HardNames[1 + ((ix - 1) % Len(HardNames))]
      tns == TNs[1 + (ix % 2)]
  IN  OneFile(tns, ix % 3 = 0, <<
    CtNamed(h, << Sq(<< Elem("inner", StrT, O1) >>) >>),
    ElemIn("holder", << Ct(<< Sq(<< Elem(h, Own(tns, h), O1), Elem("rest", StrT, <<"0", "unbounded">>) >>) >>) >>),
    ElemIn("carrier", << Ct(<< N("attribute", <<A("name", h), A("type", StrT)>>, <<>>),
                               N("attribute", <<A("name", "need"), A("type", "xs:int"), A("use", "required")>>, <<>>) >>) >>),
    ElemIn("pick", << Ct(<< N("choice", <<>>, << Elem(h, StrT, O1), Elem("zz", "xs:int", O1) >>) >>) >>),
    ElemIn("grouped", << Ct(<< Sq(<< N("choice", <<A("minOccurs", "0")>>, << Elem(h, StrT, O1), Elem("yy", StrT, O1) >>),
                                      ElemIn("nested", << Ct(<< Sq(<< Elem(h, "xs:boolean", <<"0", "">>) >>) >>) >>) >>) >>) >>),
    ElemIn("twins", << Ct(<< Sq(<< N("choice", <<A("minOccurs", "0")>>, MapS(Twins(ix, 0), LAMBDA n : Elem(n, StrT, O1))),
                                    Elem("amid", StrT, O1) >>) >>) >>),
    ElemIn("cells", << Ct(<< N("choice", <<>>, << N("sequence", <<>>, MapS(Twins(ix, 5), LAMBDA n : Elem(n, StrT, O1))),
                                                  Elem("lone", StrT, O1) >>) >>) >>),
    ElemIn("plots", << Ct(<< Sq(<< Elem("amid", StrT, O1),
                                   N("sequence", <<A("minOccurs", "0")>>, MapS(Twins(ix, 9), LAMBDA n : Elem(n, StrT, O1))) >>) >>) >>),
    N("simpleType", <<A("name", "Shade")>>,
      << N("restriction", <<A("base", StrT)>>, << N("enumeration", <<A("value", h)>>, <<>>),
                                                  N("enumeration", <<A("value", "other")>>, <<>>) >>) >>) >>)

-----------------------------------------------------------------------------
(* enumerations over short strings *)
EnumAlpha == <<"a", "b", "B", "1", "2", "-", "_", " ", "?", "~", "^", "`", "@", "A", "/", ".">>
EnumVals(k) ==
  LET raw == TLCEval([i \in 1..(1 + Below(Sub(k, 1), 7)) |->
               LET kk == Sub(Sub(k, 2), i) IN
               IF Chance(Sub(kk, 1), 12) THEN PickOf(Sub(kk, 2), <<"Variant1", "Variant2", "variant_1", "self", "Self", "V1">>)
               ELSE Cat([m \in 1..(IF Chance(Sub(kk, 3), 6) THEN 0 ELSE 1 + Below(Sub(kk, 4), 4)) |->
                          PickOf(Sub(Sub(kk, 5), m), EnumAlpha)])])
  IN  FoldLeft(LAMBDA a, v : IF v \in Range(a) THEN a ELSE Append(a, v), <<>>, raw)
EnumFiles(seed, ix) ==
  LET k == Key(seed, 50000 + ix)
      st(i) == N("simpleType", <<A("name", "E" \o NumStr(i))>>,
                 << N("restriction", <<A("base", StrT)>>,
                      MapS(IF ix <= 5 THEN EnumSets[1 + ((8 * (ix - 1) + i - 1) % Len(EnumSets))] ELSE EnumVals(Sub(k, i)),
                           LAMBDA v : N("enumeration", <<A("value", v)>>, <<>>))) >>)
  IN  OneFile("", FALSE,
        TLCEval([i \in 1..8 |-> st(i)])
        \o << ElemIn("r", << Ct(<< Sq(TLCEval([i \in 1..4 |-> Elem(Letter(i), "E" \o NumStr(i), ElOcc[i])])) >>
                   \o TLCEval([i \in 1..4 |-> N("attribute", <<A("name", "x" \o NumStr(i)), A("type", "E" \o NumStr(4 + i))>>
                                          \o AIf(i % 2 = 0, "use", "required"), <<>>)])) >>) >>)

-----------------------------------------------------------------------------
(* include graphs: every directed graph over three files *)
GPaths == << <<"main.xsd">>, <<"sub", "two.xsd">>, <<"three.xsd">>, <<"sub", "in", "four.xsd">> >>
GraphFiles(nf, bits, spaces, k) ==
  LET edge(f, g) == ((bits \div Pow(2, (f - 1) * nf + g - 1)) % 2) = 1
      edges == {<<f, g>> \in (1..nf) \X (1..nf) : edge(f, g)}
      live == SelectSeq(Idx(nf), LAMBDA f : f \in Reach(edges, {1}))
      tnsOf(f) == CASE spaces = 0 -> "urn:a" [] spaces = 1 -> "" [] spaces = 2 -> <<"urn:a", "urn:b", "urn:a", "urn:c">>[f]
                    [] OTHER -> <<"urn:a", "urn:b", "urn:c", "urn:d">>[f]
      pre(f) == "n" \o NumStr(f)
      ref(g, n) == IF tnsOf(g) = "" THEN n ELSE pre(g) \o ":" \o n
      pick(f, i) == PickOf(Sub(Sub(k, f), i), live)
      file(f) == [path |-> GPaths[f], tns |-> tnsOf(f)]
      links(f) == MapS(SelectSeq(IF Chance(Sub(k, 90 + f), 50) THEN Idx(nf) ELSE Reverse(Idx(nf)), LAMBDA g : edge(f, g)),
                       LAMBDA g : LinkNode(file(f), file(g), Sub(Sub(k, 40 + f), g)))
      body(f) == <<
        CtNamed("T" \o NumStr(f), << Sq(<< Elem("v" \o NumStr(f), StrT, O1) >>) >>),
        Elem("e" \o NumStr(f), ref(pick(f, 1), "T" \o NumStr(pick(f, 1))), O1),
        ElemIn("h" \o NumStr(f), << Ct(<< Sq(<<
            Elem("loc", ref(pick(f, 2), "T" \o NumStr(pick(f, 2))), <<"0", "">>),
            N("element", <<A("ref", ref(pick(f, 3), "e" \o NumStr(pick(f, 3)))), A("minOccurs", "0")>>, <<>>) >>) >>) >>) >>
      nsd(f) == << [p |-> "xs", u |-> XS] >>
                \o FoldLeft(LAMBDA a, g : IF \E i \in 1..Len(a) : a[i].p = pre(g) THEN a ELSE Append(a, [p |-> pre(g), u |-> tnsOf(g)]),
                            <<>>, SelectSeq(live, LAMBDA g : tnsOf(g) # ""))
  IN  MapS(live, LAMBDA f :
        MkFile(GPaths[f], N("schema", RootAttrs(tnsOf(f), f % 2 = 1),
                            IF Chance(Sub(k, 80 + f), 70) THEN links(f) \o body(f) ELSE body(f) \o links(f)),
               nsd(f), tnsOf(f), f % 2 = 1))
GraphUnit(seed, ix) ==
  IF ix % 3 # 0 THEN GraphFiles(3, Spread(seed, ix, 512), ix % 4, Key(seed, 60000 + ix))
  ELSE GraphFiles(4, Spread(seed, ix, 65536), ix % 4, Key(seed, 60000 + ix))

(* ... in which a file is missing, or is not XML, or refers to one that does   *)
(* not exist, or has something in it that is not supported                     *)
GraphFault(seed, ix) ==
  LET k == Key(seed, 130000 + ix)
      base == GraphUnit(seed, 1 + Below(Sub(k, 1), 100000))
      n == 1 + Below(Sub(k, 2), Len(base))
      root == base[n].root
      links == SelectSeq(Idx(Len(root.k)), LAMBDA i : root.k[i].t \in {"include", "import"})
      what == ix % 5
  IN  CASE what = 0 -> [base EXCEPT ![n].form = "missing"]
        [] what = 1 -> [base EXCEPT ![n] = Garbled(@, Sub(k, 6))]
        [] what = 2 /\ links # <<>> ->
             LET i == PickOf(Sub(k, 3), links)
                 loc == PickOf(Sub(k, 4), << <<"no.xsd">>, <<"no", "where.xsd">>, <<"..", "no.xsd">>, <<".", "sub", "no.xsd">> >>)
             IN  [base EXCEPT ![n].root.k[i].loc = loc,
                              ![n].root.k[i].a[FirstIx(root.k[i].a, LAMBDA x : x.n = "schemaLocation")].v = JoinPath(loc)]
        [] OTHER -> [base EXCEPT ![n] = MutSchema(<<base[n]>>, Sub(k, 5))[1]]

-----------------------------------------------------------------------------
(* target namespace and element form: every combination for two files; every  *)
(* element of a document in every other namespace                              *)
FormFiles(ix) ==
  LET n == ix - 1
      t1 == TNs[1 + (n % 2)]
      q1 == (n \div 2) % 2 = 1
      t2 == TNs[1 + ((n \div 4) % 3)]
      q2 == (n \div 12) % 2 = 1
      dflt == (n \div 24) % 2 = 1 /\ t1 # "" /\ t2 # ""   \* the target namespace is the default one
      p1 == IF dflt THEN "" ELSE "t"
      two == IF t2 = t1 THEN p1 ELSE "o"
      ref(u, p, nm) == IF u = "" \/ p = "" THEN nm ELSE p \o ":" \o nm
      nsd1 == << [p |-> "xs", u |-> XS] >> \o (IF t1 = "" THEN <<>> ELSE << [p |-> p1, u |-> t1] >>)
              \o (IF t2 \in {"", t1} THEN <<>> ELSE << [p |-> "o", u |-> t2] >>)
      nsd2 == << [p |-> "xs", u |-> XS] >> \o (IF t2 = "" THEN <<>> ELSE << [p |-> "q", u |-> t2] >>)
      f1 == [path |-> <<"main.xsd">>, tns |-> t1]
      f2 == [path |-> <<"lib", "b.xsd">>, tns |-> t2]
      inner == CtNamed("Inner", << Sq(<< Elem("deep", StrT, O1), Elem("deep2", "xs:int", <<"0", "">>) >>),
                                   N("attribute", <<A("name", "at"), A("type", StrT)>>, <<>>) >>)
      main == ElemIn("r", << Ct(<< Sq(<<
                 Elem("loc", StrT, O1),
                 N("element", <<A("ref", ref(t2, two, "other"))>>, <<>>),
                 Elem("typed", ref(t2, two, "Inner"), <<"0", "unbounded">>),
                 N("choice", <<A("minOccurs", "0")>>, << Elem("c1", StrT, O1), N("element", <<A("ref", ref(t2, two, "solo"))>>, <<>>) >>),
                 ElemIn("anon", << Ct(<< N("all", <<>>, << Elem("x", StrT, O1), Elem("y", StrT, <<"0", "">>) >>) >>) >>) >>) >>) >>)
  IN  << MkFile(f1.path, N("schema", RootAttrs(t1, q1), << LinkNode(f1, f2, Key(1, ix)), main >>), nsd1, t1, q1),
         MkFile(f2.path, N("schema", RootAttrs(t2, q2),
                           << inner, Elem("other", ref(t2, "q", "Inner"), O1), Elem("solo", "xs:int", O1) >>), nsd2, t2, q2) >>
FormDoc(files, full) ==
  LET f1 == files[1]  f2 == files[2]
      l1 == IF f1.qual THEN f1.tns ELSE ""
      l2 == IF f2.qual THEN f2.tns ELSE ""
      inner(n, u) == El(n, u, <<At1("at", "w")>>, << TextEl("deep", l2, "d"), TextEl("deep2", l2, "5") >>, "", "e")
  IN  KidsEl("r", f1.tns, << TextEl("loc", l1, "l"), inner("other", f2.tns), inner("typed", l1), inner("typed", l1) >>
        \o (IF full THEN << TextEl("solo", f2.tns, "3") >> ELSE << TextEl("c1", l1, "c") >>)
        \o << KidsEl("anon", l1, << TextEl("y", l1, "1"), TextEl("x", l1, "2") >>) >>)
FormUris(u) == <<"", "urn:a", "urn:b", "urn:else", u \o "/", IF u = "" THEN "urn:" ELSE Cut(u)>>
FormFixed == 2 + 6 * 14
FormCase(files, jj) ==
  IF jj <= 2 THEN FormDoc(files, jj = 1)
  ELSE LET d == FormDoc(files, TRUE)
           ps == ElPaths(d, <<>>)
           p == ps[1 + (((jj - 3) \div 6) % Len(ps))]
           u == FormUris(At(d, p).u)[1 + ((jj - 3) % 6)]
       IN  Put(d, p, [At(d, p) EXCEPT !.u = u])

-----------------------------------------------------------------------------
(* attributes: every use and kind of type, on every kind of element; absent,   *)
(* good, bad and unknown attributes                                            *)
AtUse == <<"", "optional", "required", "prohibited">>
AtKind == <<"string", "int", "named", "enum", "inline", "fixed", "fixedReq", "default", "fixedEmpty", "fixedSpace">>
AttrHard(ix) == ((ix - 1) \div (4 * Len(AtKind))) % 2 = 1
AttrUnit(ix) ==
  LET use == AtUse[1 + ((ix - 1) % 4)]
      kind == AtKind[1 + (((ix - 1) \div 4) % Len(AtKind))]
      hy == AttrHard(ix)
      an == IF hy THEN "my-attr.x" ELSE "attr"
      us == AIf(use # "", "use", use)
      inl == N("simpleType", <<>>, << N("restriction", <<A("base", StrT)>>,
                << N("enumeration", <<A("value", "on")>>, <<>>), N("enumeration", <<A("value", "off")>>, <<>>) >>) >>)
      at == CASE kind = "string" -> N("attribute", <<A("name", an), A("type", StrT)>> \o us, <<>>)
              [] kind = "int" -> N("attribute", <<A("name", an), A("type", "xs:int")>> \o us, <<>>)
              [] kind = "named" -> N("attribute", <<A("name", an), A("type", "t:Num")>> \o us, <<>>)
              [] kind = "enum" -> N("attribute", <<A("name", an), A("type", "t:Hue")>> \o us, <<>>)
              [] kind = "inline" -> N("attribute", <<A("name", an)>> \o us, << inl >>)
              [] kind \in {"fixed", "fixedReq"} -> N("attribute", <<A("name", an), A("type", StrT), A("fixed", "on")>> \o us, <<>>)
              [] kind = "fixedEmpty" -> N("attribute", <<A("name", an), A("type", StrT), A("fixed", "")>> \o us, <<>>)
              [] kind = "fixedSpace" -> N("attribute", <<A("name", an), A("type", StrT), A("fixed", " on ")>> \o us, <<>>)
              [] OTHER -> N("attribute", <<A("name", an), A("type", "xs:boolean")>> \o us
                              \o AIf(use # "required", "default", "true"), <<>>)
      more == N("attribute", <<A("name", "second"), A("type", "xs:decimal")>>, <<>>)
      v == Elem("v", StrT, O1)
  IN  OneFile("urn:a", ix % 2 = 0, <<
        N("simpleType", <<A("name", "Num")>>, << N("restriction", <<A("base", "xs:int")>>, << N("minInclusive", <<A("value", "0")>>, <<>>) >>) >>),
        N("simpleType", <<A("name", "Hue")>>, << N("restriction", <<A("base", StrT)>>,
            << N("enumeration", <<A("value", "on")>>, <<>>), N("enumeration", <<A("value", "dim-red")>>, <<>>) >>) >>),
        CtNamed("Bas", << Sq(<< v >>), at >>),
        ElemIn("e1", << Ct(<< Sq(<< v >>), at, more >>) >>),
        ElemIn("e2", << Ct(<< more, at >>) >>),
        ElemIn("e3", << Ct(<< N("simpleContent", <<>>, << N("extension", <<A("base", StrT)>>, <<at>>) >>) >>) >>),
        ElemIn("e4", << Ct(<< N("complexContent", <<>>, << N("extension", <<A("base", "t:Bas")>>, << Sq(<< Elem("w", StrT, <<"0", "">>) >>), more >>) >>) >>) >>),
        ElemIn("e5", << Ct(<< N("choice", <<>>, << v, Elem("w", StrT, O1) >>), at >>) >>),
        ElemIn("e6", << Ct(<< N("all", <<>>, << v >>), at, more >>) >>),
        ElemIn("e7", << Ct(<< N("complexContent", <<>>, << N("extension", <<A("base", "t:Bas")>>, <<more>>) >>) >>) >>) >>)
AttrVals == <<"on", "", "12", "true", "dim-red", "1", " on ", "x&\"<">>
AttrFixed == 7 * 16
AttrCase(files, ix, jj) ==
  LET e == 1 + ((jj - 1) % 7)
      w == (jj - 1) \div 7
      an == IF AttrHard(ix) THEN "my-attr.x" ELSE "attr"
      lu == LocU(files)
      v == TextEl("v", lu, "t")
      at == CASE w = 0 -> <<>>
              [] w <= 8 -> << At1(an, AttrVals[w]) >>
              [] w = 9 -> << At1("second", "1.50"), At1(an, "on") >>
              [] w = 10 -> << [At1(an, "12") EXCEPT !.u = "urn:else"] >>
              [] w = 11 -> << [At1(an, "on") EXCEPT !.u = "urn:a"], At1("second", "2") >>
              [] w = 12 -> << [At1(an, "zz") EXCEPT !.u = "urn:else"], At1(an, "on") >>
              [] w = 13 -> << At1(an, "12"), [At1(an, "zz") EXCEPT !.u = "urn:a"], [At1("second", "zz") EXCEPT !.u = "urn:else"] >>
              [] w = 14 -> << At1(UpperAll(an), "12"), [At1("schemaLocation", "urn:a a.xsd") EXCEPT !.u = XSI], At1(Cut(an), "on") >>
              [] OTHER -> << At1(an, "12"), At1("unknown", "1"), At1("second", "bad") >>
      k == CASE e = 2 -> <<>> [] e = 3 -> <<>> [] OTHER -> <<v>>
  IN  El("e" \o NumStr(e), "urn:a", at, k, IF e = 3 THEN "txt" ELSE "", IF e = 3 THEN "t" ELSE "e")

-----------------------------------------------------------------------------
(* extension: every base with every extension of it, and one of that *)
ExtBases == <<"empty", "attr", "seq", "optseq", "choice", "seqattr", "all">>
ExtAdds == <<"none", "attr", "seq", "optseq", "seqattr", "groupseq">>
ExtUnit(ix) ==
  LET n == ix - 1
      b == ExtBases[1 + (n % 7)]
      x1 == ExtAdds[1 + ((n \div 7) % 6)]
      x2 == ExtAdds[1 + ((n \div 42) % 6)]
      tns == TNs[1 + (n % 2)]
      at(nm, use) == N("attribute", <<A("name", nm), A("type", "xs:int"), A("use", use)>>, <<>>)
      base ==
        CASE b = "empty" -> <<>>
          [] b = "attr" -> << at("ba", "required") >>
          [] b = "seq" -> << Sq(<< Elem("b1", StrT, O1), Elem("b2", "xs:int", <<"0", "unbounded">>) >>) >>
          [] b = "optseq" -> << [Sq(<< Elem("b1", StrT, O1) >>) EXCEPT !.a = <<A("minOccurs", "0")>>] >>
          [] b = "choice" -> << N("choice", <<>>, << Elem("b1", StrT, O1), Elem("b2", "xs:int", O1) >>) >>
          [] b = "seqattr" -> << Sq(<< Elem("b1", StrT, <<"0", "">>) >>), at("ba", "required"), at("bo", "optional") >>
          [] OTHER -> << N("all", <<>>, << Elem("b1", StrT, O1), Elem("b2", "xs:int", <<"0", "">>) >>) >>
      add(x, p) ==
        CASE x = "none" -> <<>>
          [] x = "attr" -> << at(p \o "a", "required"), at(p \o "o", "optional") >>
          [] x = "seq" -> << Sq(<< Elem(p \o "1", StrT, <<"0", "">>), Elem(p \o "2", "xs:int", O1) >>) >>
          [] x = "optseq" -> << [Sq(<< Elem(p \o "1", StrT, O1) >>) EXCEPT !.a = <<A("minOccurs", "0")>>] >>
          [] x = "seqattr" -> << Sq(<< Elem(p \o "1", StrT, <<"1", "unbounded">>) >>), at(p \o "a", "required") >>
          [] OTHER -> << Sq(<< N("choice", <<A("minOccurs", "0")>>, << Elem(p \o "1", StrT, O1), Elem(p \o "2", StrT, O1) >>) >>) >>
      ext(of, kids) == N("complexContent", <<>>, << N("extension", <<A("base", Own(tns, of))>>, kids) >>)
  IN  OneFile(tns, (n \div 2) % 2 = 0, <<
        CtNamed("Level0", base), CtNamed("Level1", << ext("Level0", add(x1, "x")) >>),
        ElemIn("top", << Ct(<< ext("Level1", add(x2, "y")) >>) >>),
        Elem("mid", Own(tns, "Level1"), O1), Elem("low", Own(tns, "Level0"), O1) >>)

-----------------------------------------------------------------------------
(* what the model of a schema has to keep: facets, occurrences, default       *)
(* values, in every place they can be                                         *)
SizeVals == <<"0", "1", "4", "007", "+5", "10", "127", "128", "255", "256", "257", "32768", "65535", "65536", "99999", "2147483648",
              "4294967295", "4294967296", "9007199254740993", "18446744073709551615">>
DecVals == <<"0", "-1.5", "99", "1.50", "+3", ".5", "5.", "-0", "0.1", "-0.001", "100", "255", "256", "65536", "2147483648", "-2147483649",
             "4294967296", "9007199254740993", "123456789.987654321", "79228162514264337593543950335",
             "-79228162514264337593543950335", "0.0000000000000000000000000001", "3.141592653589793238462643383">>
PatVals == <<"[A-Z]+", "\\d{3}", "a|b", "", " x ", "~+", ".*", "(a(b)c)?", "<&>", "'\"", "[A-Z]+", "{long}">>
NumVals == <<"2", "3", "9", "10", "99", "100", "127", "128", "255", "256", "257", "300", "512", "1000", "32767", "32768", "65535", "65536", "65537",
             "99999", "1000000", "16777217", "999999999", "4294967295">>
AnyFacet(k) ==
  LET t == PickOf(Sub(k, 1), <<"length", "minLength", "maxLength", "pattern", "pattern", "minInclusive", "maxInclusive", "fractionDigits", "totalDigits">>)
  IN  Facet(t, PickOf(Sub(k, 2), CASE t = "pattern" -> PatVals [] t \in {"minInclusive", "maxInclusive"} -> DecVals [] OTHER -> SizeVals))
AnyFacets(k) == TLCEval([i \in 1..(1 + Below(Sub(k, 1), 5)) |-> AnyFacet(Sub(Sub(k, 2), i))])
AnyLit(k) == "xs:" \o PickOf(k, <<"string", "int", "integer", "long", "decimal", "nonNegativeInteger", "positiveInteger", "boolean", "float",
                                 "date", "dateTime", "time", "duration", "base64Binary", "hexBinary">>)
AnyOcc(k) == PickOf(k, << <<"0", "">>, <<"", "unbounded">>, <<"0", "unbounded">>, O1, <<"1", "1">>, <<"0", "1">>,
                          <<"", PickOf(Sub(k, 1), NumVals)>>, <<"0", PickOf(Sub(k, 1), NumVals)>>, <<"2", PickOf(Sub(k, 1), NumVals)>>,
                          <<PickOf(Sub(k, 1), NumVals), "unbounded">>, <<PickOf(Sub(k, 1), NumVals), "4294967295">> >>)
FacetUnit(seed, ix) ==
  LET k == Key(seed, 60000 + ix)
      tns == IF ix % 3 = 0 THEN "" ELSE "urn:a"
      restr(n) == Restr(AnyLit(Sub(Sub(k, 1), n)), AnyFacets(Sub(Sub(k, 2), n)))
      inl(n) == << N("simpleType", <<>>, << restr(n) >>) >>
      occ(n) == OccAttrs(AnyOcc(Sub(Sub(k, 3), n)))
      el(nm, n, kids) == N("element", <<A("name", nm)>> \o occ(n), kids)
      ty(nm, n, t) == N("element", <<A("name", nm), A("type", t)>> \o occ(n), <<>>)
      dflt(n) == <<A("default", PickOf(Sub(Sub(k, 4), n), <<"", "x", "two words", " pad ", "~", "<&>", "0", "true", "{long}", "'\"">>))>>
      at(nm, n, t) == N("attribute", <<A("name", nm), A("type", t)>> \o (IF Chance(Sub(Sub(k, 5), n), 60) THEN dflt(n) ELSE <<>>), <<>>)
      mixed == <<Facet("enumeration", "on")>> \o AnyFacets(Sub(k, 9)) \o <<Facet("enumeration", "off")>>
  IN  OneFile(tns, ix % 2 = 0, <<
        StNamed("Alpha", restr(1)), StNamed("Beta", restr(2)), StNamed("Gamma", Restr("xs:string", mixed)),
        ElemIn("outer", inl(3)),
        ElemIn("holder", << Ct(<< Sq(<< ty("one", 1, Own(tns, "Alpha")), el("two", 2, inl(4)), ty("three", 3, AnyLit(Sub(k, 6))),
            N("element", <<A("ref", Own(tns, "outer"))>> \o occ(4), <<>>),
            N("choice", occ(5), << ty("four", 6, Own(tns, "Beta")), el("five", 7, inl(5)), N("sequence", occ(8), << ty("six", 9, "xs:int") >>) >>) >>),
            at("a1", 1, "xs:string"), at("a2", 2, Own(tns, "Alpha")), at("a3", 3, Own(tns, "Gamma")),
            N("attribute", <<A("name", "a4")>> \o dflt(4), inl(6)) >>) >>),
        CtNamed("Text", << N("simpleContent", <<>>, << N("extension", <<A("base", Own(tns, "Alpha"))>>, << at("a5", 5, "xs:int"), at("a6", 6, "xs:boolean") >>) >>) >>),
        CtNamed("Whole", << N("sequence", occ(10), << ty("seven", 11, "xs:string"), el("eight", 12, inl(7)) >>) >>) >>)

-----------------------------------------------------------------------------
(* texts: a small schema, two documents of it as tokens, and every change of   *)
(* the text (then pairs of changes)                                           *)
WfTns(ix) == IF ix % 3 = 1 THEN "" ELSE "urn:a"
WfFiles(ix) ==
  LET tns == WfTns(ix) IN
  OneFile(tns, ix % 3 = 0, <<
    CtNamed("Deep", << Sq(<< Elem("e", StrT, O1), Elem("f", StrT, <<"0", "">>) >>) >>),
    ElemIn("r", << Ct(<< Sq(<< Elem("a", StrT, O1), Elem("b", "xs:int", <<"0", "unbounded">>),
        ElemIn("c", << Ct(<< N("simpleContent", <<>>, << N("extension", <<A("base", StrT)>>,
            << N("attribute", <<A("name", "k"), A("type", "xs:int")>>, <<>>) >>) >>) >>) >>),
        Elem("d", Own(tns, "Deep"), <<"0", "">>) >>),
      N("attribute", <<A("name", "at"), A("type", StrT), A("use", "required")>>, <<>>),
      N("attribute", <<A("name", "xt"), A("type", StrT)>>, <<>>) >>) >>) >>)
WfBase(ix) ==
  LET tns == WfTns(ix)
      q == ix % 3 = 0
      \* the prefix of the root and of the others: the namespace is the default one, or has a prefix
      pr == IF tns = "" \/ (q /\ (ix \div 3) % 2 = 1) THEN "" ELSE "p"
      pl == IF q THEN pr ELSE ""
      decl == IF tns = "" THEN <<>> ELSE IF pr = "" THEN << TA("", "xmlns", tns) >> ELSE << TA("xmlns", "p", tns) >>
      o(n, a) == Open_(pl, n, a)
      c(n) == Close_(pl, n)
      t(s) == Tk("text", s)
  IN  IF ix % 2 = 0
      THEN << Open_(pr, "r", decl \o << TA("", "at", "1") >>), o("a", <<>>), t("x"), c("a"), Empty_(pl, "c", << TA("", "k", "2") >>), Close_(pr, "r") >>
      ELSE << Tk("decl", ""), t("\n"), Open_(pr, "r", << TA("", "at", "one two") >> \o decl \o << TA("", "xt", "") >>), t("\n "),
              o("a", <<>>), t("x "), Tk("ref", "lt"), Tk("cdata", "<y>"), c("a"),
              o("b", <<>>), t("1"), Tk("comment", " c "), c("b"), o("b", <<>>), t("2"), c("b"),
              o("c", << TA("", "k", "3") >>), Tk("pi", "go"), t("z"), c("c"),
              o("d", <<>>), o("e", <<>>), c("e"), Empty_(pl, "f", <<>>), t(" "), c("d"), Close_(pr, "r"), Tk("comment", "end") >>
\* n texts, spread over all of them; as many as there are when n is larger, and then pairs of changes
WfToks(seed, ix, jj, n) ==
  LET base == TLCEval(WfBase(ix))
      all == EditCount(base)
      one(m) == EditAt(base, m)
      k == Key(seed, 140000 + ix * 7919 + jj)
  IN  IF jj = 1 THEN base
      ELSE IF n < all THEN one(1 + Spread(seed, jj + 1000 * ix, all))
      ELSE IF jj <= all THEN one(jj)
      ELSE LET f == TLCEval(one(3 + 1 + Below(Sub(k, 1), all - 3)))
               back(ts) == [i \in 1..Len(ts) |-> ts[i]]
           IN  IF f = <<>> \/ (\A i \in 1..Len(f) : f[i].t # "close") THEN f
               ELSE EditAt(back(f), 4 + Below(Sub(k, 2), EditCount(f) - 3))

-----------------------------------------------------------------------------
(* sizes: the same kinds of things, many of them                               *)
BigKinds == <<"rep", "repc", "repch", "repseq", "seq", "all", "choice", "attrs", "enum", "chain", "nest", "names", "line", "star", "bounds", "types">>
BigSizes == <<1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300>>
BigKind(ix) == BigKinds[1 + ((ix - 1) % Len(BigKinds))]
\* how many there are in the schema
BigN(ix) ==
  LET k == BigKind(ix)  b == (ix - 1) \div Len(BigKinds) IN
  CASE k \in {"seq", "attrs", "types"} -> <<70, 260, 33>>[1 + (b % 3)]
    [] k = "enum" -> <<130, 65, 257>>[1 + (b % 3)]
    [] k = "all" -> <<40, 20, 33>>[1 + (b % 3)]
    [] k = "choice" -> <<40, 70, 33>>[1 + (b % 3)]
    [] k \in {"chain", "line", "star"} -> <<35, 18, 70>>[1 + (b % 3)]
    [] k = "nest" -> <<18, 11, 33>>[1 + (b % 3)]
    [] OTHER -> 1
BigName(k, i) == k \o NumStr(i)
LongName == "aVeryLongNameThatGoesOnAndOnWithoutEverComingToAnEndBecauseSomebodyThoughtThatNamesShouldSayEverything"
BigFiles(ix) ==
  LET k == BigKind(ix)
      n == BigN(ix)
      tns == IF ix % 2 = 0 THEN "urn:a" ELSE ""
      qual == (ix \div 2) % 2 = 0
      many(f(_)) == TLCEval([i \in 1..n |-> f(i)])
      r(kids) == ElemIn("r", << Ct(kids) >>)
      tail == Elem("tail", StrT, <<"0", "">>)
      f1 == [path |-> <<"main.xsd">>, tns |-> tns]
      path(i) == IF i = 0 THEN <<"main.xsd">> ELSE IF i % 3 = 0 THEN <<"d" \o NumStr(i), "f.xsd">> ELSE <<"f" \o NumStr(i) \o ".xsd">>
      uri(i) == IF i = 0 THEN "urn:a" ELSE "urn:n" \o NumStr(i)
      desc(i) == [path |-> path(i), tns |-> uri(i)]
      pre(i) == "p" \o NumStr(i)
      decl(is) == << [p |-> "xs", u |-> XS] >> \o MapS(is, LAMBDA i : [p |-> pre(i), u |-> uri(i)])
      typ(i) == CtNamed(BigName("T", i), << Sq(<< Elem(BigName("v", i), StrT, O1) >>) >>)
  IN  CASE k = "rep" -> OneFile(tns, qual, << r(<< Sq(<< Elem("i", "xs:int", <<"0", "unbounded">>), tail >>) >>) >>)
        [] k = "repc" -> OneFile(tns, qual, << r(<< Sq(<< N("element", <<A("name", "i"), A("maxOccurs", "unbounded")>>,
                            << Ct(<< Sq(<< Elem("v", StrT, O1) >>), N("attribute", <<A("name", "at"), A("type", "xs:int")>>, <<>>) >>) >>), tail >>) >>) >>)
        [] k = "repch" -> OneFile(tns, qual, << r(<< Sq(<< N("choice", <<A("minOccurs", "0"), A("maxOccurs", "unbounded")>>,
                            << Elem("a", StrT, O1), Elem("b", "xs:int", O1) >>), tail >>) >>) >>)
        [] k = "repseq" -> OneFile(tns, qual, << r(<< N("sequence", <<A("maxOccurs", "unbounded")>>, << Elem("a", StrT, O1), Elem("b", "xs:int", <<"0", "">>) >>) >>) >>)
        [] k = "seq" -> OneFile(tns, qual, << r(<< Sq(many(LAMBDA i : Elem(BigName("m", i), IF i % 2 = 0 THEN StrT ELSE "xs:int", O1))) >>) >>)
        [] k = "all" -> OneFile(tns, qual, << r(<< N("all", <<>>, many(LAMBDA i : Elem(BigName("m", i), StrT, IF i % 5 = 0 THEN <<"0", "">> ELSE O1))) >>) >>)
        [] k = "choice" -> OneFile(tns, qual, << r(<< Sq(<< N("choice", <<>>, many(LAMBDA i : Elem(BigName("m", i), IF i % 2 = 0 THEN StrT ELSE "xs:int", O1))), tail >>) >>) >>)
        [] k = "attrs" -> OneFile(tns, qual, << r(many(LAMBDA i : N("attribute", <<A("name", BigName("m", i)), A("type", IF i % 2 = 0 THEN StrT ELSE "xs:int")>>
                                                                   \o AIf(i % 4 = 0, "use", "required"), <<>>))) >>)
        [] k = "enum" -> OneFile(tns, qual, << StNamed("Many", Restr(StrT, many(LAMBDA i : Facet("enumeration", BigName("v", i))))),
                                               r(<< Sq(<< Elem("e", Own(tns, "Many"), <<"0", "unbounded">>) >>) >>) >>)
        [] k = "chain" -> OneFile(tns, qual, << CtNamed("L0", << Sq(<< Elem("v0", StrT, O1) >>) >>) >>
             \o many(LAMBDA i : CtNamed(BigName("L", i), << Ext("complexContent", Own(tns, BigName("L", i - 1)),
                   << Sq(<< Elem(BigName("v", i), "xs:int", O1) >>) >> \o (IF i % 3 = 0 THEN << N("attribute", <<A("name", BigName("at", i)), A("type", StrT)>>, <<>>) >> ELSE <<>>)) >>))
             \o << Elem("r", Own(tns, BigName("L", n)), O1) >>)
        [] k = "nest" -> OneFile(tns, qual, << FoldLeft(LAMBDA x, i : ElemIn(IF i = n THEN "r" ELSE "x", << Ct(<< Sq(<< x >>) >>) >>), Elem("leaf", StrT, O1), Idx(n)) >>)
        [] k = "names" -> OneFile(tns, qual, << CtNamed(LongName \o "Type", << Sq(<< Elem(LongName, StrT, O1), Elem(LongName \o "2", StrT, O1) >>),
                             N("attribute", <<A("name", LongName \o "At"), A("type", StrT)>>, <<>>) >>),
                             r(<< Sq(<< Elem(LongName \o "Element", Own(tns, LongName \o "Type"), O1) >>) >>) >>)
        [] k = "bounds" -> OneFile(tns, qual, << r(<< Sq(<< Elem("i", "xs:int", <<"2", "256">>), Elem("j", StrT, <<"0", "300">>), tail >>) >>) >>)
        [] k = "types" -> OneFile(tns, qual, << r(<< Sq(many(LAMBDA i : Elem(BigName("m", i), Own(tns, BigName("T", i)), <<"0", "">>))) >>) >> \o many(typ))
        [] k = "line" -> \* every file includes the next one and the one before; the first uses a type of the last
             TLCEval([i \in 1..n |->
               MkFile(path(i - 1), N("schema", RootAttrs(tns, qual),
                        (IF i = n THEN <<>> ELSE << LinkNode([path |-> path(i - 1), tns |-> tns], [path |-> path(i), tns |-> tns], Key(1, i)) >>)
                        \o (IF i = 1 THEN <<>> ELSE << LinkNode([path |-> path(i - 1), tns |-> tns], [path |-> path(i - 2), tns |-> tns], Key(1, i)) >>)
                        \o << typ(i) >> \o (IF i = 1 THEN << r(<< Sq(<< Elem("m", Own(tns, BigName("T", n)), O1), Elem("o", Own(tns, "T2"), O1) >>) >>) >> ELSE <<>>)),
                      Decls(tns), tns, qual)])
        [] OTHER -> \* "star": one file imports all the others, each of which has a namespace of its own
             TLCEval([j \in 1..n |-> LET i == j - 1 IN
               IF i = 0
               THEN MkFile(path(0), N("schema", RootAttrs(uri(0), qual),
                      TLCEval([m \in 1..(n - 1) |-> LinkNode(desc(0), desc(m), Key(1, m))])
                      \o << r(<< Sq(TLCEval([m \in 1..(n - 1) |-> N("element", <<A("ref", pre(m) \o ":" \o BigName("e", m))>>, <<>>)])) >>) >>),
                      decl(<<0>> \o Idx(n - 1)), uri(0), qual)
               ELSE MkFile(path(i), N("schema", RootAttrs(uri(i), qual),
                      << typ(i), Elem(BigName("e", i), pre(i) \o ":" \o BigName("T", i), O1) >>), decl(<<i>>), uri(i), qual)])
BigFixed(ix) == CASE BigKind(ix) \in {"rep", "repc", "repch", "repseq", "enum", "bounds"} -> Len(BigSizes) + 1
                  [] BigKind(ix) = "choice" -> BigN(ix) + 1
                  [] BigKind(ix) = "names" -> 1
                  [] OTHER -> 5
BigDoc(files, ix, jj) ==
  LET k == BigKind(ix)
      n == BigN(ix)
      u == LocU(files)
      tns == files[1].tns
      sz == IF jj > Len(BigSizes) THEN 0 ELSE BigSizes[jj]
      seq(m, f(_)) == TLCEval([i \in 1..m |-> f(i)])
      rr(kids) == KidsEl("r", tns, kids)
      tail == TextEl("tail", u, "end")
      val(i) == IF i % 2 = 0 THEN "s" \o NumStr(i) ELSE NumStr(i)
      tk(i) == KidsEl(BigName("m", i), u, << TextEl(BigName("v", i), u, "x" \o NumStr(i)) >>)
      \* all of them; backwards; the last one missing; the last one twice; the first at the end
      var(s) == CASE jj = 1 -> s [] jj = 2 -> Reverse(s) [] jj = 3 -> SubSeq(s, 1, Len(s) - 1) [] jj = 4 -> Append(s, s[Len(s)]) [] OTHER -> Append(Tail(s), s[1])
  IN  CASE k = "rep" -> rr(Append(seq(sz, LAMBDA i : TextEl("i", u, NumStr(i))), tail))
        [] k = "repc" -> rr(Append(seq(sz, LAMBDA i : El("i", u, IF i % 3 = 0 THEN <<>> ELSE << At1("at", NumStr(i)) >>, << TextEl("v", u, "x" \o NumStr(i)) >>, "", "e")), tail))
        [] k = "repch" -> rr(Append(seq(sz, LAMBDA i : IF (i * i) % 3 = 1 THEN TextEl("a", u, "x" \o NumStr(i)) ELSE TextEl("b", u, NumStr(i))), tail))
        [] k = "repseq" -> rr(seq(sz, LAMBDA i : IF i % 3 = 2 THEN TextEl("b", u, NumStr(i)) ELSE TextEl("a", u, "x" \o NumStr(i))))
        [] k = "enum" -> rr(seq(sz, LAMBDA i : TextEl("e", u, BigName("v", IF i > n THEN i ELSE n + 1 - i))))
        [] k = "bounds" -> rr(seq(sz, LAMBDA i : TextEl("i", u, NumStr(i))) \o seq((sz + 100) % 310, LAMBDA i : TextEl("j", u, NumStr(i))) \o << tail >>)
        [] k \in {"seq", "all"} -> rr(var(seq(n, LAMBDA i : TextEl(BigName("m", i), u, val(i)))))
        [] k = "choice" -> rr(IF jj > n THEN << tail >> ELSE << TextEl(BigName("m", jj), u, val(jj)), tail >>)
        [] k = "attrs" -> El("r", tns, IF jj = 4 THEN SelectSeq(seq(n, LAMBDA i : At1(BigName("m", i), val(i))), LAMBDA x : x.v # "3")
                                       ELSE IF jj = 5 THEN Append(seq(n, LAMBDA i : At1(BigName("m", i), val(i))), At1("more", "1"))
                                       ELSE var(seq(n, LAMBDA i : At1(BigName("m", i), val(i)))), <<>>, "", "e")
        [] k = "chain" -> LET d == rr(var(seq(n + 1, LAMBDA i : TextEl(BigName("v", i - 1), u, IF i = 1 THEN "s" ELSE NumStr(i)))))
                          IN  [d EXCEPT !.a = TLCEval([i \in 1..(n \div 3) |-> At1(BigName("at", 3 * i), "y" \o NumStr(i))])]
        [] k = "nest" -> FoldLeft(LAMBDA x, i : IF i = n THEN rr(<< x >>) ELSE IF jj > 1 /\ i = n - jj THEN KidsEl("x", u, <<>>) ELSE KidsEl("x", u, << x >>),
                                  TextEl("leaf", u, "deep"), Idx(n))
        [] k = "names" -> rr(<< El(LongName \o "Element", u, << At1(LongName \o "At", "1") >>, << TextEl(LongName, u, "2"), TextEl(LongName \o "2", u, "3") >>, "", "e") >>)
        [] k = "types" -> rr(var(seq(n, tk)))
        [] k = "line" -> rr(var(<< KidsEl("m", u, << TextEl(BigName("v", n), u, "x") >>), KidsEl("o", u, << TextEl("v2", u, "y") >>) >>))
        [] OTHER -> rr(var(seq(n - 1, LAMBDA i : KidsEl(BigName("e", i), "urn:n" \o NumStr(i),
                             << TextEl(BigName("v", i), IF files[1].qual THEN "urn:n" \o NumStr(i) ELSE "", "z" \o NumStr(i)) >>))))

-----------------------------------------------------------------------------
Fams == {"big", "wf", "facet", "chm", "ocm", "alm", "lit", "ident", "enumset", "graph", "gflt", "fault", "flt", "ann", "form", "attr", "ext"}
ModelFam(fam) == CASE fam = "chm" -> ChoiceShapes [] fam = "ocm" -> OccShapes [] OTHER -> AllShapes
FamFiles(fam, seed, ix) ==
  CASE fam \in {"chm", "ocm", "alm"} -> ModelFiles(ModelFam(fam), seed, ix)
    [] fam = "facet" -> FacetUnit(seed, ix)
    [] fam = "lit" -> LitFiles(ix)
    [] fam = "ident" -> IdentFiles(ix)
    [] fam = "enumset" -> EnumFiles(seed, ix)
    [] fam = "graph" -> GraphUnit(seed, ix)
    [] fam = "gflt" -> GraphFault(seed, ix)
    [] fam = "fault" -> FaultFiles(seed, ix)
    [] fam = "flt" -> CatFault(seed, ix)
    [] fam = "ann" -> DocUnit(seed, ix)
    [] fam = "form" -> FormFiles(ix)
    [] fam = "attr" -> AttrUnit(ix)
    [] fam = "ext" -> ExtUnit(ix)
    [] fam = "wf" -> WfFiles(ix)
    [] fam = "big" -> BigFiles(ix)
\* how many enumerated documents there are
FixedCases(fam, seed, ix, n) ==
  CASE fam \in {"chm", "ocm", "alm"} ->
         Min2(345, WordCount(Leaves(ModelFrom(ModelFam(fam), seed, ix).s), fam = "alm"))
    [] fam = "lit" -> LitFixed(ix, n)
    [] fam = "form" -> FormFixed
    [] fam = "attr" -> AttrFixed
    [] fam = "wf" -> n
    [] fam = "big" -> BigFixed(ix)
    [] OTHER -> 0
FamCases(fam, seed, ix, n) == FixedCases(fam, seed, ix, n) + (IF fam \in {"lit", "wf"} THEN 0 ELSE n)
FamDoc(fam, seed, ix, jj, files) ==
  CASE fam \in {"chm", "ocm", "alm"} -> WordDoc(files, KindsOf(files[1].tns, seed, ix), Leaves(ModelFrom(ModelFam(fam), seed, ix).s), jj - 1)
    [] fam = "lit" -> LitDoc(seed, ix, jj)
    [] fam = "form" -> FormCase(files, jj)
    [] fam = "attr" -> AttrCase(files, ix, jj)
    [] fam = "big" -> BigDoc(files, ix, jj)
\* changes whose first error is not promised: several things may be wrong at once
FamWhat(fam, jj) == CASE fam \in {"chm", "ocm", "alm", "attr", "big"} -> <<"word", "word">> [] OTHER -> <<"set">>
WfCase(seed, ix, jj, n, g, NmOf(_)) ==
  LET toks == TLCEval(WfToks(seed, ix, jj, n))
      r == TLCEval(Meaning(toks))
      d == g[FirstIx(g, LAMBDA x : x.t = "e" /\ x.n = "r")]
  IN  [t |-> "e", q |-> [n |-> d.n, u |-> d.u], nm |-> NmOf(d), x |-> VUnit, enc |-> r.doc, doc |-> r.doc,
       made |-> FALSE, what |-> IF r.ok THEN <<"text", "text">> ELSE <<"text">>, key |-> <<0, 0>>,
       toks |-> toks, wf |-> r.ok, mix |-> r.mix]
FamCase(fam, seed, ix, jj, n, files, g, sc, NmOf(_)) ==
  IF fam = "wf" THEN WfCase(seed, ix, jj, n, g, NmOf) ELSE
  LET doc == FamDoc(fam, seed, ix, jj, files)
      d == g[FirstIx(g, LAMBDA x : x.t = "e" /\ x.n = doc.n)]
  IN  [t |-> "e", q |-> [n |-> d.n, u |-> d.u], nm |-> NmOf(d), x |-> VUnit, enc |-> doc, doc |-> doc,
       made |-> FALSE, what |-> FamWhat(fam, jj), key |-> <<0, 0>>, toks |-> <<>>, wf |-> TRUE, mix |-> FALSE]
=============================================================================
