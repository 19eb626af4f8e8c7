------------------------------- MODULE Content -------------------------------
(* What the schema says about documents, written from the XSD recommendation  *)
(* and independently of the loader and the codec: which documents are valid.  *)
(* Facets other than enumerations are not considered (the library documents   *)
(* that it does not enforce them), fixed values are compared as written.      *)
(* With lax = TRUE the number of occurrences of repeatable particles is not   *)
(* looked at.                                                                 *)
EXTENDS Loader

XSI == "XSI"   \* the namespace of schemaLocation and the like, allowed everywhere

\* the global declarations of the files: <<[t, n, u, node, f]>>
GlobalsOf(files) ==
  Flat([i \in 1..Len(files) |->
    IF files[i].form # "ok" THEN <<>>
    ELSE MapS(Filter(files[i].root.k, LAMBDA x : x.x /\ x.t \in {"element", "complexType", "simpleType"}),
              LAMBDA x : [t |-> IF x.t = "element" THEN "e" ELSE "t",
                          n |-> AVal(x, "name"), u |-> files[i].tns, node |-> x, f |-> files[i]])])
Qn(f, v) ==
  LET i == IndexOfCh(v, ":")
      j == FirstIx(f.nsd, LAMBDA d : d.p = IF i = 0 THEN "" ELSE SubSeq(v, 1, i - 1))
  IN  [n |-> SubSeq(v, i + 1, Len(v)), u |-> IF j = 0 THEN "" ELSE f.nsd[j].u]
Global(g, t, q) == g[FirstIx(g, LAMBDA x : x.t = t /\ x.n = q.n /\ x.u = q.u)]

\* simple types, given by name or by node
RECURSIVE SimpleNodeOk(_, _, _, _), SimpleNameOk(_, _, _)
SimpleNameOk(g, q, s) ==
  IF q.u = XS THEN Parse(LitOf[q.n], s).ok
  ELSE LET d == Global(g, "t", q) IN SimpleNodeOk(g, d.f, d.node, s)
SimpleNodeOk(g, f, node, s) ==
  LET res == Kid(XKids(node), "restriction")
      vals == {AVal(x, "value") : x \in {y \in Range(XKids(res)) : y.t = "enumeration"}}
  IN  IF vals # {} THEN s \in vals ELSE SimpleNameOk(g, Qn(f, AVal(res, "base")), s)

OccNum(s) == IF s \in DOMAIN SmallNum THEN SmallNum[s] ELSE IF Len(s) > 9 THEN 2000000000
             ELSE FoldLeft(LAMBDA a, c : IF c \in DigitSet THEN 10 * a + DigitVal[c] ELSE a, 0, Chars(s))
Occ(node) ==
  [min |-> IF Has(node, "minOccurs") THEN OccNum(AVal(node, "minOccurs")) ELSE 1,
   max |-> IF ~Has(node, "maxOccurs") THEN 1
           ELSE IF AVal(node, "maxOccurs") = "unbounded" THEN Unbounded
           ELSE OccNum(AVal(node, "maxOccurs"))]

\* the attribute declarations and the particles of a complex type including its base types
RECURSIVE AttrDecls(_, _, _), Particles(_, _, _), SimpleBase(_, _, _)
ExtOf(ct) ==
  LET kids == XKids(ct) IN
  IF HasKid(kids, "simpleContent") THEN << Kid(XKids(Kid(kids, "simpleContent")), "extension") >>
  ELSE IF HasKid(kids, "complexContent") THEN << Kid(XKids(Kid(kids, "complexContent")), "extension") >>
  ELSE <<>>
AttrDecls(g, f, ct) ==
  LET own(n) == MapS(AttrNodes(XKids(n)), LAMBDA x : [f |-> f, node |-> x])
      ext == ExtOf(ct)
  IN  IF ext = <<>> THEN own(ct)
      ELSE LET q == Qn(f, AVal(ext[1], "base")) IN
           IF q.u = XS THEN own(ext[1])
           ELSE LET d == Global(g, "t", q) IN
                (IF d.node.t = "simpleType" THEN <<>> ELSE AttrDecls(g, d.f, d.node)) \o own(ext[1])
Groups == {"sequence", "all", "choice"}
Particles(g, f, ct) ==
  LET own(n) == MapS(Filter(XKids(n), LAMBDA x : x.t \in Groups), LAMBDA x : [f |-> f, node |-> x])
      ext == ExtOf(ct)
  IN  IF ext = <<>> THEN own(ct)
      ELSE LET d == Global(g, "t", Qn(f, AVal(ext[1], "base"))) IN
           Particles(g, d.f, d.node) \o own(ext[1])
\* the simple type of simple content, as [q, ok]
SimpleBase(g, f, ct) ==
  LET q == Qn(f, AVal(ExtOf(ct)[1], "base")) IN
  IF q.u = XS THEN q
  ELSE LET d == Global(g, "t", q) IN
       IF d.node.t = "simpleType" THEN q ELSE SimpleBase(g, d.f, d.node)
\* complex types whose content is text, directly or through an attribute-only complexContent
RECURSIVE IsSimpleContent(_, _, _)
IsSimpleContent(g, f, ct) ==
  LET kids == XKids(ct) IN
  \/ HasKid(kids, "simpleContent")
  \/ /\ HasKid(kids, "complexContent")
     /\ LET d == Global(g, "t", Qn(f, AVal(ExtOf(ct)[1], "base"))) IN
        d.node.t = "complexType" /\ IsSimpleContent(g, d.f, d.node)

AttrsOk(g, f, ct, el) ==
  LET ds == AttrDecls(g, f, ct)
      used == Filter(ds, LAMBDA d : ~(Has(d.node, "use") /\ AVal(d.node, "use") = "prohibited"))
      valOk(d, s) ==
        /\ IF HasKid(XKids(d.node), "simpleType")
           THEN SimpleNodeOk(g, d.f, Kid(XKids(d.node), "simpleType"), s)
           ELSE SimpleNameOk(g, Qn(d.f, AVal(d.node, "type")), s)
        /\ Has(d.node, "fixed") => s = AVal(d.node, "fixed")
  IN  /\ \A i \in 1..Len(el.a) : el.a[i].u = XSI \/
           LET j == FirstIx(used, LAMBDA d : AVal(d.node, "name") = el.a[i].n) IN
           el.a[i].u = "" /\ j # 0 /\ valOk(used[j], el.a[i].v)
      /\ \A j \in 1..Len(used) :
           (Has(used[j].node, "use") /\ AVal(used[j].node, "use") = "required")
             => \E i \in 1..Len(el.a) : el.a[i].u = "" /\ el.a[i].n = AVal(used[j].node, "name")

RECURSIVE ElemOk(_, _, _, _, _), ComplexOk(_, _, _, _, _), TypeOk(_, _, _, _),
          Ends(_, _, _, _, _, _), EndsOnce(_, _, _, _, _, _), EndsSeq(_, _, _, _, _, _),
          EndsAll(_, _, _, _, _, _), EndsRep(_, _, _, _, _, _, _, _, _), EndsParts(_, _, _, _, _)

NoMarkup(el) == el.k = <<>>
NoAttrs(el) == \A i \in 1..Len(el.a) : el.a[i].u = XSI
TypeOk(g, q, el, lax) ==
  IF q.u = XS THEN NoAttrs(el) /\ NoMarkup(el) /\ SimpleNameOk(g, q, el.s)
  ELSE LET d == Global(g, "t", q) IN
       IF d.node.t = "simpleType" THEN NoAttrs(el) /\ NoMarkup(el) /\ SimpleNodeOk(g, d.f, d.node, el.s)
       ELSE ComplexOk(g, d.f, d.node, el, lax)

ElemOk(g, f, decl, el, lax) ==
  LET kids == XKids(decl) IN
  IF Has(decl, "type")
  THEN TypeOk(g, Qn(f, AVal(decl, "type")), el, lax) /\ (Has(decl, "fixed") => el.s = AVal(decl, "fixed"))
  ELSE IF HasKid(kids, "complexType") THEN ComplexOk(g, f, Kid(kids, "complexType"), el, lax)
  ELSE IF HasKid(kids, "simpleType")
  THEN NoAttrs(el) /\ NoMarkup(el) /\ SimpleNodeOk(g, f, Kid(kids, "simpleType"), el.s)
  ELSE NoAttrs(el) /\ NoMarkup(el)   \* anyType: only text is supported, which is what is claimed

ComplexOk(g, f, ct, el, lax) ==
  /\ AttrsOk(g, f, ct, el)
  /\ IF IsSimpleContent(g, f, ct)
     THEN NoMarkup(el) /\ SimpleNameOk(g, SimpleBase(g, f, ct), el.s)
     ELSE /\ el.s = ""
          /\ (Len(el.k) + 1) \in EndsParts(g, Particles(g, f, ct), el.k, {1}, lax)

\* the positions at which a match that starts at a position in from may end
EndsParts(g, parts, kids, from, lax) ==
  IF parts = <<>> THEN from
  ELSE EndsParts(g, Tail(parts), kids,
                 UNION {Ends(g, parts[1].f, parts[1].node, kids, i, lax) : i \in from}, lax)
Ends(g, f, node, kids, i, lax) ==
  LET o == Occ(node)
      rep == o.max = Unbounded \/ o.max > 1
      mn == IF lax /\ rep THEN 0 ELSE o.min
      mx == IF o.max = Unbounded \/ (lax /\ rep) THEN mn + Len(kids) + 1 ELSE o.max
  IN  EndsRep(g, f, node, kids, {i}, mn, mx, lax, IF mn = 0 THEN {i} ELSE {})
\* after n further repetitions
EndsRep(g, f, node, kids, from, mn, mx, lax, acc) ==
  IF mx = 0 \/ from = {} THEN acc
  ELSE LET to == UNION {EndsOnce(g, f, node, kids, i, lax) : i \in from}
           fresh == IF mn <= 1 THEN to \ acc ELSE to
       IN  EndsRep(g, f, node, kids, fresh, IF mn = 0 THEN 0 ELSE mn - 1, mx - 1, lax,
                   IF mn <= 1 THEN acc \cup to ELSE acc)
EndsOnce(g, f, node, kids, i, lax) ==
  CASE node.t = "element" ->
         IF i > Len(kids) THEN {}
         ELSE LET isRef == Has(node, "ref")
                  d == IF isRef THEN Global(g, "e", Qn(f, AVal(node, "ref")))
                       ELSE [n |-> AVal(node, "name"), u |-> IF f.qual THEN f.tns ELSE "",
                             node |-> node, f |-> f]
              IN  IF kids[i].n = d.n /\ kids[i].u = d.u /\ ElemOk(g, d.f, d.node, kids[i], lax)
                  THEN {i + 1} ELSE {}
    [] node.t = "sequence" -> EndsSeq(g, f, Filter(XKids(node), LAMBDA x : x.t # "annotation"), kids, {i}, lax)
    [] node.t = "choice" ->
         \* an alternative of which nothing is there is not claimed to be accepted (finding F06)
         UNION {Ends(g, f, c, kids, i, lax) : c \in {x \in Range(XKids(node)) : x.t # "annotation"}} \ {i}
    [] node.t = "all" -> EndsAll(g, f, {x \in Range(XKids(node)) : x.t # "annotation"}, kids, i, lax)
EndsSeq(g, f, parts, kids, from, lax) ==
  IF parts = <<>> THEN from
  ELSE EndsSeq(g, f, Tail(parts), kids, UNION {Ends(g, f, parts[1], kids, i, lax) : i \in from}, lax)
EndsAll(g, f, parts, kids, i, lax) ==
  (IF \A p \in parts : Occ(p).min = 0 THEN {i} ELSE {})
  \cup UNION {UNION {EndsAll(g, f, parts \ {p}, kids, j, lax) : j \in EndsOnce(g, f, p, kids, i, lax)}
              : p \in parts}

\* a document with the given global element, or with a root named like a global type
ValidDoc(g, t, q, doc, lax) ==
  /\ doc.n = q.n /\ doc.u = q.u
  /\ IF t = "e" THEN LET d == Global(g, "e", q) IN ElemOk(g, d.f, d.node, doc, lax)
     ELSE TypeOk(g, q, doc, lax)

-----------------------------------------------------------------------------
(* Unique particle attribution: positions of a content model, first and       *)
(* follow sets; two competing positions for one name make a schema invalid.   *)
(* A position is the path of an element particle, its name an expanded name.  *)
RECURSIVE Pos(_, _, _)
\* [null, first, last, follow]: sets of positions <<path, name>>, follow a set of pairs
Pos(f, node, path) ==
  LET o == Occ(node)
      kids == IF node.t = "element" THEN <<>> ELSE Filter(XKids(node), LAMBDA x : x.t # "annotation")
      sub == TLCEval([j \in 1..Len(kids) |-> Pos(f, kids[j], Append(path, j))])
      q == IF Has(node, "ref") THEN Qn(f, AVal(node, "ref"))
           ELSE [n |-> AVal(node, "name"), u |-> IF f.qual THEN f.tns ELSE ""]
      me == <<path, q>>
      catS == FoldLeft(LAMBDA a, b :
                [null |-> a.null /\ b.null,
                 first |-> a.first \cup (IF a.null THEN b.first ELSE {}),
                 last |-> b.last \cup (IF b.null THEN a.last ELSE {}),
                 follow |-> a.follow \cup b.follow \cup (a.last \X b.first)],
                [null |-> TRUE, first |-> {}, last |-> {}, follow |-> {}], sub)
      altS == [null |-> \E j \in 1..Len(sub) : sub[j].null,
               first |-> UNION {sub[j].first : j \in 1..Len(sub)},
               last |-> UNION {sub[j].last : j \in 1..Len(sub)},
               follow |-> UNION {sub[j].follow : j \in 1..Len(sub)}]
      allS == [null |-> \A j \in 1..Len(sub) : sub[j].null,
               first |-> altS.first, last |-> altS.last,
               follow |-> altS.follow \cup (altS.last \X altS.first)]
      once == CASE node.t = "element" -> [null |-> FALSE, first |-> {me}, last |-> {me}, follow |-> {}]
                [] node.t = "sequence" -> catS
                [] node.t = "choice" -> altS
                [] node.t = "all" -> allS
      rep == o.max = Unbounded \/ o.max > 1
  IN  [null |-> once.null \/ o.min = 0, first |-> once.first, last |-> once.last,
       strong |-> /\ \A j \in 1..Len(sub) : sub[j].strong
                  /\ rep => once.follow \cap (once.last \X once.first) = {},
       follow |-> once.follow \cup (IF rep THEN once.last \X once.first ELSE {})]
Competing(set) == \E a, b \in set : a # b /\ a[2] = b[2]
DeterministicParts(parts) ==
  LET sub == TLCEval([j \in 1..Len(parts) |-> Pos(parts[j].f, parts[j].node, <<j>>)])
      c == FoldLeft(LAMBDA a, b :
             [null |-> a.null /\ b.null,
              first |-> a.first \cup (IF a.null THEN b.first ELSE {}),
              last |-> b.last \cup (IF b.null THEN a.last ELSE {}),
              follow |-> a.follow \cup b.follow \cup (a.last \X b.first)],
             [null |-> TRUE, first |-> {}, last |-> {}, follow |-> {}], sub)
  IN  /\ ~Competing(c.first)
      /\ \A x \in {p[1] : p \in c.follow} : ~Competing({p[2] : p \in {y \in c.follow : y[1] = x}})
\* where one repetition ends and the next one starts is determined by the document
StrongParts(parts) == \A j \in 1..Len(parts) : Pos(parts[j].f, parts[j].node, <<j>>).strong
\* all complex types of a file, as nodes
RECURSIVE CtNodes(_)
CtNodes(node) == (IF node.x /\ node.t = "complexType" THEN <<node>> ELSE <<>>)
                 \o Flat(MapS(node.k, CtNodes))
Deterministic(files) ==
  LET g == GlobalsOf(files) IN
  \A i \in 1..Len(files) : files[i].form = "ok" =>
    LET cts == CtNodes(files[i].root) IN
    \A j \in 1..Len(cts) :
      IsSimpleContent(g, files[i], cts[j]) \/ DeterministicParts(Particles(g, files[i], cts[j]))
Strong(files) ==
  LET g == GlobalsOf(files) IN
  \A i \in 1..Len(files) : files[i].form = "ok" =>
    LET cts == CtNodes(files[i].root) IN
    \A j \in 1..Len(cts) :
      IsSimpleContent(g, files[i], cts[j]) \/ StrongParts(Particles(g, files[i], cts[j]))

\* a choice all of whose alternatives need at least one element; the generated enums cannot
\* represent an empty alternative
RECURSIVE ChoicesFilled(_)
NullOf(f, node) == Pos(f, node, <<>>).null
ChoicesFilled(node) ==
  /\ (node.x /\ node.t = "choice") =>
        \A i \in 1..Len(node.k) :
          (node.k[i].x /\ node.k[i].t # "annotation") =>
             ~Pos([qual |-> FALSE, tns |-> "", nsd |-> <<>>], node.k[i], <<>>).null
  /\ \A i \in 1..Len(node.k) : ChoicesFilled(node.k[i])
=============================================================================
