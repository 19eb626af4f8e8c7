-------------------------------- MODULE Loader --------------------------------
(* Reading schema documents.  A schema document is an XML tree; a node is      *)
(*   [t: tag, x: in the XSD namespace, a: attributes, k: children, s: text,    *)
(*    p: path of child indices below the root]                                 *)
(* with attributes [n: name, v: value, f: foreign (namespaced) attribute].     *)
(* A file is [path, root, nsd: <<[p: prefix, u: uri]>>, tns, qual, form].      *)
(*                                                                             *)
(* The result is a set of roots (one per generated type) keyed by expanded     *)
(* names [n, ns] (ns: 0 for none, else an index into nss), and a dependency    *)
(* relation between them.  The state machine at the end reads one top level    *)
(* item per step and keeps a stack of files for xs:include and xs:import.      *)
EXTENDS Names, Lexicon

XS == "XS"                       \* the XSD namespace
Nm(n, ns) == [n |-> n, ns |-> ns]
NoName == Nm("", 0)

-----------------------------------------------------------------------------
(* AST *)
Lit(l)      == [c |-> "lit", l |-> l, nm |-> NoName, fx |-> ""]
NamedC(nm)  == [c |-> "named", l |-> "", nm |-> nm, fx |-> ""]
FixedC(v)   == [c |-> "fixed", l |-> "", nm |-> NoName, fx |-> v]

Unbounded == -1
MkLeaf(nm, c, virt, min, max, docs) ==
  [nm |-> nm, c |-> c, unord |-> FALSE, virt |-> virt, min |-> min, max |-> max, docs |-> docs]
IsOpt(l) == l.min = 0
IsVec(l) == l.max = Unbounded \/ l.max > 1

RLeafF(c, docs, fs) == [k |-> "leaf", c |-> c, docs |-> docs, fs |-> fs]   \* fs: the facets <<[t, v]>>
RLeaf(c, docs) == RLeafF(c, docs, <<>>)
REnum(vals)    == [k |-> "enum", vals |-> vals, docs |-> ""]
RElem(attrs, ck, ln, lc, leaves, virt, docs) ==
  [k |-> "elem", attrs |-> attrs, ck |-> ck, ln |-> ln, lc |-> lc, leaves |-> leaves,
   virt |-> virt, docs |-> docs]
RChoice(vars, virt, docs) == [k |-> "choice", vars |-> vars, virt |-> virt, docs |-> docs]
WithDocs(r, docs) == IF docs = "" \/ r.k = "enum" THEN r ELSE [r EXCEPT !.docs = docs]

-----------------------------------------------------------------------------
(* results and errors *)
R(c, v)  == [e |-> <<>>, c |-> c, v |-> v]
\* es: what may be said to be wrong; the first is what is found in the order of reading, the others
\* are as true of the same construct
Er(c, es) == [e |-> es, c |-> c, v |-> <<>>]
Err1(k, n, el, v, p, at) == << [k |-> k, n |-> n, el |-> el, v |-> v, p |-> p, at |-> at] >>
Also(r, es) == IF r.e = <<>> THEN r ELSE [r EXCEPT !.e = @ \o es]
Err(k, n, el, v, p, at) == [k |-> k, n |-> n, el |-> el, v |-> v, p |-> p, at |-> at]

Has(node, n) == \E i \in 1..Len(node.a) : node.a[i].n = n /\ ~node.a[i].f
AVal(node, n) == node.a[FirstIx(node.a, LAMBDA x : x.n = n /\ ~x.f)].v
XKids(node) == Filter(node.k, LAMBDA x : x.x)
KidIx(kids, t) == FirstIx(kids, LAMBDA x : x.t = t)
HasKid(kids, t) == KidIx(kids, t) # 0
Kid(kids, t) == kids[KidIx(kids, t)]
Without(kids, t) == IF HasKid(kids, t) THEN RemoveAtIx(kids, KidIx(kids, t)) ELSE kids

\* attributes nobody looked at are an error, foreign ones are fine
BadAttr(node, seen) ==
  MapS(Filter(node.a, LAMBDA x : ~x.f /\ x.n \notin seen),
       LAMBDA x : Err("N.UnsupportedAttribute", x.n, node.t, "", node.p, x.n))
BadKid(node, kids) ==
  MapS(kids, LAMBDA x : Err("N.UnsupportedElement", x.t, node.t, "", x.p, ""))
NoAttr(node, n) ==
  IF Has(node, n) THEN <<>> ELSE << Err("N.MissingAttribute", n, node.t, "", node.p, "") >>

-----------------------------------------------------------------------------
(* documentation *)
CleanDocs(s) ==
  LET step(st, c) == IF c \in Blank
                     THEN [st EXCEPT !.gap = st.out # ""]
                     ELSE [gap |-> FALSE, out |-> st.out \o (IF st.gap THEN " " ELSE "") \o c]
  IN  FoldLeft(step, [gap |-> FALSE, out |-> ""], Chars(s)).out
RECURSIVE AllText(_)
AllText(node) == node.s \o Cat(MapS(node.k, AllText))
\* the annotation among kids, if any: [e, docs]
Annotation(kids) ==
  IF ~HasKid(kids, "annotation") THEN [e |-> <<>>, docs |-> ""]
  ELSE LET an == Kid(kids, "annotation")
           ds == Filter(XKids(an), LAMBDA x : x.t = "documentation")
           other == Filter(XKids(an), LAMBDA x : x.t # "documentation")
           e == BadKid(an, other) \o BadAttr(an, {})
       IN  [e |-> e, docs |-> IF ds = <<>> THEN "" ELSE CleanDocs(AllText(ds[1]))]

-----------------------------------------------------------------------------
(* names *)
NsId(ctx, u) == \* [c, id]
  LET i == FirstIx(ctx.nss, LAMBDA x : x = u) IN
  IF i # 0 THEN [c |-> ctx, id |-> i]
  ELSE [c |-> [ctx EXCEPT !.nss = Append(@, u)], id |-> Len(ctx.nss) + 1]
NodeName(ctx, n) == Nm(n, IF ctx.qual THEN ctx.tns ELSE 0)
Group(ctx, leaves) == NodeName(ctx, GroupName(MapS(leaves, LAMBDA l : l.nm.n)))
Virtual(ctx, names) == NodeName(ctx, Joined(names))
AddRoot(ctx, nm, r) ==
  [ctx EXCEPT !.roots = (nm :> r) @@ @, !.dup = @ \/ nm \in DOMAIN ctx.roots]
Depend(ctx, nm, parent) == [ctx EXCEPT !.deps = @ \cup {<<parent, nm>>}]

NsOfPrefix(ctx, p) == \* "?" when it is not declared
  LET i == FirstIx(ctx.nsd, LAMBDA x : x.p = p) IN IF i = 0 THEN "?" ELSE ctx.nsd[i].u

\* the type a QName in the attribute at of node refers to
TypeRef(ctx, node, at) ==
  LET v == AVal(node, at)
      i == IndexOfCh(v, ":")
      pre == IF i = 0 THEN "" ELSE SubSeq(v, 1, i - 1)
      loc == IF i = 0 THEN v ELSE SubSeq(v, i + 1, Len(v))
      u == NsOfPrefix(ctx, pre)
  IN  IF u = XS
      THEN IF loc \in LitNames THEN R(ctx, Lit(LitOf[loc]))
           ELSE Er(ctx, Err1("X.UnsupportedType", loc, "", "", node.p, at))
      ELSE IF i # 0 /\ u = "?" THEN Er(ctx, Err1("X.MissingNamespace", pre, "", "", node.p, at))
      ELSE IF u = "?" THEN R(ctx, NamedC(Nm(loc, 0)))
      ELSE LET r == NsId(ctx, u) IN R(r.c, NamedC(Nm(loc, r.id)))

\* minOccurs and maxOccurs
U32(s) == LET r == ParseInt(s, "4294967295", "0", FALSE) IN
          IF s # Trim(s) THEN Bad ELSE r
U64(s) == LET r == ParseInt(s, "18446744073709551615", "0", FALSE) IN
          IF s # Trim(s) THEN Bad ELSE r
\* the number with these digits (Huge from ten digits on)
Huge == 2000000000
NumOf(s) == IF Len(s) > 9 THEN Huge ELSE FoldLeft(LAMBDA a, c : a * 10 + DigitVal[c], 0, Chars(s))
SmallNum == [s \in {NumStr(n) : n \in 0..99} |-> CHOOSE n \in 0..99 : NumStr(n) = s]
Occurs(node, at, dflt) ==
  IF ~Has(node, at) THEN [e |-> <<>>, v |-> dflt]
  ELSE IF at = "maxOccurs" /\ AVal(node, at) = "unbounded" THEN [e |-> <<>>, v |-> Unbounded]
  ELSE LET r == U32(AVal(node, at)) IN
       IF ~r.ok THEN [e |-> << Err("X.ParseInt", "", "", "", node.p, at) >>, v |-> dflt]
       ELSE [e |-> <<>>, v |-> NumOf(r.v)]

-----------------------------------------------------------------------------
(* simple types *)
Facets == {"length", "minLength", "maxLength", "pattern", "minInclusive", "maxInclusive",
           "fractionDigits", "totalDigits"}
FacetErr(f) ==
  IF f.t \notin Facets \cup {"enumeration"}
  THEN << Err("X.UnsupportedElement", f.t, "", "", f.p, "") >>
  ELSE IF ~Has(f, "value") THEN NoAttr(f, "value")
  ELSE LET v == AVal(f, "value") IN
       IF f.t \in {"length", "minLength", "maxLength", "fractionDigits", "totalDigits"}
          /\ ~U64(v).ok THEN << Err("X.ParseInt", "", "", "", f.p, "value") >>
       ELSE IF f.t \in {"minInclusive", "maxInclusive"} /\ ~(ParseDecimal(v).ok /\ v = Trim(v))
       THEN << Err("X.ParseDecimal", "", "", "", f.p, "value") >>
       ELSE <<>>

SimpleType(node, ctx, seen) ==
  LET an == Annotation(XKids(node))
      kids == Without(XKids(node), "annotation")
      e0 == BadAttr(node, seen) \o an.e
            \o (IF HasKid(kids, "restriction") THEN <<>>
                ELSE << Err("N.MissingElement", "restriction", XS, "", node.p, "") >>)
  IN  IF e0 # <<>> THEN Er(ctx, e0)
      ELSE LET res == Kid(kids, "restriction")
               e1 == NoAttr(res, "base")
           IN  IF e1 # <<>> THEN Er(ctx, e1)
               ELSE LET ty == TypeRef(ctx, res, "base")
                        fs == XKids(res)
                        e2 == ty.e
                              \o (IF ty.e = <<>> /\ ty.v.c = "named"
                                  THEN << Err("X.UnsupportedAttributeValue", "base", "restriction",
                                              AVal(res, "base"), res.p, "base") >> ELSE <<>>)
                              \o BadKid(node, Without(kids, "restriction"))
                              \o Flat(MapS(fs, FacetErr))
                        vals == MapS(Filter(fs, LAMBDA f : f.t = "enumeration"),
                                     LAMBDA f : AVal(f, "value"))
                    IN  IF e2 # <<>> THEN Er(ctx, e2)
                        ELSE IF vals = <<>>
                             THEN R(ty.c, RLeafF(ty.v, an.docs, MapS(fs, LAMBDA f : [t |-> f.t, v |-> AVal(f, "value")])))
                        ELSE R(ty.c, REnum(vals))

-----------------------------------------------------------------------------
(* attributes: the result is <<>> (prohibited) or <<attribute>> *)
AttributeDecl(node, parent, ctx) ==
  LET e0 == NoAttr(node, "name")
      an == Annotation(XKids(node))
      kids == Without(XKids(node), "annotation")
  IN  IF e0 \o an.e # <<>> THEN Er(ctx, (e0 \o an.e))
      ELSE LET name == Nm(AVal(node, "name"), 0)
               inline == HasKid(kids, "simpleType")
               st == SimpleType(Kid(kids, "simpleType"), ctx, {})
               vn == Virtual(ctx, <<parent.n, name.n, "Data">>)
               ty == TypeRef(ctx, node, "type")
               isFixed == ~inline /\ Has(node, "fixed")
               content ==
                 IF inline
                 THEN IF st.e # <<>> THEN st
                      ELSE IF st.v.k = "leaf" THEN R(st.c, st.v.c)
                      ELSE R(Depend(AddRoot(st.c, vn, st.v), vn, parent), NamedC(vn))
                 ELSE IF ~Has(node, "type") THEN Er(ctx, NoAttr(node, "type"))
                 ELSE IF ty.e # <<>> THEN ty
                 ELSE IF ty.v.c = "named" THEN R(Depend(ty.c, ty.v.nm, parent), ty.v)
                 ELSE IF isFixed THEN R(ty.c, FixedC(AVal(node, "fixed"))) ELSE ty
               seen == {"name", "default", "use"} \cup (IF inline THEN {} ELSE {"type"})
                       \cup (IF content.e = <<>> /\ content.v.c = "fixed" THEN {"fixed"} ELSE {})
               use == IF Has(node, "use") THEN AVal(node, "use") ELSE "optional"
           IN  IF content.e # <<>>
               THEN Also(content, BadKid(node, Without(kids, "simpleType")) \o BadAttr(node, seen \cup {"fixed"}))
               ELSE LET e1 == BadKid(node, Without(kids, "simpleType"))
                              \o (IF use \in {"required", "optional", "prohibited"} THEN <<>>
                                  ELSE << Err("X.UnsupportedAttributeValue", "use", "attribute",
                                              use, node.p, "") >>)
                    IN  IF e1 # <<>> THEN Er(ctx, e1 \o BadAttr(node, seen))
                        ELSE IF use = "prohibited" THEN R(content.c, <<>>)
                        ELSE LET e2 == (IF Has(node, "default") /\ use = "required"
                                        THEN << Err("X.UnexpectedAttribute", "default",
                                                    "attribute", "", node.p, "") >> ELSE <<>>)
                                       \o BadAttr(node, seen)
                             IN  IF e2 # <<>> THEN Er(ctx, e2)
                                 ELSE R(content.c, << [nm |-> name, c |-> content.v,
                                                       opt |-> use = "optional",
                                                       dflt |-> IF Has(node, "default") THEN <<AVal(node, "default")>> ELSE <<>>,
                                                       docs |-> an.docs] >>)

RECURSIVE Attributes(_, _, _, _)
Attributes(nodes, parent, ctx, acc) ==
  IF nodes = <<>> THEN R(ctx, acc)
  ELSE LET r == AttributeDecl(nodes[1], parent, ctx) IN
       IF r.e # <<>> THEN r ELSE Attributes(Tail(nodes), parent, r.c, acc \o r.v)

-----------------------------------------------------------------------------
(* elements, groups and complex types *)
RECURSIVE ElementRoot(_, _, _, _), ElementChild(_, _, _), Sequence(_, _, _, _),
          SeqKids(_, _, _, _), Choice(_, _, _, _), ChoiceKids(_, _, _, _),
          ComplexType(_, _, _, _), SimpleContent(_, _, _), ComplexContent(_, _, _)

ElementRoot(node, parent, ctx, seen) ==
  LET an == Annotation(XKids(node))
      kids == Without(XKids(node), "annotation")
  IN  IF an.e # <<>> THEN Er(ctx, an.e)
      ELSE IF Has(node, "type")
      THEN LET ty == TypeRef(ctx, node, "type") IN
           IF ty.e # <<>> THEN Also(ty, BadAttr(node, seen \cup {"type", "fixed"}) \o BadKid(node, kids))
           ELSE LET isLit == ty.v.c = "lit"
                    e == BadAttr(node, seen \cup {"type"} \cup (IF isLit THEN {"fixed"} ELSE {}))
                         \o BadKid(node, kids)
                    c == IF isLit THEN ty.c ELSE Depend(ty.c, ty.v.nm, parent)
                IN  IF e # <<>> THEN Er(ctx, e)
                    ELSE R(c, RLeaf(IF isLit /\ Has(node, "fixed")
                                    THEN FixedC(AVal(node, "fixed")) ELSE ty.v, an.docs))
      ELSE LET e == BadAttr(node, seen)
               t == IF HasKid(kids, "complexType") THEN "complexType" ELSE "simpleType"
               none == Err1("X.MissingElement", "simpleType|complexType", "element", "", node.p, "")
           IN  IF e # <<>>
               THEN Er(ctx, e \o (IF HasKid(kids, t) THEN BadKid(node, Without(kids, t)) ELSE none \o BadKid(node, kids)))
               ELSE IF ~HasKid(kids, t) THEN Er(ctx, none \o BadKid(node, kids))
               ELSE LET r == IF t = "complexType" THEN ComplexType(Kid(kids, t), parent, ctx, {})
                             ELSE SimpleType(Kid(kids, t), ctx, {})
                        e1 == BadKid(node, Without(kids, t))
                    IN  IF r.e # <<>> THEN Also(r, e1)
                        ELSE IF e1 # <<>> THEN Er(ctx, e1)
                        ELSE R(r.c, WithDocs(r.v, an.docs))

ElementChild(node, parent, ctx) ==
  LET mn == Occurs(node, "minOccurs", 1)
      mx == Occurs(node, "maxOccurs", 1)
      occ == {"minOccurs", "maxOccurs"}
  IN  IF mn.e \o mx.e # <<>> THEN Er(ctx, (mn.e \o mx.e))
      ELSE IF Has(node, "ref")
      THEN LET e == BadAttr(node, occ \cup {"ref"})
               ty == TypeRef(ctx, node, "ref")
           IN  IF e # <<>> THEN Er(ctx, e)
               ELSE IF ty.e # <<>> THEN ty
               ELSE IF ty.v.c = "lit"
               THEN Er(ctx, Err1("X.UnsupportedAttributeValue", "ref", "element",
                                AVal(node, "ref"), node.p, "ref"))
               ELSE R(Depend(ty.c, ty.v.nm, parent),
                      MkLeaf(ty.v.nm, ty.v, FALSE, mn.v, mx.v, ""))
      ELSE IF ~Has(node, "name") THEN Er(ctx, NoAttr(node, "name"))
      ELSE LET name == NodeName(ctx, AVal(node, "name"))
               an == Annotation(XKids(node))
               seen == occ \cup {"name", "default", "form"}
               inline == HasKid(XKids(node), "simpleType") \/ HasKid(XKids(node), "complexType")
           IN  IF an.e # <<>> THEN Er(ctx, an.e)
               ELSE IF Has(node, "type")
               THEN LET ty == TypeRef(ctx, node, "type") IN
                    IF ty.e # <<>> THEN ty
                    ELSE LET isLit == ty.v.c = "lit"
                             e == BadAttr(node, seen \cup {"type"}
                                                \cup (IF isLit THEN {"fixed"} ELSE {}))
                             c == IF isLit THEN ty.c ELSE Depend(ty.c, ty.v.nm, parent)
                             v == IF isLit /\ Has(node, "fixed")
                                  THEN FixedC(AVal(node, "fixed")) ELSE ty.v
                         IN  IF e # <<>> THEN Er(ctx, e)
                             ELSE R(c, MkLeaf(name, v, FALSE, mn.v, mx.v, an.docs))
               ELSE LET e == BadAttr(node, seen)
                        vn == Virtual(ctx, <<parent.n, name.n, "Data">>)
                        r == ElementRoot(node, vn, ctx, seen)
                    IN  IF e # <<>> THEN Er(ctx, e)
                        ELSE IF ~inline
                        THEN R(ctx, MkLeaf(name, Lit("any"), FALSE, mn.v, mx.v, an.docs))
                        ELSE IF r.e # <<>> THEN r
                        ELSE R(Depend(AddRoot(r.c, vn, r.v), vn, parent),
                               MkLeaf(name, NamedC(vn), FALSE, mn.v, mx.v, an.docs))

\* a group (nested sequence or choice) becomes a type of its own and a virtual leaf
\* (under a name that none of the groups it consists of has)
RECURSIVE HasGroup(_, _, _), GroupRootName(_, _, _)
HasGroup(ctx, ls, nm) ==
  \E i \in 1..Len(ls) :
    /\ ls[i].virt /\ ls[i].c.c = "named"
    /\ \/ ls[i].c.nm = nm
       \/ /\ ls[i].c.nm \in DOMAIN ctx.roots
          /\ LET r == ctx.roots[ls[i].c.nm] IN
             \/ r.k = "choice" /\ HasGroup(ctx, r.vars, nm)
             \/ r.k = "elem" /\ r.ck = "leaves" /\ HasGroup(ctx, r.leaves, nm)
GroupRootName(ctx, ls, nm) ==
  IF HasGroup(ctx, ls, nm) THEN GroupRootName(ctx, ls, NodeName(ctx, nm.n \o "Group")) ELSE nm
GroupLeaf(ctx, parent, root, leafName, suffix, mn, mx, docs) ==
  LET rn == GroupRootName(ctx, IF root.k = "choice" THEN root.vars ELSE root.leaves,
                          Virtual(ctx, <<parent.n, leafName.n>> \o suffix)) IN
  R(Depend(AddRoot(ctx, rn, root), rn, parent),
    MkLeaf(leafName, NamedC(rn), TRUE, mn, mx, docs))
GroupElem(leaves) == RElem(<<>>, "leaves", NoName, Lit("any"), leaves, TRUE, "")

Sequence(node, parent, ctx, seen) ==
  LET e == BadAttr(node, seen) IN
  IF e # <<>> THEN Er(ctx, e) ELSE SeqKids(XKids(node), parent, ctx, <<>>)

SeqKids(kids, parent, ctx, acc) ==
  IF kids = <<>> THEN R(ctx, acc)
  ELSE LET kid == kids[1]
           mn == Occurs(kid, "minOccurs", 1)
           mx == Occurs(kid, "maxOccurs", 1)
           an == Annotation(XKids(kid))
           r == CASE kid.t = "element" -> ElementChild(kid, parent, ctx)
                  [] kid.t = "choice" ->
                       IF mn.e \o mx.e # <<>> THEN Er(ctx, (mn.e \o mx.e))
                       ELSE LET c == Choice(kid, parent, ctx, {"minOccurs", "maxOccurs"}) IN
                            IF c.e # <<>> THEN c
                            ELSE GroupLeaf(c.c, parent, RChoice(c.v, TRUE, ""), Group(ctx, c.v),
                                           <<>>, mn.v, mx.v, "")
                  [] kid.t = "sequence" ->
                       IF an.e \o mn.e # <<>> THEN Er(ctx, (an.e \o mn.e))
                       ELSE LET s == Sequence(kid, parent, ctx, {"minOccurs"}) IN
                            IF s.e # <<>> THEN s
                            ELSE GroupLeaf(s.c, parent, GroupElem(s.v), Group(ctx, s.v),
                                           <<>>, mn.v, 1, an.docs)
                  [] kid.t = "annotation" -> R(ctx, <<>>)
                  [] OTHER -> Er(ctx, Err1("X.UnsupportedElement", kid.t, "", "", kid.p, ""))
       IN  IF r.e # <<>> THEN r
           ELSE SeqKids(Tail(kids), parent, r.c,
                        IF kid.t = "annotation" THEN acc ELSE Append(acc, r.v))

Choice(node, parent, ctx, seen) ==
  LET e == BadAttr(node, seen) IN
  IF e # <<>> THEN Er(ctx, e) ELSE ChoiceKids(XKids(node), parent, ctx, <<>>)

ChoiceKids(kids, parent, ctx, acc) ==
  IF kids = <<>> THEN R(ctx, acc)
  ELSE LET kid == kids[1]
           mn == Occurs(kid, "minOccurs", 1)
           mx == Occurs(kid, "maxOccurs", 1)
           an == Annotation(XKids(kid))
           r == CASE kid.t = "element" -> ElementChild(kid, parent, ctx)
                  [] kid.t = "sequence" ->
                       IF an.e \o mn.e \o mx.e # <<>> THEN Er(ctx, (an.e \o mn.e \o mx.e))
                       ELSE LET s == Sequence(kid, parent, ctx, {"minOccurs", "maxOccurs"}) IN
                            IF s.e # <<>> THEN s
                            ELSE GroupLeaf(s.c, parent, GroupElem(s.v), Group(ctx, s.v),
                                           <<"Variant">>, mn.v, mx.v, an.docs)
                  [] kid.t = "annotation" -> R(ctx, <<>>)
                  [] OTHER -> Er(ctx, Err1("X.UnsupportedElement", kid.t, "", "", kid.p, ""))
       IN  IF r.e # <<>> THEN r
           ELSE ChoiceKids(Tail(kids), parent, r.c,
                           IF kid.t = "annotation" THEN acc ELSE Append(acc, r.v))

\* <extension> of simple or complex content: [e, ext]
Extension(node) ==
  LET kids == XKids(node)
      e == BadAttr(node, {})
           \o (IF HasKid(kids, "extension") THEN BadKid(node, Without(kids, "extension"))
               ELSE << Err("N.MissingElement", "extension", XS, "", node.p, "") >>)
  IN  IF e # <<>> THEN [e |-> e, ext |-> node]
      ELSE [e |-> NoAttr(Kid(kids, "extension"), "base"), ext |-> Kid(kids, "extension")]
AttrNodes(kids) == Filter(kids, LAMBDA x : x.t = "attribute")
NotAttrs(kids)  == Filter(kids, LAMBDA x : x.t # "attribute")

SimpleContent(node, parent, ctx) ==
  LET x == Extension(node) IN
  IF x.e # <<>> THEN Er(ctx, x.e)
  ELSE LET ty == TypeRef(ctx, x.ext, "base") IN
       IF ty.e # <<>> THEN ty
       ELSE LET named == ty.v.c = "named"
                c1 == IF named THEN Depend(ty.c, ty.v.nm, parent) ELSE ty.c
                at == Attributes(AttrNodes(XKids(x.ext)), parent, c1, <<>>)
                e1 == BadKid(x.ext, NotAttrs(XKids(x.ext)))
            IN  IF at.e # <<>> THEN Also(at, e1)
                ELSE IF e1 # <<>> THEN Er(ctx, e1)
                ELSE R(at.c, RElem(at.v, "leaf", IF named THEN ty.v.nm ELSE parent, ty.v, <<>>,
                                   FALSE, ""))

ComplexContent(node, parent, ctx) ==
  LET x == Extension(node) IN
  IF x.e # <<>> THEN Er(ctx, x.e)
  ELSE LET ty == TypeRef(ctx, x.ext, "base") IN
       IF ty.e # <<>> THEN ty
       ELSE IF ty.v.c # "named"
       THEN Er(ctx, Err1("X.UnsupportedAttributeValue", "base", "extension",
                        AVal(x.ext, "base"), x.ext.p, "base"))
       ELSE
       LET base == ty.v.nm
           kids == XKids(x.ext)
           c1 == Depend(ty.c, base, parent)
           hasSeq == HasKid(kids, "sequence")
           sq == Kid(kids, "sequence")
           mn == Occurs(sq, "minOccurs", 1)
           s == Sequence(sq, parent, c1, {"minOccurs"})
           g == GroupLeaf(s.c, parent, GroupElem(s.v), NodeName(ctx, base.n), <<>>, mn.v, 1, "")
           seqR == IF ~hasSeq THEN R(c1, <<>>)
                   ELSE IF mn.e # <<>> THEN Er(ctx, mn.e)
                   ELSE IF s.e # <<>> THEN s ELSE g
           rest == Without(kids, "sequence")
           e1 == BadKid(x.ext, NotAttrs(rest))
       IN  IF seqR.e # <<>> THEN Also(seqR, e1)
           ELSE LET at == Attributes(AttrNodes(rest), parent, seqR.c, <<>>) IN
                IF at.e # <<>> THEN Also(at, e1)
                ELSE IF e1 # <<>> THEN Er(ctx, e1)
                ELSE R(at.c,
                       IF hasSeq
                       THEN RElem(at.v, "leaves", NoName, Lit("any"),
                                  << MkLeaf(NodeName(ctx, "base"), ty.v, TRUE, 1, 1, ""), seqR.v >>,
                                  FALSE, "")
                       ELSE RElem(at.v, "leaf", base, ty.v, <<>>, FALSE, ""))

ComplexType(node, parent, ctx, seen) ==
  LET an == Annotation(XKids(node))
      kids == Without(XKids(node), "annotation")
      e0 == (IF Has(node, "mixed") /\ AVal(node, "mixed") = "true"
             THEN << Err("X.UnsupportedAttributeValue", "mixed", "complexType", "true",
                         node.p, "") >> ELSE <<>>)
            \o BadAttr(node, seen \cup {"mixed"}) \o an.e
      special == IF HasKid(kids, "simpleContent") THEN "simpleContent" ELSE "complexContent"
  IN  IF e0 # <<>> THEN Er(ctx, e0)
      ELSE IF HasKid(kids, special)
      THEN LET e1 == BadKid(node, Without(kids, special))
               r == IF special = "simpleContent"
                    THEN SimpleContent(Kid(kids, special), parent, ctx)
                    ELSE ComplexContent(Kid(kids, special), parent, ctx)
           IN  IF e1 # <<>> THEN Er(ctx, e1 \o r.e)
               ELSE IF r.e # <<>> THEN r ELSE R(r.c, WithDocs(r.v, an.docs))
      ELSE
      LET g == IF HasKid(kids, "sequence") THEN "sequence"
               ELSE IF HasKid(kids, "all") THEN "all"
               ELSE IF HasKid(kids, "choice") THEN "choice" ELSE ""
          gn == Kid(kids, g)
          mn == Occurs(gn, "minOccurs", 1)
          mx == Occurs(gn, "maxOccurs", 1)
          s == Sequence(gn, parent, ctx, {"minOccurs", "maxOccurs"})
          leaves == IF g = "all" THEN MapS(s.v, LAMBDA l : [l EXCEPT !.unord = TRUE]) ELSE s.v
          ch == Choice(gn, parent, ctx, {})
          dn == Virtual(ctx, <<parent.n, "Data">>)
          \* [ck, ln, lc, leaves]
          content ==
            IF g = "" THEN R(ctx, [ck |-> "none", ln |-> NoName, lc |-> Lit("any"), ls |-> <<>>])
            ELSE IF g = "choice"
            THEN IF ch.e # <<>> THEN ch
                 ELSE R(Depend(AddRoot(ch.c, dn, RChoice(ch.v, FALSE, "")), dn, parent),
                        [ck |-> "leaf", ln |-> dn, lc |-> NamedC(dn), ls |-> <<>>])
            ELSE IF mn.e \o mx.e # <<>> THEN Er(ctx, (mn.e \o mx.e))
            ELSE IF s.e # <<>> THEN s
            ELSE IF mx.v = Unbounded \/ mx.v > 1 \/ mn.v # 1
            THEN LET gl == GroupLeaf(s.c, parent, GroupElem(leaves), Group(ctx, leaves), <<>>,
                                     mn.v, mx.v, "")
                 IN  R(gl.c, [ck |-> "leaves", ln |-> NoName, lc |-> Lit("any"), ls |-> <<gl.v>>])
            ELSE R(s.c, [ck |-> "leaves", ln |-> NoName, lc |-> Lit("any"), ls |-> leaves])
          rest == IF g = "" THEN kids ELSE Without(kids, g)
          e1 == BadKid(node, NotAttrs(rest))
      IN  IF content.e # <<>> THEN Also(content, e1)
          ELSE LET at == Attributes(AttrNodes(rest), parent, content.c, <<>>) IN
               IF at.e # <<>> THEN Also(at, e1)
               ELSE IF e1 # <<>> THEN Er(ctx, e1)
               ELSE R(at.c, RElem(at.v, content.v.ck, content.v.ln, content.v.lc, content.v.ls,
                                  FALSE, an.docs))

-----------------------------------------------------------------------------
(* one top level item *)
Item(node, ctx) ==
  LET e == NoAttr(node, "name")
      name == Nm(AVal(node, "name"), ctx.tns)
      r == CASE node.t = "element" -> ElementRoot(node, name, ctx, {"name"})
             [] node.t = "complexType" -> ComplexType(node, name, ctx, {"name"})
             [] node.t = "simpleType" -> SimpleType(node, ctx, {"name"})
             [] OTHER -> Er(ctx, Err1("X.UnsupportedElement", node.t, "", "", node.p, ""))
  IN  IF e # <<>> THEN Er(ctx, e)
      ELSE IF r.e # <<>> THEN r
      \* an element with the same name as its type is covered by the type
      ELSE IF r.v.k = "leaf" /\ r.v.c.c = "named" /\ r.v.c.nm = name THEN R(r.c, <<>>)
      ELSE R(AddRoot(r.c, name, r.v), <<>>)

-----------------------------------------------------------------------------
(* files.  Paths are sequences of segments; a location is resolved against the *)
(* directory of the file it is written in                                      *)
RECURSIVE Normal(_, _)
Normal(acc, segs) ==
  IF segs = <<>> THEN acc
  ELSE IF segs[1] = ".." /\ acc # <<>> THEN Normal(SubSeq(acc, 1, Len(acc) - 1), Tail(segs))
  ELSE IF segs[1] = "." THEN Normal(acc, Tail(segs))
  ELSE Normal(Append(acc, segs[1]), Tail(segs))
Resolve(path, loc) == Normal(SubSeq(path, 1, Len(path) - 1), loc)

RECURSIVE Annot(_, _)
Annot(node, p) ==
  [node EXCEPT !.p = p, !.k = [i \in 1..Len(node.k) |-> Annot(node.k[i], Append(p, i))]]

FileIx(files, path) == FirstIx(files, LAMBDA f : f.path = path)

\* the loader's state: st.stack is the stack of files being read (innermost last)
EmptyFn == [x \in {} |-> x]
LoadStart == [stack |-> <<>>, roots |-> EmptyFn, deps |-> {}, nss |-> <<>>, seen |-> {},
              dup |-> FALSE, status |-> "start", err |-> <<>>, mixed |-> FALSE]
Fail(st, es, f) == [st EXCEPT !.status = "failed", !.err = MapS(es, LAMBDA e : [e |-> e, file |-> f])]

\* start to read the file at path
Open(files, st, path) ==
  LET i == FileIx(files, path) IN
  IF i = 0 \/ files[i].form = "missing"
  THEN Fail(st, Err1("Open", "", "", "", <<>>, ""), path)
  ELSE IF files[i].form = "garbage"
  THEN Fail(st, Err1("X.Xml", "", "", "", <<>>, ""), path)
  ELSE LET f == files[i]
           root == Annot(f.root, <<>>)
           ns == IF f.tns = "" THEN [c |-> st, id |-> 0] ELSE NsId(st, f.tns)
       IN  IF ~root.x \/ root.t # "schema"
           THEN Fail(st, Err1("X.UnsupportedElement", root.t, "", "", <<>>, ""), path)
           ELSE [ns.c EXCEPT !.stack = Append(@, [path |-> path, todo |-> XKids(root),
                                                  tns |-> ns.id, nsd |-> f.nsd, qual |-> f.qual]),
                             !.seen = @ \cup {path}, !.status = "reading"]

\* one step: an item of the innermost file, or leaving it
LoadStep(files, st) ==
  LET top == st.stack[Len(st.stack)]
      rest == [st EXCEPT !.stack[Len(st.stack)].todo = Tail(@)]
      node == top.todo[1]
      ctx == [roots |-> st.roots, deps |-> st.deps, nss |-> st.nss, dup |-> st.dup,
              tns |-> top.tns, nsd |-> top.nsd, qual |-> top.qual]
      r == Item(node, ctx)
  IN  IF top.todo = <<>>
      THEN [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1),
                      !.status = IF Len(st.stack) = 1 THEN "loaded" ELSE "reading"]
      ELSE IF node.t \in {"include", "import"}
      THEN IF ~Has(node, "schemaLocation") THEN Fail(st, NoAttr(node, "schemaLocation"), top.path)
           ELSE LET path == Resolve(top.path, node.loc) IN
                IF path \in st.seen THEN rest ELSE Open(files, rest, path)
      ELSE IF r.e # <<>> THEN Fail(st, r.e, top.path)
      ELSE [rest EXCEPT !.roots = r.c.roots, !.deps = r.c.deps, !.nss = r.c.nss, !.dup = r.c.dup]

-----------------------------------------------------------------------------
(* types reachable through the dependency relation *)
RECURSIVE Reach(_, _)
Reach(deps, set) ==
  LET new == {d[2] : d \in {x \in deps : x[1] \in set}} \ set
  IN  IF new = {} THEN set ELSE Reach(deps, set \cup new)
=============================================================================
