-------------------------------- MODULE Codec --------------------------------
(* What is generated for a loaded schema: the surface of the types, how a     *)
(* document is decoded into a value, and how a value is encoded.              *)
(*                                                                            *)
(* A schema sc is [roots, nss].  An XML element is                            *)
(*   [n: local name, u: namespace or "", a: <<[n, u, v]>>, k: child elements, *)
(*    s: text in front of the first child, m: "t" text content / "e"]         *)
(* Decoding reads the children of an element through a cursor, abstracted to  *)
(* the sequence rem of the children that have not been taken yet (Cursor.tla  *)
(* relates that to the implementation's lookahead buffer).                    *)
EXTENDS Loader

Uri(sc, nm) == IF nm.ns = 0 THEN "" ELSE sc.nss[nm.ns]
El(n, u, a, k, s, m) == [n |-> n, u |-> u, a |-> a, k |-> k, s |-> s, m |-> m]

-----------------------------------------------------------------------------
(* values *)
VLit(l, s) == [v |-> "lit", l |-> l, s |-> s]
VUnit      == [v |-> "unit"]
VNone      == [v |-> "none"]
VSome(o)   == [v |-> "some", o |-> o]
VVec(es)   == [v |-> "vec", es |-> es]
VSt(n, fs) == [v |-> "st", n |-> n, fs |-> fs]
VTu(n, x)  == [v |-> "tu", n |-> n, x |-> x]
VEn(n, var, pl) == [v |-> "en", n |-> n, var |-> var, pl |-> pl]
FV(n, x) == [n |-> n, x |-> x]

-----------------------------------------------------------------------------
(* surface *)
RECURSIVE TypeOf(_, _)
TypeOf(sc, c) ==
  CASE c.c = "lit" -> RustOf[c.l]
    [] c.c = "fixed" -> "()"
    [] OTHER -> IF c.nm \in DOMAIN sc.roots /\ sc.roots[c.nm].k = "leaf"
                THEN TypeOf(sc, sc.roots[c.nm].c) ELSE TypeIdent(c.nm.n)
VecTy(l, t) == IF IsVec(l) THEN "Vec<" \o t \o ">" ELSE t
OptTy(o, t) == IF o THEN "Option<" \o t \o ">" ELSE t
LeafTy(sc, l) == OptTy(IsOpt(l), VecTy(l, TypeOf(sc, l.c)))
Fld(n, ty, docs) == [n |-> n, ty |-> ty, docs |-> docs]
AttrFld(sc, a) == Fld(FieldIdent(a.nm.n), OptTy(a.opt, TypeOf(sc, a.c)), a.docs)
ElemFlds(sc, r) ==
  (CASE r.ck = "none" -> <<>>
     [] r.ck = "leaf" -> << Fld(FieldIdent(r.ln.n), TypeOf(sc, r.lc), "") >>
     [] r.ck = "leaves" -> MapS(r.leaves, LAMBDA l : Fld(FieldIdent(l.nm.n), LeafTy(sc, l), l.docs)))
  \o MapS(r.attrs, LAMBDA a : AttrFld(sc, a))
VariantId(l) == TypeIdent(l.nm.n)
TypeDecl(sc, nm) ==
  LET r == sc.roots[nm] IN
  [n |-> TypeIdent(nm.n), docs |-> r.docs,
   kind |-> CASE r.k \in {"enum", "choice"} -> "enum" [] r.k = "leaf" -> "tuple" [] OTHER -> "struct",
   fields |-> CASE r.k = "leaf" -> << Fld("", TypeOf(sc, r.c), "") >>
                [] r.k = "elem" -> ElemFlds(sc, r)
                [] r.k = "enum" -> MapS(EnumVariants(r.vals), LAMBDA x : Fld(x.var, "", ""))
                [] r.k = "choice" -> MapS(r.vars, LAMBDA l :
                                       Fld(VariantId(l), VecTy(l, TypeOf(sc, l.c)), "")),
   strs |-> \* FromStr and Display
     IF r.k = "enum" \/ (r.k = "leaf" /\ r.c.c = "lit") THEN "y" ELSE "n"]
SurfaceOf(sc) == {TypeDecl(sc, nm) : nm \in DOMAIN sc.roots}

-----------------------------------------------------------------------------
(* the model of the schema that the library hands out: every definition with  *)
(* its members, occurrences, facets, values and documentation                 *)
QName(sc, nm) == [n |-> nm.n, u |-> Uri(sc, nm)]
ModelC(sc, c) == [c |-> c.c, v |-> CASE c.c = "lit" -> c.l [] c.c = "fixed" -> c.fx [] OTHER -> "",
                  q |-> QName(sc, c.nm)]
ModelL(sc, l) == [q |-> QName(sc, l.nm), c |-> ModelC(sc, l.c), unord |-> l.unord, virt |-> l.virt,
                  min |-> l.min, max |-> l.max, docs |-> l.docs]
ModelR(sc, nm) ==
  LET r == sc.roots[nm]
      base == [q |-> QName(sc, nm), k |-> r.k, docs |-> r.docs]
  IN  base @@ CASE r.k = "leaf" -> [c |-> ModelC(sc, r.c), fs |-> r.fs]
                [] r.k = "enum" -> [vals |-> r.vals]
                [] r.k = "choice" -> [vars |-> MapS(r.vars, LAMBDA l : ModelL(sc, l))]
                [] OTHER -> [ck |-> r.ck, lc |-> IF r.ck = "leaf" THEN <<ModelC(sc, r.lc)>> ELSE <<>>,
                             ln |-> IF r.ck = "leaf" THEN <<QName(sc, r.ln)>> ELSE <<>>,
                             leaves |-> IF r.ck = "leaves" THEN MapS(r.leaves, LAMBDA l : ModelL(sc, l)) ELSE <<>>,
                             attrs |-> MapS(r.attrs, LAMBDA a :
                               [q |-> QName(sc, a.nm), c |-> ModelC(sc, a.c), opt |-> a.opt, dflt |-> a.dflt, docs |-> a.docs])]
ModelOf(sc) == {ModelR(sc, nm) : nm \in DOMAIN sc.roots}

\* every name is usable and denotes one thing
WellNamed(sc) ==
  /\ \A a, b \in DOMAIN sc.roots : a # b => TypeIdent(a.n) # TypeIdent(b.n)
  /\ \A nm \in DOMAIN sc.roots :
       LET d == TypeDecl(sc, nm) IN
       /\ ValidIdent(d.n) /\ d.n \notin Prelude
       /\ Distinct(MapS(d.fields, LAMBDA f : f.n))
       /\ d.kind # "tuple" => \A i \in 1..Len(d.fields) : ValidIdent(d.fields[i].n)
RECURSIVE ContentNames(_, _)
ContentNames(sc, c) == IF c.c = "named" THEN {c.nm} ELSE {}
RefsOf(sc, nm) ==
  LET r == sc.roots[nm] IN
  CASE r.k = "leaf" -> ContentNames(sc, r.c)
    [] r.k = "enum" -> {}
    [] r.k = "choice" -> UNION {ContentNames(sc, r.vars[i].c) : i \in 1..Len(r.vars)}
    [] r.k = "elem" -> (IF r.ck = "leaf" THEN ContentNames(sc, r.lc) ELSE {})
                       \cup UNION {ContentNames(sc, r.leaves[i].c) : i \in 1..Len(r.leaves)}
                       \cup UNION {ContentNames(sc, r.attrs[i].c) : i \in 1..Len(r.attrs)}
Closed(sc) == \A nm \in DOMAIN sc.roots : RefsOf(sc, nm) \subseteq DOMAIN sc.roots
\* attributes may refer to simple types only
AttrsSimple(sc) ==
  \A nm \in DOMAIN sc.roots : sc.roots[nm].k = "elem" =>
    \A i \in 1..Len(sc.roots[nm].attrs) :
      LET c == sc.roots[nm].attrs[i].c IN
      c.c = "named" => sc.roots[c.nm].k \in {"leaf", "enum"}

-----------------------------------------------------------------------------
(* the loaded schema with the identifiers worked out: of roots (id), variants of enumerations     *)
(* (vs), members as fields (f) and as variants (v)                                                *)
WithIds(roots) ==
  TLCEval([nm \in DOMAIN roots |->
    LET r == roots[nm]
        leaf(l) == l @@ [f |-> FieldIdent(l.nm.n), v |-> VariantId(l)]
        attr(x) == x @@ [f |-> FieldIdent(x.nm.n)]
        base == r @@ [id |-> TypeIdent(nm.n)]
    IN  CASE r.k = "enum" -> base @@ [vs |-> EnumVariants(r.vals)]
          [] r.k = "choice" -> [base EXCEPT !.vars = MapS(@, leaf)]
          [] r.k = "elem" -> [base EXCEPT !.leaves = MapS(@, leaf), !.attrs = MapS(@, attr)]
          [] OTHER -> base])

-----------------------------------------------------------------------------
(* lookahead: may the next remaining child start this group? *)
Is(el, n, u) == el.n = n /\ el.u = u
IsLeaf(sc, l, el) == Is(el, l.nm.n, Uri(sc, l.nm))
RECURSIVE Emptiable(_, _), Starts(_, _, _), StartsLeaves(_, _, _)
Emptiable(sc, l) ==
  \/ IsOpt(l)
  \/ /\ l.virt /\ sc.roots[l.c.nm].k = "elem" /\ sc.roots[l.c.nm].ck = "leaves"
     /\ \A i \in 1..Len(sc.roots[l.c.nm].leaves) : Emptiable(sc, sc.roots[l.c.nm].leaves[i])
StartsLeaves(sc, ls, head) ==
  IF ls = <<>> THEN FALSE
  ELSE \/ IF ls[1].virt THEN Starts(sc, ls[1].c.nm, head) ELSE IsLeaf(sc, ls[1], head)
       \/ (Emptiable(sc, ls[1]) \/ ls[1].unord) /\ StartsLeaves(sc, Tail(ls), head)
Starts(sc, nm, head) ==
  LET r == sc.roots[nm] IN
  CASE r.k = "choice" -> \E i \in 1..Len(r.vars) :
                           IF r.vars[i].virt THEN Starts(sc, r.vars[i].c.nm, head)
                           ELSE IsLeaf(sc, r.vars[i], head)
    [] r.k = "elem" -> r.ck = "leaves" /\ StartsLeaves(sc, r.leaves, head)
    [] OTHER -> TRUE
LookAhead(sc, nm, rem) == rem # <<>> /\ Starts(sc, nm, rem[1])

-----------------------------------------------------------------------------
(* decoding *)
DOk(x, rem) == [ok |-> TRUE, x |-> x, rem |-> rem, e |-> <<>>]
DErr(k, n, u, x) == [ok |-> FALSE, x |-> VUnit, rem |-> <<>>,
                     e |-> << [k |-> k, n |-> n, u |-> u, x |-> x] >>]
At1(n, v) == [n |-> n, u |-> "", v |-> v]
AttrIx(el, n) == FirstIx(el.a, LAMBDA x : x.n = n /\ x.u = "")
HasText(el) == el.s # "" \/ el.k = <<>>
DecEnum(nm, r, s) ==
  LET vs == r.vs
      i == FirstIx(vs, LAMBDA x : x.val = s)
  IN  IF i = 0 THEN DErr("InvalidVariant", s, "", "")
      ELSE DOk(VEn(r.id, vs[i].var, <<>>), <<>>)
DecLit(l, s) ==
  LET p == Parse(l, s) IN
  IF p.ok THEN DOk(VLit(l, p.v), <<>>) ELSE DErr("ParseType", l, "", s)
DecFixed(fx, s) == IF s = fx THEN DOk(VUnit, <<>>) ELSE DErr("FixedMismatch", fx, "", s)

\* the value of an attribute
RECURSIVE DecStr(_, _, _)
DecStr(sc, c, s) ==
  CASE c.c = "lit" -> DecLit(c.l, s)
    [] c.c = "fixed" -> DecFixed(c.fx, s)
    [] OTHER -> LET r == sc.roots[c.nm] IN
                IF r.k = "leaf" THEN DecStr(sc, r.c, s) ELSE DecEnum(c.nm, r, s)

RECURSIVE DecContent(_, _, _, _), DecRoot(_, _, _, _), DecLeaves(_, _, _, _, _), DecLeaf(_, _, _, _),
          DecMany(_, _, _, _, _), DecChoice(_, _, _, _, _, _)

DecAttrs(sc, attrs, el) == \* [ok, fs, e]
  LET step(st, a) ==
        IF ~st.ok THEN st
        ELSE LET i == AttrIx(el, a.nm.n)
                 f == a.f
             IN  IF i = 0
                 THEN IF a.opt THEN [st EXCEPT !.fs = Append(@, FV(f, VNone))]
                      ELSE [st EXCEPT !.ok = FALSE,
                                      !.e = DErr("MissingAttribute", a.nm.n, "", "").e]
                 ELSE LET d == DecStr(sc, a.c, el.a[i].v) IN
                      IF ~d.ok THEN [st EXCEPT !.ok = FALSE, !.e = d.e]
                      ELSE [st EXCEPT !.fs = Append(@, FV(f, IF a.opt THEN VSome(d.x) ELSE d.x))]
  IN  FoldLeft(step, [ok |-> TRUE, fs |-> <<>>, e |-> <<>>], attrs)

DecContent(sc, c, el, rem) ==
  IF c.c = "named"
  THEN IF sc.roots[c.nm].k = "leaf" THEN DecContent(sc, sc.roots[c.nm].c, el, rem)
       ELSE DecRoot(sc, c.nm, el, rem)
  ELSE IF ~HasText(el) THEN DErr("TextExpected", el.n, "", "")
  ELSE LET d == IF c.c = "lit" THEN DecLit(c.l, el.s) ELSE DecFixed(c.fx, el.s) IN
       IF d.ok THEN DOk(d.x, rem) ELSE d

DecRoot(sc, nm, el, rem) ==
  LET r == sc.roots[nm]
      tn == r.id
  IN  CASE r.k = "leaf" ->
             LET d == DecContent(sc, r.c, el, rem) IN IF d.ok THEN DOk(VTu(tn, d.x), d.rem) ELSE d
        [] r.k = "enum" ->
             IF ~HasText(el) THEN DErr("TextExpected", el.n, "", "")
             ELSE LET d == DecEnum(nm, r, el.s) IN IF d.ok THEN DOk(d.x, rem) ELSE d
        [] r.k = "choice" -> DecChoice(sc, tn, r.vars, 1, el, rem)
        [] r.k = "elem" ->
             LET d == CASE r.ck = "none" -> [ok |-> TRUE, x |-> <<>>, rem |-> rem, e |-> <<>>]
                        [] r.ck = "leaf" ->
                             LET y == DecContent(sc, r.lc, el, rem) IN
                             IF y.ok THEN [y EXCEPT !.x = << FV(FieldIdent(r.ln.n), y.x) >>] ELSE y
                        [] r.ck = "leaves" -> DecLeaves(sc, r.leaves, el, rem, <<>>)
                 at == DecAttrs(sc, r.attrs, el)
             IN  IF ~d.ok THEN d
                 ELSE IF ~at.ok THEN [d EXCEPT !.ok = FALSE, !.e = at.e]
                 ELSE DOk(VSt(tn, d.x \o at.fs), d.rem)

DecLeaves(sc, ls, el, rem, acc) ==
  IF ls = <<>> THEN [ok |-> TRUE, x |-> acc, rem |-> rem, e |-> <<>>]
  ELSE LET d == DecLeaf(sc, ls[1], el, rem) IN
       IF ~d.ok THEN d
       ELSE DecLeaves(sc, Tail(ls), el, d.rem, Append(acc, FV(ls[1].f, d.x)))

DecLeaf(sc, l, el, rem) ==
  LET many == DecMany(sc, l, el, rem, <<>>)
      ix == IF l.unord THEN FirstIx(rem, LAMBDA x : IsLeaf(sc, l, x))
            ELSE IF rem # <<>> /\ IsLeaf(sc, l, rem[1]) THEN 1 ELSE 0
      one == DecContent(sc, l.c, rem[ix], rem[ix].k)
      grp == DecContent(sc, l.c, el, rem)
  IN  IF IsVec(l)
      THEN IF ~many.ok THEN many
           ELSE IF IsOpt(l) THEN DOk(IF many.x = <<>> THEN VNone ELSE VSome(VVec(many.x)), many.rem)
           ELSE DOk(VVec(many.x), many.rem)
      ELSE IF l.virt
      THEN IF IsOpt(l) /\ ~LookAhead(sc, l.c.nm, rem) THEN DOk(VNone, rem)
           ELSE IF ~grp.ok THEN grp
           ELSE DOk(IF IsOpt(l) THEN VSome(grp.x) ELSE grp.x, grp.rem)
      ELSE IF ix = 0
      THEN IF IsOpt(l) THEN DOk(VNone, rem)
           ELSE DErr("MissingElement", l.nm.n, Uri(sc, l.nm), "")
      ELSE IF ~one.ok THEN one
      ELSE DOk(IF IsOpt(l) THEN VSome(one.x) ELSE one.x, RemoveAtIx(rem, ix))

\* as many occurrences as there are
DecMany(sc, l, el, rem, acc) ==
  IF rem = <<>> THEN [ok |-> TRUE, x |-> acc, rem |-> rem, e |-> <<>>]
  ELSE IF ~(IF l.virt THEN LookAhead(sc, l.c.nm, rem) ELSE IsLeaf(sc, l, rem[1]))
  THEN [ok |-> TRUE, x |-> acc, rem |-> rem, e |-> <<>>]
  ELSE LET d == IF l.virt THEN DecContent(sc, l.c, el, rem)
                ELSE DecContent(sc, l.c, rem[1], rem[1].k)
       IN  IF ~d.ok THEN d
           ELSE DecMany(sc, l, el, IF l.virt THEN d.rem ELSE Tail(rem), Append(acc, d.x))

\* the first alternative the next child can start
DecChoice(sc, tn, vars, i, el, rem) ==
  IF i > Len(vars) THEN DErr("MissingVariant", tn, "", "")
  ELSE LET l == vars[i]
           hit == rem # <<>> /\ (IF l.virt THEN Starts(sc, l.c.nm, rem[1]) ELSE IsLeaf(sc, l, rem[1]))
           many == DecMany(sc, l, el, rem, <<>>)
           one == IF l.virt THEN DecContent(sc, l.c, el, rem)
                  ELSE DecContent(sc, l.c, rem[1], rem[1].k)
       IN  IF ~hit THEN DecChoice(sc, tn, vars, i + 1, el, rem)
           ELSE IF IsVec(l)
           THEN IF ~many.ok THEN many ELSE DOk(VEn(tn, l.v, <<VVec(many.x)>>), many.rem)
           ELSE IF ~one.ok THEN one
           ELSE DOk(VEn(tn, l.v, <<one.x>>), IF l.virt THEN one.rem ELSE Tail(rem))

\* a document: the root element has to be the one of the type
Decode(sc, nm, doc) ==
  IF ~Is(doc, nm.n, Uri(sc, nm)) THEN DErr("MissingElement", nm.n, Uri(sc, nm), "")
  ELSE DecRoot(sc, nm, doc, doc.k)
\* FromStr
DecodeStr(sc, nm, s) ==
  LET r == sc.roots[nm] IN
  IF r.k = "enum" THEN DecEnum(nm, r, s)
  ELSE LET d == DecLit(r.c.l, s) IN
       IF d.ok THEN DOk(VTu(r.id, d.x), <<>>)
       ELSE DErr("ParseType", r.id, "", s)

-----------------------------------------------------------------------------
(* encoding: a value contributes attributes, children and text to an element *)
Body(a, k, s, m) == [a |-> a, k |-> k, s |-> s, m |-> m]
NoBody == Body(<<>>, <<>>, "", "e")
Merge(x, y) == Body(x.a \o y.a, x.k \o y.k, x.s \o y.s, IF "t" \in {x.m, y.m} THEN "t" ELSE "e")
EnumText(r, var) ==
  LET vs == r.vs IN vs[FirstIx(vs, LAMBDA x : x.var = var)].val
RECURSIVE EncStr(_, _, _)
EncStr(sc, c, x) ==
  CASE c.c = "lit" -> Show(c.l, x.s)
    [] c.c = "fixed" -> c.fx
    [] OTHER -> LET r == sc.roots[c.nm] IN
                IF r.k = "leaf" THEN EncStr(sc, r.c, x) ELSE EnumText(r, x.var)

RECURSIVE EncContent(_, _, _), EncRoot(_, _, _), EncLeaf(_, _, _)
EncContent(sc, c, x) ==
  CASE c.c = "lit" -> Body(<<>>, <<>>, Show(c.l, x.s), "t")
    [] c.c = "fixed" -> Body(<<>>, <<>>, c.fx, "t")
    [] OTHER -> IF sc.roots[c.nm].k = "leaf" THEN EncContent(sc, sc.roots[c.nm].c, x)
                ELSE EncRoot(sc, c.nm, x)
EncOne(sc, l, x) ==
  LET b == EncContent(sc, l.c, x) IN
  IF l.virt THEN b
  ELSE Body(<<>>, << El(l.nm.n, Uri(sc, l.nm), b.a, b.k, b.s, b.m) >>, "", "e")
EncLeaf(sc, l, x) ==
  LET y == IF IsOpt(l) THEN (IF x.v = "none" THEN <<>> ELSE <<x.o>>) ELSE <<x>>
      es == IF y = <<>> THEN <<>> ELSE IF IsVec(l) THEN y[1].es ELSE y
  IN  FoldLeft(Merge, NoBody, MapS(es, LAMBDA v : EncOne(sc, l, v)))
EncRoot(sc, nm, x) ==
  LET r == sc.roots[nm] IN
  CASE r.k = "leaf" -> EncContent(sc, r.c, x.x)
    [] r.k = "enum" -> Body(<<>>, <<>>, EnumText(r, x.var), "t")
    [] r.k = "choice" ->
         LET l == r.vars[FirstIx(r.vars, LAMBDA v : v.v = x.var)] IN
         IF IsVec(l) THEN FoldLeft(Merge, NoBody, MapS(x.pl[1].es, LAMBDA v : EncOne(sc, l, v)))
         ELSE EncOne(sc, l, x.pl[1])
    [] r.k = "elem" ->
         LET nc == CASE r.ck = "none" -> 0 [] r.ck = "leaf" -> 1 [] OTHER -> Len(r.leaves)
             b == CASE r.ck = "none" -> NoBody
                    [] r.ck = "leaf" -> EncContent(sc, r.lc, x.fs[1].x)
                    [] OTHER -> FoldLeft(Merge, NoBody,
                                  TLCEval([i \in 1..nc |-> EncLeaf(sc, r.leaves[i], x.fs[i].x)]))
             at == Flat(TLCEval([i \in 1..Len(r.attrs) |->
                     LET a == r.attrs[i]
                         y == x.fs[nc + i].x
                     IN  IF a.opt /\ y.v = "none" THEN <<>>
                         ELSE << At1(a.nm.n, EncStr(sc, a.c, IF a.opt THEN y.o ELSE y)) >>]))
         IN  [b EXCEPT !.a = at \o @]
Encode(sc, nm, x) ==
  LET b == EncRoot(sc, nm, x) IN El(nm.n, Uri(sc, nm), b.a, b.k, b.s, b.m)
EncodeStr(sc, nm, x) ==
  LET r == sc.roots[nm] IN IF r.k = "enum" THEN EnumText(r, x.var) ELSE Show(r.c.l, x.x.s)
=============================================================================
