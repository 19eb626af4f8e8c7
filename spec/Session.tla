------------------------------- MODULE Session -------------------------------
(* The life of a schema: it is loaded item by item, values of its types are   *)
(* written, the documents are changed, read, and written again.  One initial  *)
(* state per unit (a schema); the invariants are the guarantees the library   *)
(* exists to provide.  Every finished unit is handed to the conformance       *)
(* harness as a test (files, expected surface, documents and what has to      *)
(* happen with them).                                                         *)
EXTENDS Families, IOUtils, Json

\* what to explore: <<[prof, seed, from, units, cases, bad]>>, and where finished units go
Plan == JsonDeserialize(IOEnv.V_PLAN)
Out  == IOEnv.V_OUT

VARIABLES
  unit,   \* [p, ix, att]: which part of the plan, which unit, which attempt to get one in the domain
  files,  \* the schema documents
  ld,     \* the loader's state
  ph,     \* phase
  j,      \* number of the current case
  cas,    \* the current case: root, value, document ...
  out     \* finished cases
vars == <<unit, files, ld, ph, j, cas, out>>

Prof == Plan[unit.p].prof
Seed == Plan[unit.p].seed
Cases == Plan[unit.p].cases
IsFam == Prof \in Fams
UKey(u) == Key(Plan[u.p].seed, u.ix * 16 + u.att)
FilesOf(u) == LET p == Plan[u.p] IN
              IF p.prof \in Fams THEN FamFiles(p.prof, p.seed, u.ix) ELSE RandomFiles(UKey(u), Profiles[p.prof])
NCases(sc) == IF IsFam THEN FamCases(Prof, Seed, unit.ix, Cases) ELSE Cases
Sc == [roots |-> ld.roots, nss |-> ld.nss]
NoCase == [root |-> "", nm |-> NoName]

Init ==
  /\ \E p \in 1..Len(Plan) : \E i \in Plan[p].from..(Plan[p].from + Plan[p].units - 1) :
       unit = [p |-> p, ix |-> i, att |-> 1]
  /\ files = <<>>
  /\ ld = LoadStart /\ ph = "begin" /\ j = 0 /\ cas = NoCase /\ out = <<>>

-----------------------------------------------------------------------------
(* loading *)
Begin ==
  /\ ph = "begin" /\ ph' = "load" /\ files' = FilesOf(unit)
  /\ UNCHANGED <<unit, ld, j, cas, out>>
Load ==
  /\ ph = "load"
  /\ ld.status \in {"start", "reading"}
  /\ ld' = IF ld.status = "start" THEN Open(files, ld, files[1].path) ELSE LoadStep(files, ld)
  /\ UNCHANGED <<unit, files, ph, j, cas, out>>
\* the guarantees are about schemas that can be expressed
Enter ==
  /\ ph = "load" /\ ld.status = "loaded"
  /\ IF /\ ld.seen = {files[i].path : i \in 1..Len(files)}
        /\ InDomain(files, Sc, ld.dup)
     THEN ph' = "next" /\ ld' = [ld EXCEPT !.roots = WithIds(@)]
     ELSE ph' = "outside" /\ UNCHANGED ld
  /\ UNCHANGED <<unit, files, j, cas, out>>
Reject ==
  /\ ph = "load" /\ ld.status = "failed" /\ ph' = "outside"
  /\ UNCHANGED <<unit, files, ld, j, cas, out>>
Retry ==
  /\ ph = "outside" /\ ~IsFam /\ unit.att < 12
  /\ unit' = [unit EXCEPT !.att = @ + 1]
  /\ files' = FilesOf(unit')
  /\ ld' = LoadStart /\ ph' = "load"
  /\ UNCHANGED <<j, cas, out>>

-----------------------------------------------------------------------------
(* cases *)
G == GlobalsOf(files)
NmOf(d) == Nm(d.n, IF d.u = "" THEN 0 ELSE FirstIx(ld.nss, LAMBDA x : x = d.u))
\* elements are preferred as roots
RootsOf == LET es == Filter(G, LAMBDA d : d.t = "e") IN es \o es \o Filter(G, LAMBDA d : d.t = "t")

Write ==
  /\ ph = "next" /\ j < NCases(Sc)
  /\ LET k == Sub(Sub(UKey(unit), 777), j + 1)
         d == PickOf(Sub(k, 1), RootsOf)
         raw == RawRoot(Sc, NmOf(d), Sub(k, 2), 4)
         x == Canon(raw)
     IN  cas' = IF IsFam /\ j < FixedCases(Prof, Seed, unit.ix, Cases)
                THEN FamCase(Prof, Seed, unit.ix, j + 1, Cases, files, G, Sc, NmOf)
                ELSE [t |-> d.t, q |-> [n |-> d.n, u |-> d.u], nm |-> NmOf(d), x |-> x,
                      enc |-> Encode(Sc, NmOf(d), x), doc |-> Encode(Sc, NmOf(d), raw), made |-> TRUE,
                      what |-> <<>>, key |-> k, toks |-> <<>>, wf |-> TRUE, mix |-> FALSE]
  /\ ph' = "written" /\ j' = j + 1
  /\ UNCHANGED <<unit, files, ld, out>>

Change ==
  /\ ph = "written" /\ ph' = "sent"
  /\ LET n == IF ~cas.made THEN 0 ELSE PickOf(Sub(cas.key, 3), <<0, 0, 1, 1, 1, 1, 2>>)
         m1 == Mutate(cas.doc, Sub(cas.key, 4), Changes)
         m2 == Mutate(m1.doc, Sub(cas.key, 5), Changes)
         \* where refusals are what it is about: the first of a few changes that leads to one
         harm(i) == Mutate(cas.doc, Sub(cas.key, 5 + i), Changes)
         hurts == {i \in 1..8 : ~Decode(Sc, cas.nm, harm(i).doc).ok}
         m3 == harm(CHOOSE i \in hurts : \A h \in hurts : i <= h)
     IN  cas' = CASE n = 0 -> cas
                  [] n # 0 /\ Plan[unit.p].bad /\ hurts # {} -> [cas EXCEPT !.doc = m3.doc, !.what = <<m3.what>>]
                  [] n = 1 -> [cas EXCEPT !.doc = m1.doc, !.what = <<m1.what>>]
                  [] OTHER -> [cas EXCEPT !.doc = m2.doc, !.what = <<m1.what, m2.what>>]
  /\ UNCHANGED <<unit, files, ld, j, out>>

\* white space between elements says nothing
RECURSIVE Tidy(_)
Tidy(el) == IF el.k = <<>> THEN el ELSE [el EXCEPT !.s = IF Blanks(@) THEN "" ELSE @, !.k = MapS(@, Tidy)]
Read ==
  /\ ph = "sent" /\ ph' = "read"
  /\ LET r == IF cas.wf THEN Decode(Sc, cas.nm, cas.doc) ELSE DErr("Xml", "", "", "") IN
     cas' = cas @@ [res |-> r,
                    valid |-> cas.wf /\ ~cas.mix /\ ValidDoc(G, cas.t, cas.q, Tidy(cas.doc), FALSE),
                    back |-> IF r.ok THEN <<Encode(Sc, cas.nm, r.x)>> ELSE <<>>]
  /\ UNCHANGED <<unit, files, ld, j, out>>

\* texts about which nothing is said
HasFloats == \E nm \in DOMAIN ld.roots :
  LET r == ld.roots[nm]
      isF(c) == c.c = "lit" /\ c.l = "float"
  IN  CASE r.k = "leaf" -> isF(r.c)
        [] r.k = "choice" -> \E i \in 1..Len(r.vars) : isF(r.vars[i].c)
        [] r.k = "elem" -> \/ r.ck = "leaf" /\ isF(r.lc)
                           \/ \E i \in 1..Len(r.leaves) : isF(r.leaves[i].c)
                           \/ \E i \in 1..Len(r.attrs) : isF(r.attrs[i].c)
        [] OTHER -> FALSE
RECURSIVE Vague(_)
Vague(el) == \/ FloatUnknown(el.s)
             \/ \E i \in 1..Len(el.a) : FloatUnknown(el.a[i].v)
             \/ \E i \in 1..Len(el.k) : Vague(el.k[i])
Keep ==
  /\ ph = "read" /\ ph' = "next"
  /\ out' = IF (HasFloats /\ Vague(cas.doc)) \/ Unsaid(cas.toks) THEN out ELSE Append(out, [type |-> TypeIdent(cas.nm.n), doc |-> cas.doc, ok |-> cas.res.ok,
                         value |-> IF cas.res.ok THEN <<cas.res.x>> ELSE <<>>, err |-> cas.res.e,
                         valid |-> cas.valid, back |-> cas.back, what |-> cas.what, toks |-> cas.toks, wf |-> cas.wf,
                         made |-> IF cas.made THEN <<[x |-> cas.x, enc |-> cas.enc, reads |-> Decode(Sc, cas.nm, cas.enc).ok,
                                                      unique |-> Bounded(Sc, cas.nm, cas.x) /\ Strong(files)]>>
                                 ELSE <<>>])
  /\ cas' = NoCase
  /\ UNCHANGED <<unit, files, ld, j>>

-----------------------------------------------------------------------------
(* the finished unit *)
\* FromStr and Display of the simple types
StrCases ==
  LET names == SetToSeq({nm \in DOMAIN ld.roots : TypeDecl(Sc, nm).strs = "y"})
      pool(r) == IF r.k = "enum" THEN r.vals \o <<"", "nope", "RED", " red">>
                 ELSE IF HasBad(r.c.l) THEN GoodPool[r.c.l] \o BadPool[r.c.l] ELSE GoodPool[r.c.l]
      of(nm) == MapS(pool(ld.roots[nm]), LAMBDA s :
                  LET d == DecodeStr(Sc, nm, s) IN
                  [type |-> TypeIdent(nm.n), s |-> s, ok |-> d.ok, value |-> IF d.ok THEN <<d.x>> ELSE <<>>,
                   err |-> d.e, show |-> IF d.ok THEN EncodeStr(Sc, nm, d.x) ELSE ""])
  IN  Flat(MapS(names, of))
Closures ==
  {[n |-> nm.n, u |-> Uri(Sc, nm), types |-> {TypeIdent(x.n) : x \in Reach(ld.deps, {nm}) \cap DOMAIN ld.roots}]
     : nm \in {NmOf(d) : d \in Range(G)} \cap DOMAIN ld.roots}
Failure == MapS(ld.err, LAMBDA x : [k |-> x.e.k, n |-> x.e.n, el |-> x.e.el, v |-> x.e.v,
                                     p |-> x.e.p, at |-> x.e.at, file |-> x.file])
Hand(rec) == JsonSerialize(Out \o "/p" \o NumStr(unit.p) \o "u" \o NumStr(unit.ix) \o ".json", <<rec>>)
Finish ==
  /\ \/ /\ ph = "next" /\ j = NCases(Sc) /\ ph' = "done"
        /\ Hand([p |-> unit.p, ix |-> unit.ix, att |-> unit.att, prof |-> Prof, files |-> files, loads |-> TRUE,
                 surface |-> SurfaceOf(Sc), closures |-> Closures, cases |-> out, strs |-> StrCases,
                 model |-> IF Plan[unit.p].model THEN ModelOf(Sc) ELSE {}, nss |-> ld.nss, fail |-> <<>>])
     \/ /\ ph = "outside" /\ IsFam /\ ph' = "done" /\ ld.status = "failed"
        /\ Hand([p |-> unit.p, ix |-> unit.ix, att |-> unit.att, prof |-> Prof, files |-> files,
                 loads |-> ld.status = "loaded", surface |-> {}, closures |-> {}, cases |-> <<>>,
                 strs |-> <<>>, model |-> {}, nss |-> <<>>, fail |-> Failure])
  /\ UNCHANGED <<unit, files, ld, j, cas, out>>

Next == Begin \/ Load \/ Enter \/ Reject \/ Retry \/ Write \/ Change \/ Read \/ Keep \/ Finish
Spec == Init /\ [][Next]_vars
\* everything else is a function of this
View == <<unit, ph, j, ld.status, [i \in 1..Len(ld.stack) |-> <<ld.stack[i].path, Len(ld.stack[i].todo)>>]>>

-----------------------------------------------------------------------------
(* the guarantees *)
\* what is written is read back as it was
RoundTrip ==
  (ph = "written" /\ cas.made /\ Bounded(Sc, cas.nm, cas.x)) =>
    LET r == Decode(Sc, cas.nm, cas.enc) IN r.ok /\ (r.x = cas.x \/ ~Strong(files))
\* what is written is a document of the schema
WritesValid ==
  (ph = "written" /\ cas.made /\ Bounded(Sc, cas.nm, cas.x)) => ValidDoc(G, cas.t, cas.q, cas.enc, FALSE)
\* a valid document is accepted
AcceptsValid == (ph = "read" /\ cas.valid) => cas.res.ok
\* ... and nothing of it is lost, nothing is invented
RECURSIVE SameTree(_, _)
SameTree(a, b) == a.n = b.n /\ a.u = b.u /\ a.a = b.a /\ a.s = b.s /\ Len(a.k) = Len(b.k)
                  /\ \A i \in 1..Len(a.k) : SameTree(a.k[i], b.k[i])
SameKid(a, b) == a.n = b.n /\ a.u = b.u
RECURSIVE Mirrors(_, _, _)
Mirrors(a, b, part) == \* b has the content of a (part: or some of it)
  /\ SameKid(a, b)
  /\ LET an == {x.n : x \in {y \in Range(a.a) : y.u = ""}}
         bn == {x.n : x \in Range(b.a)} IN
     IF part THEN bn \subseteq an ELSE an = bn
  /\ \A c \in {[n |-> y.n, u |-> y.u] : y \in Range(a.k \o b.k)} :
       LET ka == Filter(a.k, LAMBDA y : SameKid(y, c))
           kb == Filter(b.k, LAMBDA y : SameKid(y, c))
       IN  IF part THEN Len(kb) <= Len(ka) ELSE Len(ka) = Len(kb) /\ \A i \in 1..Len(ka) : Mirrors(ka[i], kb[i], FALSE)
KeepsContent == (ph = "read" /\ cas.valid /\ cas.res.ok) => Mirrors(cas.doc, cas.back[1], FALSE)
InventsNothing ==
  (ph = "read" /\ cas.res.ok) =>
    /\ Mirrors(cas.doc, cas.back[1], TRUE)
    /\ ValidDoc(G, cas.t, cas.q, cas.back[1], TRUE)
    /\ LET r == Decode(Sc, cas.nm, cas.back[1]) IN r.ok /\ r.x = cas.res.x
\* a text that is not well-formed means nothing, and the meaning of one that is, is its tree
OnlyWellFormed == (ph = "read" /\ ~cas.wf) => ~cas.res.ok /\ cas.res.e[1].k = "Xml"
Reparse == (ph = "written" /\ cas.wf) => LET p == Meaning(Tokens(cas.doc)) IN p.ok /\ SameTree(p.doc, cas.doc)
\* every type a type needs is in its closure
SelfContained ==
  (ph = "next" /\ j = 0) => \A nm \in {NmOf(d) : d \in Range(G)} \cap DOMAIN ld.roots :
    LET c == Reach(ld.deps, {nm}) IN \A x \in c \cap DOMAIN ld.roots : RefsOf(Sc, x) \subseteq c
\* every global definition is there, as what it is, and simple types have the facets they were given
KeepsDefinitions ==
  (ph = "next" /\ j = 0) =>
    \A f \in Range(files) : \A i \in 1..Len(f.root.k) :
      LET n == f.root.k[i]
          nm == Nm(AVal(n, "name"), IF f.tns = "" THEN 0 ELSE FirstIx(ld.nss, LAMBDA x : x = f.tns))
          fs == XKids(Kid(XKids(n), "restriction"))
      IN  (f.form \notin {"missing", "garbage"} /\ n.x /\ n.t \in {"element", "complexType", "simpleType"}) =>
          /\ nm \in DOMAIN ld.roots
          /\ n.t = "complexType" => ld.roots[nm].k = "elem"
          /\ n.t = "simpleType" =>
               IF \E x \in Range(fs) : x.t = "enumeration"
               THEN ld.roots[nm].k = "enum"
                    /\ ld.roots[nm].vals = MapS(Filter(fs, LAMBDA x : x.t = "enumeration"), LAMBDA x : AVal(x, "value"))
               ELSE ld.roots[nm].k = "leaf"
                    /\ ld.roots[nm].fs = MapS(fs, LAMBDA x : [t |-> x.t, v |-> AVal(x, "value")])
\* every file that can be reached has been read exactly once, and nothing is left open
AllRead == (ph = "next" /\ j = 0) => ld.stack = <<>> /\ ld.seen \subseteq {f.path : f \in Range(files)}
=============================================================================
