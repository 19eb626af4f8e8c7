------------------------------- MODULE Markup -------------------------------
(* What a text says: a document is a sequence of tokens, reading it is a      *)
(* stack machine.  It either arrives at a tree of elements (the documents of  *)
(* Codec) or refuses the text: a document that is not well-formed, whose      *)
(* namespaces are not, or that has a document type declaration, has no        *)
(* meaning at all.                                                            *)
(*                                                                            *)
(* A token is [t, p, n, a, s]: what it is, prefix and name of a tag, its      *)
(* attributes, and text.  An attribute is [p, n, v, w]: w is how the value is *)
(* written, where that is not up to the renderer ("": it is).                 *)
EXTENDS Gen

Tk(t, s) == [t |-> t, p |-> "", n |-> "", a |-> <<>>, s |-> s]
Open_(p, n, a) == [t |-> "open", p |-> p, n |-> n, a |-> a, s |-> ""]
Empty_(p, n, a) == [t |-> "empty", p |-> p, n |-> n, a |-> a, s |-> ""]
Close_(p, n) == [t |-> "close", p |-> p, n |-> n, a |-> <<>>, s |-> ""]
IsTag(tk) == tk.t \in {"open", "empty", "close"}
TA(p, n, v) == [p |-> p, n |-> n, v |-> v, w |-> ""]
XmlUri == "http://www.w3.org/XML/1998/namespace"
XmlnsUri == "http://www.w3.org/2000/xmlns/"

\* references: what they stand for; others mean nothing
RefVal == [amp |-> "&", lt |-> "<", gt |-> ">", quot |-> "\"", apos |-> "'"]
          @@ ("#65" :> "A") @@ ("#x42" :> "B") @@ ("#x6b" :> "k") @@ ("#10" :> "\n")
\* ways to write a value of an attribute that are right: what they stand for
WrittenVal == ("'a&amp;b'" :> "a&b") @@ ("'&#65;'" :> "A") @@ ("\"it's\"" :> "it's") @@ ("'&lt;>'" :> "<>")

IsDecl(x) == x.p = "xmlns" \/ (x.p = "" /\ x.n = "xmlns")
DeclPrefix(x) == IF x.p = "xmlns" THEN x.n ELSE ""
ValueOk(x) == x.w = "" \/ x.w \in DOMAIN WrittenVal
ValueOf(x) == IF x.w = "" THEN x.v ELSE WrittenVal[x.w]
DeclOk(x) ==
  LET p == DeclPrefix(x)  v == ValueOf(x) IN
  /\ p # "xmlns"
  /\ p = "xml" <=> v = XmlUri
  /\ v # XmlnsUri
\* a scope: which prefix means what
Within(scope, a) ==
  LET ds == Filter(a, IsDecl) IN
  FoldLeft(LAMBDA sc, x : (DeclPrefix(x) :> ValueOf(x)) @@ sc, scope, ds)
TagOk(scope, tk) ==
  LET plain == Filter(tk.a, LAMBDA x : ~IsDecl(x))
      sc == Within(scope, tk.a)
      uri(x) == IF x.p = "" THEN "" ELSE sc[x.p]
  IN  /\ \A i \in 1..Len(tk.a) : ValueOk(tk.a[i])
      /\ \A i \in 1..Len(tk.a) : IsDecl(tk.a[i]) => DeclOk(tk.a[i])
      /\ Distinct(MapS(Filter(tk.a, IsDecl), DeclPrefix))
      /\ tk.p \in DOMAIN sc /\ tk.p # "xmlns"
      /\ \A i \in 1..Len(plain) : plain[i].p = "" \/ plain[i].p \in DOMAIN sc
      /\ Distinct(MapS(plain, LAMBDA x : [n |-> x.n, u |-> uri(x)]))
TagEl(scope, tk) ==
  LET sc == Within(scope, tk.a)
      plain == Filter(tk.a, LAMBDA x : ~IsDecl(x))
  IN  El(tk.n, sc[tk.p], MapS(plain, LAMBDA x : [n |-> x.n, u |-> IF x.p = "" THEN "" ELSE sc[x.p], v |-> ValueOf(x)]), <<>>, "", "t")

\* the machine: at is where it is (at the "start" of the text, at the start but for
\* the byte order mark, in the "prolog", "in" the root, in the "epilog");
\* mix: there is text behind a child element
Scope0 == ("" :> "") @@ ("xml" :> XmlUri)
Start_ == [ok |-> TRUE, at |-> "start", st |-> <<>>, root |-> <<>>, mix |-> FALSE]
Top(m) == m.st[Len(m.st)]
ScopeOf(m) == IF m.st = <<>> THEN Scope0 ELSE Top(m).sc
Blanks(s) == \A i \in 1..Len(s) : Ch(s, i) \in Blank
Refuse(m) == [m EXCEPT !.ok = FALSE]
Later(m) == IF m.at \in {"start", "marked"} THEN [m EXCEPT !.at = "prolog"] ELSE m
\* text of the innermost element: what is in front of its first child counts
Chars_(m, s) ==
  IF m.st = <<>> THEN Refuse(m)
  ELSE IF Top(m).el.k = <<>> THEN [m EXCEPT !.st[Len(m.st)].el.s = @ \o s]
  ELSE IF Blanks(s) THEN m ELSE [m EXCEPT !.mix = TRUE]
PutEl(m, el) == \* a finished element
  IF m.st = <<>> THEN [m EXCEPT !.root = <<el>>, !.at = "epilog"]
  ELSE [m EXCEPT !.st[Len(m.st)].el.k = Append(@, el)]
CommentOk(s) == ~\E i \in 1..Len(s) : Ch(s, i) = "-" /\ (i = Len(s) \/ Ch(s, i + 1) = "-")
Read_(m0, tk) ==
  LET m == Later(m0)
      t == tk.t
  IN  IF ~m0.ok THEN m0
      ELSE CASE t = "bom" -> IF m0.at = "start" THEN [m0 EXCEPT !.at = "marked"] ELSE Chars_(m, "{bom}")
             [] t = "decl" -> IF m0.at \in {"start", "marked"} THEN m ELSE Refuse(m)
             [] t = "text" -> IF m.at # "in" THEN (IF Blanks(tk.s) THEN m ELSE Refuse(m)) ELSE Chars_(m, tk.s)
             [] t = "cdata" -> Chars_(m, tk.s)
             [] t = "ref" -> IF tk.s \in DOMAIN RefVal THEN Chars_(m, RefVal[tk.s]) ELSE Refuse(m)
             [] t = "comment" -> IF CommentOk(tk.s) THEN m ELSE Refuse(m)
             [] t = "pi" -> m
             [] t = "open" -> IF m.at = "epilog" \/ ~TagOk(ScopeOf(m), tk) THEN Refuse(m)
                              ELSE [m EXCEPT !.at = "in", !.st = Append(@, [p |-> tk.p, n |-> tk.n, sc |-> Within(ScopeOf(m), tk.a),
                                                                            el |-> TagEl(ScopeOf(m), tk)])]
             [] t = "empty" -> IF m.at = "epilog" \/ ~TagOk(ScopeOf(m), tk) THEN Refuse(m)
                               ELSE PutEl(m, TagEl(ScopeOf(m), tk))
             [] t = "close" -> IF m.st = <<>> \/ Top(m).p # tk.p \/ Top(m).n # tk.n THEN Refuse(m)
                               ELSE PutEl([m EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)], Top(m).el)
             [] OTHER -> Refuse(m)      \* a document type declaration; what is no token at all
RECURSIVE Kinds(_)
\* elements with children have element content
Kinds(el) == IF el.k = <<>> THEN el ELSE [el EXCEPT !.m = "e", !.k = MapS(@, Kinds)]
Nothing == El("", "", <<>>, <<>>, "", "t")
Meaning(toks) ==
  LET m == FoldLeft(Read_, Start_, toks)
      ok == m.ok /\ m.st = <<>> /\ m.root # <<>>
  IN  [ok |-> ok, doc |-> IF ok THEN Kinds(m.root[1]) ELSE Nothing, mix |-> m.mix]

\* About a few texts nothing is said: the XML reader, which is not part of this code, takes another view of
\* them than the recommendations (elements with the prefix xml; attributes p:xmlns; two default namespaces).
Unsaid(toks) ==
  \E i \in 1..Len(toks) : LET tk == toks[i] IN
    /\ IsTag(tk)
    /\ \/ tk.p = "xml"
       \/ \E j \in 1..Len(tk.a) : tk.a[j].p # "" /\ tk.a[j].n = "xmlns"
       \/ Len(Filter(tk.a, LAMBDA x : x.p = "" /\ x.n = "xmlns")) > 1

-----------------------------------------------------------------------------
(* a tree as tokens, the plain way: local namespaces are declared where they  *)
(* are needed.  Reading that gives the tree again (Reparse in Session).       *)
RECURSIVE Tokens(_)
Tokens(el) ==
  LET us == SetToSeq({x.u : x \in Range(el.a)} \ {"", XmlUri})
      pre(u) == IF u = XmlUri THEN "xml" ELSE "n" \o NumStr(FirstIx(us, LAMBDA x : x = u))
      p == IF el.u = XmlUri THEN "xml" ELSE ""
      a == (IF el.u = XmlUri THEN <<>> ELSE << TA("", "xmlns", el.u) >>) \o MapS(us, LAMBDA u : TA("xmlns", pre(u), u))
           \o MapS(el.a, LAMBDA x : TA(IF x.u = "" THEN "" ELSE pre(x.u), x.n, x.v))
  IN  << Open_(p, el.n, a) >> \o (IF el.s = "" THEN <<>> ELSE << Tk("text", el.s) >>)
      \o Flat(MapS(el.k, Tokens)) \o << Close_(p, el.n) >>

-----------------------------------------------------------------------------
(* changes of a sequence of tokens *)
\* what may be inserted anywhere
Extras == <<
  Tk("decl", ""), Tk("doctype", "<!DOCTYPE r>"), Tk("doctype", "<!DOCTYPE r [<!ENTITY e 'x'>]>"), Tk("doctype", "<!DOCTYPE r SYSTEM 'r.dtd'>"),
  Tk("text", " "), Tk("text", "\n\t"), Tk("text", "7"), Tk("text", "words"), Tk("cdata", "1"), Tk("cdata", ""), Tk("cdata", "<&a;"),
  Tk("ref", "amp"), Tk("ref", "#65"), Tk("ref", "#10"), Tk("ref", "nope"), Tk("ref", "#x"), Tk("ref", "#0"), Tk("ref", "#x1F"), Tk("ref", "AMP"), Tk("ref", ""),
  Tk("comment", " c "), Tk("comment", ""), Tk("comment", "<r>"), Tk("comment", "a--b"), Tk("comment", "c-"),
  Tk("pi", "go"), Tk("pi", "go <now>"), Tk("bom", ""),
  Open_("", "x", <<>>), Close_("", "x"), Empty_("", "x", <<>>), Open_("zz", "a", <<>>), Empty_("zz", "a", <<>>), Close_("", "r"), Close_("p", "r"),
  Empty_("", "x", <<TA("", "k", "1"), TA("", "k", "2")>>), Empty_("", "x", <<TA("zz", "k", "1")>>),
  Empty_("zz", "x", <<TA("xmlns", "zz", "urn:z")>>), Empty_("", "x", <<TA("xmlns", "y", "urn:z"), TA("xmlns", "z", "urn:z"), TA("y", "k", "1"), TA("z", "k", "1")>>),
  Empty_("", "x", <<TA("xml", "lang", "en")>>), Empty_("xml", "x", <<>>),
  Tk("raw", "<"), Tk("raw", "&"), Tk("raw", "&amp"), Tk("raw", "]]>"), Tk("raw", "<>"), Tk("raw", "</>"), Tk("raw", "<1/>"), Tk("raw", "<-a/>"),
  Tk("raw", "<x"), Tk("raw", "<x y>"), Tk("raw", "<x y=1/>"), Tk("raw", "<x y='1'"), Tk("raw", "<x y='1/>"), Tk("raw", "<x/ >"), Tk("raw", "< x/>"),
  Tk("raw", "<x y='<'/>"), Tk("raw", "<x y='&'/>"), Tk("raw", "<x y='&zz;'/>"), Tk("raw", "<x 1='1'/>"), Tk("raw", "<x y='1' z/>"), Tk("raw", "<x =''/>"),
  Tk("raw", "<x y='1'z='2'/>"), Tk("raw", "<x></y>"), Tk("raw", "<x></X>"), Tk("raw", "<x></x y='1'>"),
  Tk("raw", "<!-- -- -->"), Tk("raw", "<!->"), Tk("raw", "<![cdata[x]]>"), Tk("raw", "<!ELEMENT r ANY>"),
  Tk("raw", "{ctl}"), Tk("raw", "{nul}"), Tk("raw", "<x y='{ctl}'/>"), Tk("raw", "<x:y:z/>"), Tk("raw", "<x:/>") >>
\* what may be done to a tag
ToTag(tk) ==
  << [tk EXCEPT !.n = @ \o "z"], [tk EXCEPT !.n = UpperAll(@)], [tk EXCEPT !.p = "zz"], [tk EXCEPT !.p = "xml"], [tk EXCEPT !.p = "xmlns"],
     [tk EXCEPT !.p = IF @ = "" THEN "p" ELSE ""] >>
  \o (IF tk.t = "close" THEN << [tk EXCEPT !.t = "open"], [tk EXCEPT !.t = "empty"] >>
      ELSE << [tk EXCEPT !.t = IF @ = "open" THEN "empty" ELSE "open"], Close_(tk.p, tk.n) >>
           \o MapS(Idx(Len(tk.a)), LAMBDA i : [tk EXCEPT !.a = RemoveAtIx(@, i)])
           \o MapS(Idx(Len(tk.a)), LAMBDA i : [tk EXCEPT !.a = Append(@, tk.a[i])])
           \o MapS(Idx(Len(tk.a)), LAMBDA i : [tk EXCEPT !.a[i].n = @ \o "z"])
           \o MapS(Idx(Len(tk.a)), LAMBDA i : [tk EXCEPT !.a[i].p = IF @ = "" THEN "p" ELSE ""])
           \o MapS(Idx(Len(tk.a)), LAMBDA i : [tk EXCEPT !.a[i].v = IF IsDecl(tk.a[i]) THEN "urn:else" ELSE ""])
           \o MapS(<< TA("", "more", "1"), TA("p", "at", "9"), TA("zz", "at", "9"), TA("xml", "at", "9"), TA("", "xmlns", "urn:else"), TA("", "xmlns", ""),
                      TA("xmlns", "zz", "urn:z"), TA("xmlns", "p", "urn:z"), TA("xmlns", "xml", "urn:z"), TA("xmlns", "xml", XmlUri), TA("xmlns", "xmlns", "urn:z"),
                      TA("xmlns", "zz", XmlUri), TA("xmlns", "zz", XmlnsUri), TA("", "xmlns", XmlUri), TA("", "xmlns", XmlnsUri) >>,
                   LAMBDA x : [tk EXCEPT !.a = Append(@, x)])
           \o MapS(<<"'a&amp;b'", "'&#65;'", "\"it's\"", "'&lt;>'", "'<'", "'&'", "'&nope;'", "'&#0;'", "\"a'", "a", "", "'a''b'", "'{ctl}'">>,
                   LAMBDA w : [tk EXCEPT !.a = Append(@, [TA("", "more", "1") EXCEPT !.w = IF w = "" THEN "none" ELSE w])])
           \o Flat(MapS(SelectSeq(Idx(Len(tk.a)), LAMBDA i : ~IsDecl(tk.a[i])), LAMBDA i :
                MapS(<<"'a&amp;b'", "'&#65;'", "\"it's\"", "'&lt;>'", "'<'", "'&nope;'", "none">>, LAMBDA w : [tk EXCEPT !.a[i].w = w])))
           \o << [tk EXCEPT !.a = << TA("xmlns", "y", "urn:z"), TA("xmlns", "z", "urn:z"), TA("y", "k", "1"), TA("z", "k", "2") >> \o @],
                 [tk EXCEPT !.a = << TA("xmlns", "y", "urn:z"), TA("xmlns", "z", "urn:y"), TA("y", "k", "1"), TA("z", "k", "2") >> \o @],
                 [tk EXCEPT !.a = Reverse(@)] >>)
RootEnd(ts) == LET ks == {i \in 1..Len(ts) : ts[i].t = "close"} IN CHOOSE i \in ks : \A j \in ks : j <= i
Half(tk) == [tk EXCEPT !.t = "half-" \o @]
\* every single change, numbered: without one of the tokens, with one twice, two the other way round, the
\* beginning, the end, the text broken off in a token, a further token anywhere, a tag changed
PerTag == 72
EditCount(ts) ==
  LET n == Len(ts) IN
  3 + 5 * n + RootEnd(ts) + (n + 1) * Len(Extras) + PerTag * Len(Filter(ts, IsTag))
EditAt(ts, num) ==
  LET n == Len(ts)
      e == RootEnd(ts)
      tags == SelectSeq(Idx(n), LAMBDA i : IsTag(ts[i]))
      j == num - 3
      i == 1 + ((j - 1) % n)
      h == j - 5 * n
      x == h - e - 1        \* from 0
      nx == Len(Extras)
      y == x - (n + 1) * nx
  IN  CASE j = -2 -> ts
        [] j = -1 -> <<>>
        [] j = 0 -> ts \o ts
        [] j > 0 /\ j <= n -> RemoveAtIx(ts, i)
        [] j > n /\ j <= 2 * n -> InsertAtIx(ts, i, ts[i])
        [] j > 2 * n /\ j <= 3 * n -> IF i = n THEN Reverse(ts) ELSE [ts EXCEPT ![i] = ts[i + 1], ![i + 1] = ts[i]]
        [] j > 3 * n /\ j <= 4 * n -> SubSeq(ts, 1, i)
        [] j > 4 * n /\ j <= 5 * n -> SubSeq(ts, i, n)
        [] h > 0 /\ h <= e -> Append(SubSeq(ts, 1, h - 1), Half(ts[h]))
        [] x >= 0 /\ x < (n + 1) * nx -> InsertAtIx(ts, 1 + (x \div nx), Extras[1 + (x % nx)])
        [] OTHER -> LET t == tags[1 + (y % Len(tags))]
                        l == ToTag(ts[t])
                    IN  [ts EXCEPT ![t] = l[1 + ((y \div Len(tags)) % Len(l))]]
=============================================================================
