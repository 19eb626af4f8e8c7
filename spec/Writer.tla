------------------------------- MODULE Writer --------------------------------
(* The element writer.  A frame of the stack is a context a piece of code     *)
(* holds: of an element of its own (real) or of its caller's (virtual).  The  *)
(* document grows from calls; an element's start tag is written when any of   *)
(* its contexts is started for the first time, with what had been set by any  *)
(* of them until then.                                                        *)
EXTENDS Util, Json, IOUtils

CONSTANTS MaxEls, MaxLen, MaxDepth, Walks, Seed, Mode  \* Mode: "all" histories up to MaxLen, "walk": Walks random ones

VARIABLES
  els,   \* elements in order of creation: [n, p (prefix), up (parent), at, ns, started, ended, kids, depth]
  st,    \* stack of contexts: <<[el, real]>>
  hist,  \* the calls made
  key,   \* random choices (walk)
  who    \* which of the walks it is
vars == <<els, st, hist, key, who>>

\* "wide": walks that go on with one kind of call, with many names to choose from
Wide == Mode = "wide"
Lots(pre) == [i \in 1..70 |-> pre \o NumStr(i)]
Pfxs == IF Wide THEN <<"", "p">> \o Lots("q") ELSE <<"", "p">>
Locals == <<"e", "f-g">>
Uris == IF Wide THEN Lots("urn:") ELSE <<"urn:1", "urn:2">>
AttrNames == IF Wide THEN <<"x", "y">> \o Lots("a") ELSE <<"x", "y">>
ElsMax == IF Wide THEN 200 ELSE MaxEls
DepthMax == IF Wide THEN 60 ELSE MaxDepth
AttrVals == <<"1", "<&\"'>">>
Texts == <<"t", "a<b&c>">>

Top == st[Len(st)]
Elm == els[Top.el]
Call(op, a, b) == [op |-> op, a |-> a, b |-> b]
Log(c) == hist' = Append(hist, c)

\* the namespace a prefix stands for at an element, "-" if it is not declared
RECURSIVE Bound(_, _, _)
Bound(es, i, p) ==
  IF i = 0 THEN (IF p = "" THEN "" ELSE "-")
  ELSE LET hit == FirstIx(es[i].ns, LAMBDA x : x.p = p) IN
       IF hit # 0 THEN es[i].ns[hit].u ELSE Bound(es, es[i].up, p)

NewOk == /\ Len(els) < ElsMax /\ Len(st) < DepthMax
         /\ IF st = <<>> THEN els = <<>> ELSE Elm.started /\ ~Elm.ended
New(n, p) ==
  /\ NewOk
  /\ LET up == IF st = <<>> THEN 0 ELSE Top.el
         me == Len(els) + 1
         e == [n |-> n, p |-> p, up |-> up, at |-> <<>>, ns |-> <<>>, started |-> FALSE, ended |-> FALSE, kids |-> <<>>]
         old == IF up = 0 THEN els ELSE [els EXCEPT ![up].kids = Append(@, [el |-> me, s |-> ""])]
     IN  els' = Append(old, e) /\ st' = Append(st, [el |-> me, real |-> TRUE])
  /\ Log(Call("new", IF p = "" THEN n ELSE p \o ":" \o n, ""))
Wrap ==
  /\ st # <<>> /\ Len(st) < DepthMax /\ ~Elm.ended
  /\ st' = Append(st, [el |-> Top.el, real |-> FALSE]) /\ UNCHANGED els
  /\ Log(Call("wrap", "", ""))
\* a context is given up; the one that owns the element only when the element is complete
Pop ==
  /\ st # <<>> /\ (Top.real => Elm.ended)
  /\ st' = SubSeq(st, 1, Len(st) - 1) /\ UNCHANGED els
  /\ Log(Call("pop", "", ""))
Attr(n, v) ==
  /\ st # <<>> /\ ~Elm.started /\ FirstIx(Elm.at, LAMBDA x : x.n = n) = 0
  /\ els' = [els EXCEPT ![Top.el].at = Append(@, [n |-> n, v |-> v])] /\ UNCHANGED st
  /\ Log(Call("attr", n, v))
\* xml-rs leaves a declaration out if any enclosing element makes it, even if a nearer one has given
\* the prefix another meaning (finding F12): such declarations are not made
RECURSIVE Above(_, _, _, _)
Above(es, i, p, u) == i # 0 /\ ((\E x \in Range(es[i].ns) : x.p = p /\ x.u = u) \/ Above(es, es[i].up, p, u))
Hidden(p, u) == Bound(els, Elm.up, p) # u /\ Above(els, Elm.up, p, u)
\* the same declaration may be made several times
Ns(p, u) ==
  /\ st # <<>> /\ ~Elm.started /\ ~Hidden(p, u)
  /\ LET i == FirstIx(Elm.ns, LAMBDA x : x.p = p) IN
     IF i # 0 THEN Elm.ns[i].u = u /\ els' = els
     ELSE els' = [els EXCEPT ![Top.el].ns = Append(@, [p |-> p, u |-> u])]
  /\ UNCHANGED st
  /\ Log(IF p = "" THEN Call("dns", u, "") ELSE Call("ns", p, u))
Start ==
  /\ st # <<>> /\ ~Elm.ended /\ Bound(els, Top.el, Elm.p) # "-"
  /\ els' = [els EXCEPT ![Top.el].started = TRUE] /\ UNCHANGED st
  /\ Log(Call("start", "", ""))
End ==
  /\ st # <<>> /\ Elm.started /\ ~Elm.ended
  /\ els' = [els EXCEPT ![Top.el].ended = Top.real] /\ UNCHANGED st
  /\ Log(Call("end", "", ""))
Text(s) ==
  /\ st # <<>> /\ Elm.started /\ ~Elm.ended
  /\ els' = [els EXCEPT ![Top.el].kids = Append(@, [el |-> 0, s |-> s])] /\ UNCHANGED st
  /\ Log(Call("text", s, ""))

Done == st = <<>> /\ els # <<>>
AnyCall ==
  \/ \E n \in Range(Locals), p \in Range(Pfxs) : New(n, p)
  \/ Wrap \/ Pop \/ Start \/ End
  \/ \E n \in Range(AttrNames), v \in Range(AttrVals) : Attr(n, v)
  \/ \E p \in Range(Pfxs), u \in Range(Uris) : Ns(p, u)
  \/ \E s \in Range(Texts) : Text(s)
\* with less to choose from: the choice of names matters less than the order of calls
Few ==
  \/ New(Locals[1], "") \/ (els # <<>> /\ New(Locals[2], "p"))
  \/ Wrap \/ Pop \/ Start \/ End
  \/ Attr(AttrNames[1], AttrVals[2])
  \/ Ns("p", Uris[1]) \/ Ns("", Uris[2])

Init == els = <<>> /\ st = <<>> /\ hist = <<>>
        /\ IF Mode # "all" THEN \E i \in 1..Walks : key = Key(Seed, i) /\ who = i ELSE key = <<0, 0>> /\ who = 0
\* calls it takes at least to complete the document
Left(e, s) == FoldLeft(LAMBDA a, f : a + (IF ~f.real THEN 1
                                         ELSE 1 + (IF e[f.el].ended THEN 0 ELSE 1) + (IF e[f.el].started THEN 0 ELSE 1)), 0, s)
All == /\ Mode = "all" /\ ~Done /\ Few /\ key' = key
       /\ Len(hist') + Left(els', st') <= MaxLen
\* a random walk: one of the enabled calls, now and then with a preference for closing
Tries == 12
Enabled(c) ==
  CASE c = 1 -> NewOk
    [] c = 2 -> st # <<>> /\ Len(st) < DepthMax /\ ~Elm.ended
    [] c = 3 -> st # <<>> /\ (Top.real => Elm.ended)
    [] c = 4 -> st # <<>> /\ ~Elm.started /\ Len(Elm.at) < Len(AttrNames)
    [] c = 5 -> st # <<>> /\ ~Elm.started
    [] c = 6 -> st # <<>> /\ ~Elm.ended /\ Bound(els, Top.el, Elm.p) # "-"
    [] c = 7 -> st # <<>> /\ Elm.started /\ ~Elm.ended
    [] c = 8 -> st # <<>> /\ Elm.started /\ ~Elm.ended
    [] OTHER -> FALSE
Walk ==
  /\ Mode # "all" /\ ~Done
  /\ LET k == key
         late == Len(hist) > MaxLen
         \* what a wide walk goes on with: nesting, siblings, wrapping, attributes, namespaces, text
         fond == IF ~Wide THEN <<>>
                 ELSE LET c0 == <<1, 13, 2, 4, 5, 8>>[1 + (who % 6)] IN
                      IF c0 = 1 THEN << 1, 1, 1, 1, 1, 1, 1, 1, 6, 6, 6, 6 >> ELSE IF c0 = 13 THEN <<1, 1, 1, 1, 6, 6, 6, 6, 7, 7, 7, 7, 3, 3, 3, 3>>
                      ELSE [j \in 1..25 |-> c0]
         cand == Filter(IF late THEN <<3, 6, 7, 5>> ELSE <<1, 1, 2, 3, 3, 4, 5, 6, 7, 8>> \o fond, Enabled)
         c == IF cand = <<>> THEN 0 ELSE IF late /\ Enabled(3) THEN 3 ELSE IF late /\ Enabled(7) THEN 7 ELSE PickOf(Sub(k, 1), cand)
         un == Filter(AttrNames, LAMBDA n : FirstIx(Elm.at, LAMBDA x : x.n = n) = 0)
         \* an undeclared prefix is declared first of all
         needs == Bound(els, Top.el, Elm.p) = "-"
         pp == IF needs THEN Elm.p ELSE PickOf(Sub(k, 2), Pfxs)
         i == FirstIx(Elm.ns, LAMBDA x : x.p = pp)
         free == Filter(Uris, LAMBDA x : ~Hidden(pp, x))
         uu == IF i # 0 THEN Elm.ns[i].u ELSE PickOf(Sub(k, 3), free)
     IN  /\ key' = Sub(k, 9)
         /\ CASE c = 1 -> New(PickOf(Sub(k, 2), Locals), PickOf(Sub(k, 3), Pfxs))
              [] c = 2 -> Wrap
              [] c = 3 -> Pop
              [] c = 4 -> Attr(PickOf(Sub(k, 2), un), PickOf(Sub(k, 3), AttrVals))
              [] c = 5 -> Ns(pp, uu)
              [] c = 6 -> Start
              [] c = 7 -> End
              [] c = 8 -> Text(PickOf(Sub(k, 2), Texts))
Next == (All \/ Walk) /\ who' = who
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the document that has been written *)
RECURSIVE DocOf(_)
DocOf(i) == [n |-> els[i].n, u |-> Bound(els, i, els[i].p), a |-> els[i].at,
             k |-> MapS(els[i].kids, LAMBDA x : IF x.el = 0 THEN [t |-> x.s] ELSE [e |-> DocOf(x.el)])]
\* open elements are those with contexts; everything below an ended element is ended
Balanced == /\ \A i \in 1..Len(els) : els[i].ended => els[i].started
            /\ \A i \in 1..Len(els) : els[i].up # 0 => els[els[i].up].started
            /\ \A i \in 1..Len(els) : (els[i].up # 0 /\ els[els[i].up].ended) => els[i].ended
            /\ Done => \A i \in 1..Len(els) : els[i].ended
OneStart == \A i \in 1..Len(els) : els[i].started => Bound(els, i, els[i].p) # "-"
Owned == \A i \in 1..Len(st) : ~st[i].real => i > 1 /\ st[i - 1].el = st[i].el
Emit == Done => PrintT("W " \o ToJson([h |-> hist, d |-> DocOf(1)]))
\* set per run
ModeIn == IOEnv.V_MODE
NumIn(s) == CHOOSE n \in 0..9999 : ToString(n) = s
WalksIn == NumIn(IOEnv.V_WALKS)
SeedIn == NumIn(IOEnv.V_SEED)
LenIn == NumIn(IOEnv.V_LEN)
=============================================================================
