------------------------------- MODULE Cursor --------------------------------
(* What a reader may do with a decoded document, and what it sees: a node's   *)
(* children are a list from which elements are taken.                         *)
EXTENDS Integers, Sequences

VARIABLES
  doc,  \* the elements: <<[n, u, k, a, s, r]>>: name, namespace, numbers of the children, attributes,
        \* text (<<>>: there is none because there are child elements instead), place in the text (first byte, byte behind);
        \* element 1 is the root
  hs,   \* the nodes handed out: <<[id, rem]>>, rem = the children not taken yet
  ev    \* the last call and what it returned
vars == <<doc, hs, ev>>

Named(id, n, u) == doc[id].n = n /\ doc[id].u = u
Start == hs = <<>> /\ ev = [op |-> "init"]
Ev(op, h, n, u, out) == [op |-> op, h |-> h, n |-> n, u |-> u, out |-> out]
Open(id) == [id |-> id, rem |-> doc[id].k]
First(rem, n, u) == \* position of the first child of that name, 0: there is none
  LET hits == {i \in 1..Len(rem) : Named(rem[i], n, u)} IN
  IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
Without(rem, i) == SubSeq(rem, 1, i - 1) \o SubSeq(rem, i + 1, Len(rem))

\* the document's root element, by name
Root(n, u) ==
  /\ IF Named(1, n, u)
     THEN hs' = Append(hs, Open(1)) /\ ev' = Ev("root", 0, n, u, 1)
     ELSE hs' = hs /\ ev' = Ev("root", 0, n, u, 0)
  /\ UNCHANGED doc
\* is the next child one of that name?
Peek(h, n, u) ==
  /\ hs' = hs
  /\ ev' = Ev("peek", h, n, u, IF hs[h].rem # <<>> /\ Named(hs[h].rem[1], n, u) THEN 1 ELSE 0)
  /\ UNCHANGED doc
Take(op, h, n, u, i) ==
  IF i = 0
  THEN hs' = hs /\ ev' = Ev(op, h, n, u, 0)
  ELSE /\ hs' = Append([hs EXCEPT ![h].rem = Without(@, i)], Open(hs[h].rem[i]))
       /\ ev' = Ev(op, h, n, u, hs[h].rem[i])
\* take the next child if it is one of that name
NextKid(h, n, u) ==
  /\ Take("next", h, n, u, IF hs[h].rem # <<>> /\ Named(hs[h].rem[1], n, u) THEN 1 ELSE 0)
  /\ UNCHANGED doc
\* take the first child of that name
Child(h, n, u) == Take("child", h, n, u, First(hs[h].rem, n, u)) /\ UNCHANGED doc
\* attributes, text and place do not depend on what has been taken
AttrOf(id, n) ==
  LET hits == {i \in 1..Len(doc[id].a) : doc[id].a[i].n = n} IN
  IF hits = {} THEN <<>> ELSE << doc[id].a[CHOOSE i \in hits : TRUE].v >>
Attr(h, n) == hs' = hs /\ ev' = Ev("attr", h, n, "", AttrOf(hs[h].id, n)) /\ UNCHANGED doc
Text(h) == hs' = hs /\ ev' = Ev("text", h, "", "", doc[hs[h].id].s) /\ UNCHANGED doc
Place(h) == hs' = hs /\ ev' = Ev("range", h, "", "", doc[hs[h].id].r) /\ UNCHANGED doc

\* nothing is handed out twice, and every child of a node is either still there or was handed out
NoTwice == \A i, j \in 1..Len(hs) : hs[i].id = hs[j].id => (i = j \/ hs[i].id = 1)
InOrder == \A h \in 1..Len(hs) : \A i, j \in 1..Len(hs[h].rem) : i < j => hs[h].rem[i] < hs[h].rem[j]
Conserved ==
  \A h \in 1..Len(hs) :
    {doc[hs[h].id].k[i] : i \in 1..Len(doc[hs[h].id].k)}
      = {hs[h].rem[i] : i \in 1..Len(hs[h].rem)}
        \cup ({hs[g].id : g \in 1..Len(hs)} \cap {doc[hs[h].id].k[i] : i \in 1..Len(doc[hs[h].id].k)})
=============================================================================
