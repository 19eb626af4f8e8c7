----------------------------- MODULE CursorImpl ------------------------------
(* How the cursor is built: an iterator over the children (it), a queue of    *)
(* those a search went past (pk), and the one that was looked at (nx).  It is *)
(* a refinement of Cursor; the transitions TLC finds are the calls that the   *)
(* conformance harness strings together to histories.                         *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxLen, Names  \* documents: a root with up to MaxLen children with names of Names

VARIABLES doc, is, ev
vars == <<doc, is, ev>>

RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE LET w == Words(n - 1) IN
            w \cup {Append(x, c) : x \in {y \in w : Len(y) = n - 1}, c \in 1..Len(Names)}
DocOf(w) ==
  << [n |-> "r", u |-> "", k |-> [i \in 1..Len(w) |-> i + 1], a |-> <<>>, s |-> <<>>] >>
  \o [i \in 1..Len(w) |-> [n |-> Names[w[i]].n, u |-> Names[w[i]].u, k |-> <<>>, a |-> <<>>, s |-> <<"">>]]

Named(id, q) == doc[id].n = q.n /\ doc[id].u = q.u
E(op, q, out) == [op |-> op, h |-> 1, n |-> q.n, u |-> q.u, out |-> out]
Opened(id) == [id |-> id, nx |-> <<>>, pk |-> <<>>, it |-> doc[id].k]
Init == /\ \E w \in Words(MaxLen) : doc = DocOf(w)
        /\ is = << [id |-> 1, nx |-> <<>>, pk |-> <<>>, it |-> doc[1].k] >>
        /\ ev = [op |-> "init"]

C == is[1]
\* what the look at the next child leaves behind
Filled == IF C.nx # <<>> THEN C
          ELSE IF C.pk # <<>> THEN [C EXCEPT !.nx = <<C.pk[1]>>, !.pk = Tail(@)]
          ELSE IF C.it # <<>> THEN [C EXCEPT !.nx = <<C.it[1]>>, !.it = Tail(@)]
          ELSE C
Peek(q) ==
  /\ is' = [is EXCEPT ![1] = Filled]
  /\ ev' = E("peek", q, IF Filled.nx # <<>> /\ Named(Filled.nx[1], q) THEN 1 ELSE 0)
  /\ UNCHANGED doc
NextKid(q) ==
  /\ IF Filled.nx # <<>> /\ Named(Filled.nx[1], q)
     THEN /\ is' = Append([is EXCEPT ![1] = [Filled EXCEPT !.nx = <<>>]], Opened(Filled.nx[1]))
          /\ ev' = E("next", q, Filled.nx[1])
     ELSE is' = [is EXCEPT ![1] = Filled] /\ ev' = E("next", q, 0)
  /\ UNCHANGED doc
Child(q) ==
  LET inPk == {i \in 1..Len(C.pk) : Named(C.pk[i], q)}
      inIt == {i \in 1..Len(C.it) : Named(C.it[i], q)}
      least(s) == CHOOSE i \in s : \A j \in s : i <= j
      drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
  IN  /\ CASE C.nx # <<>> /\ Named(C.nx[1], q) ->
                /\ is' = Append([is EXCEPT ![1].nx = <<>>], Opened(C.nx[1]))
                /\ ev' = E("child", q, C.nx[1])
           [] ~(C.nx # <<>> /\ Named(C.nx[1], q)) /\ inPk # {} ->
                /\ is' = Append([is EXCEPT ![1].pk = drop(@, least(inPk))], Opened(C.pk[least(inPk)]))
                /\ ev' = E("child", q, C.pk[least(inPk)])
           [] ~(C.nx # <<>> /\ Named(C.nx[1], q)) /\ inPk = {} /\ inIt # {} ->
                /\ is' = Append([is EXCEPT ![1].pk = @ \o SubSeq(C.it, 1, least(inIt) - 1),
                                           ![1].it = SubSeq(@, least(inIt) + 1, Len(@))],
                                Opened(C.it[least(inIt)]))
                /\ ev' = E("child", q, C.it[least(inIt)])
           [] OTHER ->
                /\ is' = [is EXCEPT ![1].pk = @ \o C.it, ![1].it = <<>>]
                /\ ev' = E("child", q, 0)
      /\ UNCHANGED doc
Next == \E i \in 1..Len(Names) : Peek(Names[i]) \/ NextKid(Names[i]) \/ Child(Names[i])
Spec == Init /\ [][Next]_vars

\* the refinement
Remaining(c) == c.nx \o c.pk \o c.it
A == INSTANCE Cursor WITH hs <- [i \in 1..Len(is) |-> [id |-> is[i].id, rem |-> Remaining(is[i])]]
AbsNext == \E i \in 1..Len(Names) :
             A!Peek(1, Names[i].n, Names[i].u) \/ A!NextKid(1, Names[i].n, Names[i].u) \/ A!Child(1, Names[i].n, Names[i].u)
Refines == [][AbsNext]_<<doc, is, ev>>
NoTwice == A!NoTwice
InOrder == A!InOrder
Conserved == A!Conserved
\* every transition of the abstract cursor is written out, numbered by names
Emit == PrintT("T " \o ToJson([w |-> [i \in 1..(Len(doc) - 1) |-> CHOOSE j \in 1..Len(Names) : Named(i + 1, Names[j])],
                               rem |-> Remaining(is[1]), op |-> ev'.op,
                               q |-> CHOOSE j \in 1..Len(Names) : Names[j].n = ev'.n /\ Names[j].u = ev'.u,
                               out |-> ev'.out, to |-> Remaining(is'[1])]))
View == <<doc, is>>
QuickNames == << [n |-> "a", u |-> ""], [n |-> "b", u |-> ""], [n |-> "a", u |-> "urn:x"] >>
=============================================================================
