---------------------------- MODULE TraceCursor ------------------------------
(* Histories recorded from the real cursor: each has to be one of Cursor's.   *)
(* A history that is not ends in a deadlock of this specification.            *)
EXTENDS Cursor, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.V_TRACE)  \* <<[doc, ev]>>
VARIABLES t, l
tvars == <<vars, t, l>>

TInit == /\ t \in 1..Len(Traces)
         /\ l = 1
         /\ doc = Traces[t].doc
         /\ Start
\* each call once; a node can be asked for the root again
Line == Traces[t].ev[l]
TNext ==
  \/ /\ l <= Len(Traces[t].ev)
     /\ l' = l + 1 /\ t' = t
     /\ CASE Line.op = "root" -> Root(Line.n, Line.u)
          [] Line.op = "peek" -> Peek(Line.h, Line.n, Line.u)
          [] Line.op = "next" -> NextKid(Line.h, Line.n, Line.u)
          [] Line.op = "child" -> Child(Line.h, Line.n, Line.u)
          [] Line.op = "attr" -> Attr(Line.h, Line.n)
          [] Line.op = "text" -> Text(Line.h)
          [] Line.op = "range" -> Place(Line.h)
     /\ ev' = [op |-> Line.op, h |-> Line.h, n |-> Line.n, u |-> Line.u, out |-> Line.out]
  \/ l > Len(Traces[t].ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l>>
=============================================================================
