-------------------------------- MODULE Macro --------------------------------
(* The attribute macro: from an annotated item to items or to a compile error. *)
(* An invocation is what a user writes: the arguments, the schema file they    *)
(* lead to, and the item with its visibility, attributes and content.  The     *)
(* steps are those of the compiler and of the macro, in the order in which     *)
(* they can be told apart.                                                     *)
EXTENDS Util, Json

GoodArgs == {"plain", "comma", "raw"}
BadArgs == {"none", "empty", "literal", "noval", "number", "list", "unknown", "extra", "before", "flag", "case"}
GoodFiles == {"one", "many", "nothing", "abs"}
BadFiles == {"missing", "dir", "garbled", "unsupported", "noinclude", "badinclude"}
Vis == <<"", "pub(super)", "pub(crate)", "pub">>     \* each seen from one place more than the one before
Places == <<"inner", "mid", "crate", "extern">>
Attrs == {"none", "deprecated", "off", "deny", "denyin"}
Bodies == {"empty", "data", "code", "uses"}
Shapes == {"mod", "struct"}

VARIABLES inv, ph, why, res
vars == <<inv, ph, why, res>>

Inv == [args : GoodArgs \union BadArgs, file : GoodFiles \union BadFiles, vis : 1..Len(Vis), attr : Attrs,
        first : BOOLEAN, body : Bodies, shape : Shapes]
\* an inner attribute has no place before or after; a struct has no content of its own
Sensible(i) == /\ (i.attr \in {"none", "denyin"} => i.first)
               /\ (i.shape = "struct" => i.body = "empty" /\ i.attr = "none")
Init == /\ inv \in {i \in Inv : Sensible(i)}
        /\ ph = "source" /\ why = {} /\ res = "?"

\* the compiler configures items away before any macro sees them, wherever the attribute stands
Source ==
  /\ ph = "source"
  /\ IF inv.attr = "off" THEN ph' = "done" /\ res' = "absent" ELSE ph' = "args" /\ res' = res
  /\ UNCHANGED <<inv, why>>
\* everything that is wrong is a reason; which one is told first is left open
Args ==
  /\ ph = "args"
  /\ why' = (IF inv.args \in BadArgs THEN {"args"} ELSE {}) \union (IF inv.shape # "mod" THEN {"shape"} ELSE {})
  /\ ph' = "load" /\ UNCHANGED <<inv, res>>
\* no schema is looked for without a path
HasPath(a) == a \in GoodArgs \union {"extra", "before", "flag"}
Load ==
  /\ ph = "load"
  /\ LET w == why \union (IF HasPath(inv.args) /\ inv.file \in BadFiles THEN {inv.file} ELSE {}) IN
     /\ why' = w
     /\ IF w # {} THEN ph' = "done" /\ res' = "error" ELSE ph' = "expand" /\ res' = res
  /\ UNCHANGED inv
\* the compiler goes on with what the macro has given back: the module with all its attributes
Expand ==
  /\ ph = "expand"
  /\ ph' = "done"
  /\ res' = IF inv.attr \in {"deny", "denyin"} /\ inv.body # "empty" THEN "lint" ELSE "items"
  /\ UNCHANGED <<inv, why>>
Next == Source \/ Args \/ Load \/ Expand
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Types == [one |-> <<"Name">>, abs |-> <<"Name">>, nothing |-> <<>>, many |-> <<"Thing", "Kind", "ThingPartData", "Extra">>]
Sees(i, p) == p <= i.vis
\* what the guarantee says
Outcome == ph = "done" =>
  /\ res \in {"items", "absent", "lint", "error"}
  /\ (res = "items" => inv.args \in GoodArgs /\ inv.file \in GoodFiles /\ inv.shape = "mod")
  /\ (res = "error" <=> why # {})
  /\ (res = "absent" => inv.attr = "off")
Ends == <>(ph = "done")
Emit == ph = "done" =>
  PrintT("M " \o ToJson([inv EXCEPT !.vis = Vis[inv.vis]] @@
    [res |-> res, why |-> SetToSeq(why), deprecated |-> inv.attr = "deprecated",
     types |-> IF inv.file \in GoodFiles THEN Types[inv.file] ELSE <<>>,
     sees |-> [p \in 1..Len(Places) |-> Sees(inv, p)]]))
=============================================================================
