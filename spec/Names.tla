-------------------------------- MODULE Names --------------------------------
(* How XML names become Rust identifiers: the case conversions, keyword       *)
(* escaping, the derived names of anonymous types and groups, and the variant *)
(* names of enumerations.                                                     *)
EXTENDS Util

Up(c) == c \notin LowerSet      \* digits and separators count as upper case here

TrimLen(s) == \* length without trailing separators
  LET ks == {i \in 1..Len(s) : Ch(s, i) \in Alnum} IN
  IF ks = {} THEN 0 ELSE CHOOSE i \in ks : \A j \in ks : j <= i

Snake(s) ==
  LET step(st, i) ==
        LET c == Ch(s, i)
            \* neighbours are looked up by byte offset, which is further to the right behind
            \* letters outside of ASCII
            o == i + Cardinality({m \in 1..(i - 1) : Ch(s, m) = "~"})
            nextLow == o < Len(s) /\ Ch(s, o + 1) \in LowerSet \cup {"~"}
            prevLow == o > 1 /\ o - 1 <= Len(s) /\ Ch(s, o - 1) \in LowerSet \cup {"~"}
        IN  IF c \notin Alnum
            THEN IF st.first THEN st ELSE [first |-> TRUE, out |-> st.out \o "_"]
            ELSE IF ~st.first /\ Up(c) /\ (nextLow \/ prevLow)
            THEN [first |-> FALSE, out |-> st.out \o "_" \o ToLo(c)]
            ELSE [first |-> FALSE, out |-> st.out \o ToLo(c)]
  IN  FoldLeft(step, [first |-> TRUE, out |-> ""], Idx(TrimLen(s))).out

Pascal(s) ==
  LET step(st, i) ==
        LET c == Ch(s, i) IN
        IF c \notin Alnum
        THEN IF st.found THEN [st EXCEPT !.new = TRUE] ELSE st
        ELSE IF c \in DigitSet \cup {"@"}
        THEN [st EXCEPT !.found = TRUE, !.new = TRUE, !.out = @ \o c]
        ELSE IF st.new \/ (st.last \in LowerSet \cup {"~"} /\ c \in UpperSet)
        THEN [st EXCEPT !.found = TRUE, !.new = FALSE, !.out = @ \o ToUp(c)]
        ELSE [st EXCEPT !.found = TRUE, !.last = c, !.out = @ \o ToLo(c)]
  IN  FoldLeft(step, [new |-> TRUE, last |-> " ", found |-> FALSE, out |-> ""],
               Idx(TrimLen(s))).out

RawKeywords == {"as", "break", "const", "continue", "else", "enum", "extern", "false", "fn",
  "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref",
  "return", "static", "struct", "trait", "true", "type", "unsafe", "use", "where", "while",
  "async", "await", "dyn", "abstract", "become", "box", "do", "final", "gen", "macro",
  "override", "priv", "try", "typeof", "unsized", "virtual", "yield"}
PathKeywords == {"crate", "self", "Self", "super"}
Keywords == RawKeywords \cup PathKeywords
\* identifiers without the r# of raw identifiers (which is part of the syntax, not of the name)
Ident(s) == IF s \in PathKeywords THEN s \o "_" ELSE s
FieldIdent(n) == Ident(Snake(n))
TypeIdent(n)  == Ident(Pascal(n))
\* an identifier as it is spelled in Rust source
Spell(i) == IF i \in RawKeywords THEN "r#" \o i ELSE i
ValidIdent(s) == s # "" /\ Ch(s, 1) \notin DigitSet
\* names generated code refers to unqualified
Prelude == {"String", "Option", "Some", "None", "Vec", "Result", "Ok", "Err", "Box", "Self_",
            "Into", "From", "Default", "Clone", "Debug", "PartialEq", "ToString", "AsRef",
            "Iterator", "Drop", "Fn", "Send", "Sync", "Copy", "Sized", "Eq", "Ord"}

-----------------------------------------------------------------------------
(* derived names *)
Cap(s) == IF s = "" THEN s ELSE ToUp(Ch(s, 1)) \o SubSeq(s, 2, Len(s))
Joined(names) == Cat(MapS(names, Cap))

MutualPrefix(a, b) ==
  LET x == Snake(a)  y == Snake(b)
      n == Min2(Len(x), Len(y))
      bad == {i \in 1..n : Ch(x, i) # Ch(y, i) \/ Ch(x, i) = "_"}
      m == IF bad = {} THEN n ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
  IN  SubSeq(x, 1, m)
MutualSuffix(a, b) ==
  LET x == Snake(a)  y == Snake(b)
      n == Min2(Len(x), Len(y))
      bad == {i \in 1..n : \/ Ch(x, Len(x) + 1 - i) # Ch(y, Len(y) + 1 - i)
                           \/ Ch(x, Len(x) + 1 - i) = "_"}
      m == IF bad = {} THEN n ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
  IN  SubSeq(x, Len(x) + 1 - m, Len(x))

\* the name of a group, from the names of its members
GroupName(names) ==
  IF names = <<>> THEN ""
  ELSE LET pre == FoldLeft(MutualPrefix, names[1], Tail(names))
           suf == FoldLeft(MutualSuffix, names[1], Tail(names))
       IN  IF pre = "" /\ suf = "" THEN Joined(names)
           ELSE IF Len(pre) > Len(suf) THEN pre ELSE suf

-----------------------------------------------------------------------------
(* enumerations: values in declaration order to variant names *)
VariantBase(v) ==
  LET keep == Filter(Chars(v), LAMBDA c : c \in Alnum \/ c \in {"_", "-"})
      p == Pascal(Cat(MapS(keep, LAMBDA c : IF c = "-" THEN "_" ELSE c)))
  IN  IF p # "" /\ Ch(p, 1) \in DigitSet \cup {"@"} THEN "V" \o p ELSE p

RECURSIVE FreeVariant(_, _)
FreeVariant(taken, n) ==
  IF ("Variant" \o NumStr(n)) \in taken THEN FreeVariant(taken, n + 1) ELSE n

\* sequence of [val, var] (var = the variant's identifier)
EnumVariants(vals) ==
  LET step(st, v) ==
        LET b == VariantBase(v) IN
        IF b # "" /\ b \notin st.taken
        THEN [st EXCEPT !.taken = @ \cup {b}, !.out = Append(@, [val |-> v, var |-> Ident(b)])]
        ELSE LET n == FreeVariant(st.taken, st.n + 1)
                 x == "Variant" \o NumStr(n)
             IN  [n |-> n, taken |-> st.taken \cup {x},
                  out |-> Append(st.out, [val |-> v, var |-> x])]
  IN  FoldLeft(step, [n |-> 0, taken |-> {}, out |-> <<>>], vals).out
=============================================================================
