-------------------------------- MODULE Util --------------------------------
(* Strings as sequences of one-character strings, small sequence helpers, and *)
(* the key-based pseudo random choices the generators use.  TLC provides Len, *)
(* SubSeq and \o on strings; everything else is built from those.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Idx(n)   == [i \in 1..n |-> i]
Cat(ss)  == FoldLeft(LAMBDA a, b : a \o b, "", ss)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
RemoveAtIx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAtIx(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
FirstIx(s, P(_)) == \* 0 when there is none
  LET hits == {i \in 1..Len(s) : P(s[i])} IN
  IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
Filter(s, P(_)) == SelectSeq(s, P)
MapS(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
Distinct(s) == Cardinality(Range(s)) = Len(s)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
IndexOfCh(s, c) == FirstIx(Chars(s), LAMBDA x : x = c)

LowerS == "abcdefghijklmnopqrstuvwxyz"
UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DigitS == "0123456789"
LowerSet == {Ch(LowerS, i) : i \in 1..26}
UpperSet == {Ch(UpperS, i) : i \in 1..26}
DigitSet == {Ch(DigitS, i) : i \in 1..10}
LowerOf == [c \in UpperSet |-> Ch(LowerS, CHOOSE i \in 1..26 : Ch(UpperS, i) = c)]
UpperOf == [c \in LowerSet |-> Ch(UpperS, CHOOSE i \in 1..26 : Ch(LowerS, i) = c)]
\* "~" stands for a lower case letter outside of ASCII (the renderer substitutes one): it is
\* alphanumeric, but none of the ASCII-only case conversions touch it
\* "@" stands for a digit outside of ASCII
Alnum == LowerSet \cup UpperSet \cup DigitSet \cup {"~", "@"}
ToUp(c) == IF c \in LowerSet THEN UpperOf[c] ELSE c
ToLo(c) == IF c \in UpperSet THEN LowerOf[c] ELSE c
DigitVal == [c \in DigitSet |-> (CHOOSE i \in 1..10 : Ch(DigitS, i) = c) - 1]

-----------------------------------------------------------------------------
(* pseudo random choices: a key is a pair of residues, Sub(k, n) derives the  *)
(* n-th key below k, the pickers map a key to a choice                        *)
Sub(k, n) ==
  LET a == k[1]  b == k[2]
      x == (((a * a) % 46337) + b * 31 + n * 101 + 7) % 46337
      y == (b * 7919 + a * 17 + n * 1301 + 11) % 46327
  IN  << (x * 13 + ((y * y) % 46327)) % 46337, (y * 5 + x * 3 + 1) % 46327 >>
Key(seed, i) == Sub(Sub(<< (seed * 37 + 5) % 46337, (i * 3 + 1) % 46327 >>, i % 1000), seed % 1000)
Below(k, n) == ((k[1] \div 3) + (k[2] \div 5) * 7) % n
Chance(k, pct) == Below(k, 100) < pct
PickOf(k, s) == s[1 + Below(k, Len(s))]
\* the sequence s in an order that depends on k
RECURSIVE Shuffle(_, _)
Shuffle(k, s) ==
  IF Len(s) <= 1 THEN s
  ELSE LET i == 1 + Below(k, Len(s))
       IN  <<s[i]>> \o Shuffle(Sub(k, 1), RemoveAtIx(s, i))
NumStr(n) == ToString(n)
=============================================================================
