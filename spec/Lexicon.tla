------------------------------- MODULE Lexicon -------------------------------
(* The built-in simple types: which strings denote a value, which value, and  *)
(* how a value is written.  A value is represented by its canonical string.   *)
EXTENDS Util

LitOf == [string |-> "string", boolean |-> "boolean", integer |-> "long", long |-> "long",
  nonNegativeInteger |-> "nonNegativeInteger", positiveInteger |-> "nonNegativeInteger",
  int |-> "int", decimal |-> "decimal", float |-> "float", time |-> "time", date |-> "date",
  dateTime |-> "dateTime", duration |-> "duration", base64Binary |-> "base64Binary",
  hexBinary |-> "hexBinary", any |-> "any", anyType |-> "any"]
LitNames == DOMAIN LitOf
RustOf == [string |-> "String", boolean |-> "bool", long |-> "i64",
  nonNegativeInteger |-> "u64", int |-> "i32", decimal |-> "Decimal", float |-> "f32",
  time |-> "String", date |-> "String", dateTime |-> "String", duration |-> "String",
  base64Binary |-> "String", hexBinary |-> "String", any |-> "String"]
Textual == {"string", "time", "date", "dateTime", "duration", "base64Binary", "hexBinary", "any"}

Blank == {" ", "\t", "\n", "\r"}
Trim(s) ==
  LET ks == {i \in 1..Len(s) : Ch(s, i) \notin Blank} IN
  IF ks = {} THEN ""
  ELSE SubSeq(s, CHOOSE i \in ks : \A j \in ks : i <= j, CHOOSE i \in ks : \A j \in ks : j <= i)

Bad == [ok |-> FALSE, v |-> ""]
Good(v) == [ok |-> TRUE, v |-> v]

AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in DigitSet
StripZeros(s) == \* keeps at least one digit
  LET ks == {i \in 1..Len(s) : Ch(s, i) # "0"} IN
  IF ks = {} THEN "0" ELSE SubSeq(s, CHOOSE i \in ks : \A j \in ks : i <= j, Len(s))
\* magnitude comparison of digit strings without leading zeros
LeqDigits(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE LET diff == {i \in 1..Len(a) : Ch(a, i) # Ch(b, i)} IN
       diff = {} \/ LET i == CHOOSE i \in diff : \A j \in diff : i <= j
                    IN  DigitVal[Ch(a, i)] < DigitVal[Ch(b, i)]
ParseInt(s, maxPos, maxNeg, signed) ==
  LET t == Trim(s)
      neg == t # "" /\ Ch(t, 1) = "-"
      body == IF t # "" /\ Ch(t, 1) \in {"+", "-"} THEN SubSeq(t, 2, Len(t)) ELSE t
      d == StripZeros(body)
  IN  IF (neg /\ ~signed) \/ ~AllDigits(body) THEN Bad
      ELSE IF ~LeqDigits(d, IF neg THEN maxNeg ELSE maxPos) THEN Bad
      ELSE Good(IF neg /\ d # "0" THEN "-" \o d ELSE d)

\* decimals of moderate length: the written scale is kept, a missing integral part is 0
ParseDecimal(s) ==
  LET t == Trim(s)
      neg == t # "" /\ Ch(t, 1) = "-"
      body == IF t # "" /\ Ch(t, 1) \in {"+", "-"} THEN SubSeq(t, 2, Len(t)) ELSE t
      dot == IndexOfCh(body, ".")
      ip == IF dot = 0 THEN body ELSE SubSeq(body, 1, dot - 1)
      fp == IF dot = 0 THEN "" ELSE SubSeq(body, dot + 1, Len(body))
      zero == StripZeros("0" \o ip \o fp) = "0"
  IN  IF ip \o fp = "" \/ ~AllDigits(ip \o fp) THEN Bad
      ELSE Good((IF neg /\ ~zero THEN "-" ELSE "") \o StripZeros("0" \o ip)
                 \o (IF fp = "" THEN "" ELSE "." \o fp))

ParseBool(s) ==
  LET t == Trim(s) IN
  IF t \in {"true", "1"} THEN Good("true")
  ELSE IF t \in {"false", "0"} THEN Good("false") ELSE Bad

\* floats: a table of lexical representations and the value as it is written
FloatTab == <<
  <<"0", "0">>, <<"1", "1">>, <<"-1", "-1">>, <<"+2.5", "2.5">>, <<"1.5", "1.5">>,
  <<"0.1", "0.1">>, <<"-0.25", "-0.25">>, <<"1e3", "1000">>, <<"1E3", "1000">>,
  <<"2.5E-1", "0.25">>, <<"INF", "INF">>, <<"-INF", "-INF">>, <<"16777216", "16777216">>,
  <<"3.4028235E38", "340282350000000000000000000000000000000">>, <<"007.50", "7.5">>,
  <<".5", "0.5">>, <<"5.", "5">>, <<"-0", "-0">>, <<"1.17549435E-38",
  "0.000000000000000000000000000000000000011754944">>, <<"1000", "1000">>,
  <<"2.5", "2.5">>, <<"2", "2">>, <<"42", "42">>, <<"12", "12">>, <<"-3", "-3">>, <<"1.25", "1.25">>,
  <<"2147483648", "2147483600">>, <<"2147483600", "2147483600">>,
  <<"18446744073709551616", "18446744000000000000">>, <<"18446744000000000000", "18446744000000000000">>,
  <<"0.25", "0.25">>, <<"7.5", "7.5">>, <<"0.5", "0.5">>, <<"5", "5">>,
  <<"340282350000000000000000000000000000000", "340282350000000000000000000000000000000">>,
  <<"0.000000000000000000000000000000000000011754944",
    "0.000000000000000000000000000000000000011754944">>,
  <<"3.14159274", "3.1415927">>, <<"-2.71828", "-2.71828">>, <<"123456.789", "123456.79">>,
  <<"1e10", "10000000000">>, <<"1E-5", "0.00001">>, <<"6.02214076e23", "602214060000000000000000">>,
  <<"-1.5e-10", "-0.00000000015">>, <<"9.999999e9", "9999999000">>, <<"0.3", "0.3">>,
  <<"100", "100">>, <<"1e-45", "0.000000000000000000000000000000000000000000001">>, <<"-3.4028235E38", "-340282350000000000000000000000000000000">>,
  <<"33554433", "33554432">>, <<"8388607.5", "8388607.5">>, <<"0.000001", "0.000001">>,
  <<"1E+2", "100">>, <<"-12.75", "-12.75">>, <<"99.99", "99.99">>,
  <<"1e38", "100000000000000000000000000000000000000">>, <<"65504", "65504">>, <<"3.1415927", "3.1415927">>,
  <<"123456.79", "123456.79">>, <<"10000000000", "10000000000">>, <<"0.00001", "0.00001">>,
  <<"602214060000000000000000", "602214060000000000000000">>, <<"-0.00000000015", "-0.00000000015">>, <<"9999999000", "9999999000">>,
  <<"0.000000000000000000000000000000000000000000001", "0.000000000000000000000000000000000000000000001">>, <<"-340282350000000000000000000000000000000", "-340282350000000000000000000000000000000">>, <<"33554432", "33554432">>,
  <<"100000000000000000000000000000000000000", "100000000000000000000000000000000000000">> >>
FloatBad == <<"", "abc", "1,5", "1.5.2", "0x10", "1e", "--1", "1 2", "e5", ".">>
ParseFloat(s) ==
  LET t == Trim(s)
      i == FirstIx(FloatTab, LAMBDA r : r[1] = t)
  IN  IF i = 0 THEN Bad ELSE Good(FloatTab[i][2])

\* strings that may be floats but are not in the table: nothing is claimed about them
FloatChars == {Ch("0123456789+-.eEinfatyINFATY", i) : i \in 1..27}
FloatUnknown(s) ==
  LET t == Trim(s) IN
  /\ t \notin {FloatTab[i][1] : i \in 1..Len(FloatTab)} \cup {FloatBad[i] : i \in 1..Len(FloatBad)}
  /\ \A i \in 1..Len(t) : Ch(t, i) \in FloatChars

Parse(lit, s) ==
  CASE lit \in Textual -> Good(s)
    [] lit = "boolean" -> ParseBool(s)
    [] lit = "long" -> ParseInt(s, "9223372036854775807", "9223372036854775808", TRUE)
    [] lit = "int" -> ParseInt(s, "2147483647", "2147483648", TRUE)
    [] lit = "nonNegativeInteger" -> ParseInt(s, "18446744073709551615", "0", FALSE)
    [] lit = "decimal" -> ParseDecimal(s)
    [] lit = "float" -> ParseFloat(s)
Show(lit, v) == v

-----------------------------------------------------------------------------
(* sample lexical representations: accepted and rejected ones per type.       *)
(* {..} stands for a character the renderer substitutes (see engine/text.py)  *)
StringPool == << "abc", "", "x", "two words", "a<b", "p&q", "<![CDATA[", "]]>", "\"dq\"", "'sq'",
  "{e}t{e}", "{snow}{snow}", "{astral}", " lead", "trail ", "a  b", "tab\there", "line\nbreak",
  "&amp;", "--", "<!-- no -->", "0", "true", "{nbsp}", "long text that goes on for quite a while",
  "a,b;c", "{e}", "<x/>", "?>", "%20", "{{}}", "\\n", "A", "Z9", "None", "Some(1)",
  "{long}", "{huge}", "]]", "]]>]]>", "<a>]]></a>", "&]]>\"<", "a\n\nb", "\n", " ", "{nbsp}x{nbsp}", "{zwj}", "{comb}", "{astral}{e}{snow}a", "&lt;", "&#65;",
  "a\"b'c<d>e&f", "{bom}x", "xmlns=\"x\"", "<?xml version=\"1.0\"?>" >>
GoodPool == [
  string |-> StringPool,
  any |-> << "any", "", "x y", "a&b" >>,
  boolean |-> << "true", "false", "1", "0", " true", "0 ", "\tfalse\n", "\rtrue", "1\r" >>,
  long |-> << "0", "1", "-1", "42", "+7", "007", "-0", "9223372036854775807",
     "-9223372036854775808", " 12 ", "123456789012", "\n5", "+0", "-007", "000000000000000000000000000042",
     "2147483648", "-2147483649", "\t\n -5 \n", "\r6 \r", "9007199254740993" >>,
  int |-> << "0", "1", "-1", "42", "+7", "007", "2147483647", "-2147483648", " 12 ", "-0", "+0", "-007",
     "00000000000000000000001", "16777217", "65536", "\n-32769\n", "8\r" >>,
  nonNegativeInteger |-> << "0", "1", "42", "+7", "007", "18446744073709551615", " 3",
     "9223372036854775808", "\t8\t", "\r9", "+0", "00000000000000000000001", "4294967296" >>,
  decimal |-> << "0", "1.5", "-1.50", "+3", "100.00", "0.001", "12345678901234567890.12345",
     " 7.25 ", "-0", "010.10", "99999999999999999999999999", "1.10", "1.100", "-0.5", ".5", "5.", "+.25", "\n-12.5\t", "\r0.75\r",
     "000123.4500" >>,
  float |-> << "0", "1", "-1", "+2.5", "1.5", "0.1", "1e3", "2.5E-1", "INF", "-INF", "16777216",
     " 1.5 ", "3.4028235E38", ".5", "5.", "-0", "1.17549435E-38",
     "3.14159274", "123456.789", "6.02214076e23", "-1.5e-10", "33554433", "8388607.5", "1e-45", "-3.4028235E38", "1E+2", "\t99.99\n", "\r0.25\r" >>,
  time |-> << "12:30:00", "00:00:00Z", "" >>,
  date |-> << "2020-02-29", "1999-12-31Z" >>,
  dateTime |-> << "2021-01-01T00:00:00Z", "2021-01-01T00:00:00.123+02:00" >>,
  duration |-> << "P1Y2M3DT4H5M6S", "-PT0.5S" >>,
  base64Binary |-> << "aGVsbG8=", "", "+/+/" >>,
  hexBinary |-> << "0FB7", "", "abcdef" >> ]
BadPool == [
  boolean |-> << "", "yes", "TRUE", "True", "2", "truefalse", "01", "t", "true false", "{nbsp}true", "1{nbsp}", "on", "FALSE" >>,
  long |-> << "", "abc", "1.0", "9223372036854775808", "-9223372036854775809", "1 2", "0x1",
     "--1", "1e3", "+", "-", "1_000", "{nbsp}1" >>,
  int |-> << "", "abc", "1.5", "2147483648", "-2147483649", "1 2", "+-1", "1e3", "99999999999",
     "-", "1_0", "1{nbsp}", "{long}" >>,
  nonNegativeInteger |-> << "", "abc", "-1", "18446744073709551616", "1.0", "1 2", "-", "1e3", "{nbsp}1", "+-1" >>,
  decimal |-> << "", "abc", "1,5", "1.2.3", "--1", "0x1", "1 2", ".", "-", "1.5f", "{nbsp}1", "1.5{nbsp}", "1e3x" >>,
  float |-> FloatBad ]
\* (decimals at the limits of their representation; a digit more, and nothing is claimed)
Limits == [decimal |-> << "79228162514264337593543950335", "-79228162514264337593543950335",
  "0.0000000000000000000000000001", "7.9228162514264337593543950335" >>]
LimitsOf(lit) == IF lit \in DOMAIN Limits THEN Limits[lit] ELSE <<>>
ASSUME \A l \in DOMAIN GoodPool : \A i \in 1..Len(GoodPool[l]) : Parse(l, GoodPool[l][i]).ok
ASSUME \A l \in DOMAIN BadPool : \A i \in 1..Len(BadPool[l]) : ~Parse(l, BadPool[l][i]).ok
HasBad(lit) == lit \in DOMAIN BadPool
=============================================================================
