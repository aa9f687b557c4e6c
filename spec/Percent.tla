------------------------------ MODULE Percent ------------------------------
(* Percent decoding of URL components (percent_encoding.h).                  *)
EXTENDS Bytes

(* The decoding modes: 0 keeps escapes of RFC 6570 reserved characters,      *)
(* 1 keeps escapes of '/', 2 keeps none.                                     *)
KeepReserved == 0
KeepSlash    == 1
KeepNone     == 2

(* RFC 6570, section 1.5: gen-delims and sub-delims.                         *)
GenDelims == {COLON, SLASH, QMARK, 35, 91, 93, 64}                \* :/?#[]@
SubDelims == {33, 36, AMP, 39, 40, 41, STAR, PLUS, 44, 59, EQ}    \* !$&'()*+,;=
Reserved  == GenDelims \cup SubDelims

Kept(mode) == CASE mode = KeepReserved -> Reserved
                [] mode = KeepSlash    -> {SLASH}
                [] mode = KeepNone     -> {}

HexDigits == (48..57) \cup (65..70) \cup (97..102)
HexValue(c) == CASE c \in 48..57  -> c - 48
                 [] c \in 65..70  -> c - 55
                 [] c \in 97..102 -> c - 87

(* Position i begins a well-formed escape of a byte the mode decodes.        *)
EscapeAt(s, i, mode) ==
  /\ i >= 1 /\ i + 2 <= Len(s)
  /\ s[i] = PERCENT
  /\ s[i + 1] \in HexDigits /\ s[i + 2] \in HexDigits
  /\ (16 * HexValue(s[i + 1]) + HexValue(s[i + 2])) \notin Kept(mode)

EscapeValue(s, i) == 16 * HexValue(s[i + 1]) + HexValue(s[i + 2])

(***************************************************************************)
(* Declarative: well-formed escapes never overlap (a hex digit is no '%'),   *)
(* so each position of s stands for itself, or begins a decoded escape, or   *)
(* is swallowed by one. Everything else is left exactly as it was.           *)
(***************************************************************************)
Decode(s, mode, plus) ==
  LET E == {i \in 1..Len(s) : EscapeAt(s, i, mode)}
      Kpt(i) == (i - 1) \notin E /\ (i - 2) \notin E
      pos == SelectSeq([i \in 1..Len(s) |-> i], Kpt)
  IN [k \in 1..Len(pos) |->
        LET i == pos[k] IN
        IF i \in E THEN EscapeValue(s, i)
        ELSE IF plus /\ s[i] = PLUS THEN SPACE
        ELSE s[i]]

(* Whether decoding changes anything, judged by its syntax alone.            *)
IsEscaped(s, mode, plus) ==
  \/ \E i \in 1..Len(s) : EscapeAt(s, i, mode)
  \/ plus /\ Has(s, PLUS)

(***************************************************************************)
(* Operational mirror of the code: one scan from left to right.              *)
(***************************************************************************)
RECURSIVE Scan(_, _, _, _)
Scan(s, i, mode, plus) ==
  IF i > Len(s) THEN <<>>
  ELSE IF plus /\ s[i] = PLUS THEN <<SPACE>> \o Scan(s, i + 1, mode, plus)
  ELSE IF EscapeAt(s, i, mode)
       THEN <<EscapeValue(s, i)>> \o Scan(s, i + 3, mode, plus)
  ELSE <<s[i]>> \o Scan(s, i + 1, mode, plus)
=============================================================================
