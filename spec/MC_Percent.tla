----------------------------- MODULE MC_Percent -----------------------------
(* Every string over a small alphabet: the scan of the code decodes exactly  *)
(* the well-formed escapes the mode allows and leaves the rest alone.        *)
EXTENDS Percent, TLC, Json
CONSTANTS MaxLen, Export
VARIABLE s
Alphabet == {PERCENT, PLUS, SLASH, 50, 52, 49, 102, 70, 103}   \* % + / 2 4 1 f F g
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Modes == {KeepReserved, KeepSlash, KeepNone}
ScanAgrees == \A m \in Modes, p \in BOOLEAN : Scan(s, 1, m, p) = Decode(s, m, p)
Reported == \A m \in Modes, p \in BOOLEAN :
  /\ ~IsEscaped(s, m, p) => Decode(s, m, p) = s
  /\ Len(Decode(s, m, p)) = Len(s) - 2 * Cardinality({i \in 1..Len(s) : EscapeAt(s, i, m)})
(* The modes differ in nothing but the escapes they keep: decoding the rest  *)
(* of what the stricter mode left is what the laxer mode does, unless the    *)
(* first decoding has made a new '%'.                                        *)
Layered == ~Has(Decode(s, KeepReserved, FALSE), PERCENT) =>
             Decode(s, KeepReserved, FALSE) = Decode(s, KeepNone, FALSE)
Exported == Export => PrintT(ToJson([s |-> s,
   o |-> [k \in 1..6 |-> Decode(s, (k - 1) \div 2, k % 2 = 0)]]))
=============================================================================
