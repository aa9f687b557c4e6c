---------------------------- MODULE Trace_Percent ----------------------------
(* Recorded decodings: the string, the mode, and what the code gave.         *)
EXTENDS Percent, Trace
VARIABLE l
Init == l = 1
Next ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN
       e.obs = [out  |-> Decode(e.s, e.spec, e.plus = 1),
                esc  |-> IsEscaped(e.s, e.spec, e.plus = 1),
                out1 |-> Decode(e.s, KeepNone, FALSE),
                esc1 |-> IsEscaped(e.s, KeepNone, FALSE)]
Spec == Init /\ [][Next]_l
=============================================================================
