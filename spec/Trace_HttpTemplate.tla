------------------------- MODULE Trace_HttpTemplate -------------------------
(* Recorded parses: the template t, and what the code made of it.            *)
EXTENDS HttpTemplate, Trace
VARIABLE l
Init == l = 1
Next ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN e.obs = Parse(e.t)
Spec == Init /\ [][Next]_l
=============================================================================
