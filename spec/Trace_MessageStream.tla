------------------------- MODULE Trace_MessageStream -------------------------
(* Recorded sessions of the byte-stream view of a scripted message stream.   *)
EXTENDS MessageStream, Trace
VARIABLE l
TInit == SInit /\ l = 1
TStart == tot' = 0 /\ closed' = FALSE /\ rp' = 0 /\ last' = 0 /\ ended' = FALSE
TNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN
     CASE e.a = "start" -> TStart
       [] e.a = "push"  -> Push(e.n)
       [] e.a = "close" -> Close
       [] e.a = "next"  -> Next(e.o.ok, e.o.n) /\ (e.o.n > 0 => e.o.first = rp % 251 /\ e.o.run)
       [] e.a = "backr" -> IF e.o.n < 0 THEN UNCHANGED svars ELSE BackUp(e.o.n)
       [] e.a = "avail" -> Available(e.o.n)
       [] e.a = "fin"   -> Finished(e.o.r)
Spec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
