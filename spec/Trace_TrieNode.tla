--------------------------- MODULE Trace_TrieNode ---------------------------
(* Recorded sessions of tries and their clones.                              *)
EXTENDS TrieNode, Trace
VARIABLE l
TInit == NInit /\ l = 1
TKey(e) == [segs |-> e.p, method |-> e.m, verb |-> e.v]
TNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN
     CASE e.a = "start" -> tries' = << <<>> >>
       [] e.a = "ins"   -> Insert(e.n, TKey(e), e.d, e.mark # 0, e.o.r)
       [] e.a = "clone" -> Clone(e.n)
       [] e.a = "drop"  -> Drop(e.n)
       [] e.a = "look"  -> NodeLookup(e.n, e.m, e.v, e.p, [d |-> e.o.d, dup |-> e.o.dup])
Spec == TInit /\ [][TNext]_<<tries, l>>
=============================================================================
