-------------------------- MODULE Trace_FieldPath --------------------------
(* Recorded field path resolutions: [types, d, p, res, overlap], where res   *)
(* holds the different results seen (by one or by several threads).          *)
EXTENDS FieldPath, Trace
VARIABLE l
Want(e) ==
  LET idx(t) == {i \in 1..Len(e.types) : e.types[i].n = t}
      known(t) == idx(t) # {}
      fields(t) == IF known(t) THEN e.types[CHOOSE i \in idx(t) : \A k \in idx(t) : i <= k].f ELSE <<>>
      r == Resolve(fields, known, e.types[1].n, IF e.d # 0 THEN Dotted(e.p) ELSE e.p)
      no(t) == CHOOSE i \in idx(t) : \A k \in idx(t) : i <= k
  IN IF r.ok THEN [code |-> 0, kept |-> TRUE, f |-> [k \in 1..Len(r.f) |-> <<no(r.f[k].t), r.f[k].i>>]]
     ELSE [code |-> 3, kept |-> TRUE, f |-> <<>>]
TInit == l = 1
TNext == /\ l <= Len(Events) /\ l' = l + 1
         /\ LET e == Events[l] IN
            /\ e.overlap = 0
            /\ e.res = <<Want(e)>>
Spec == TInit /\ [][TNext]_l
=============================================================================
