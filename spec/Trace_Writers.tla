---------------------------- MODULE Trace_Writers ----------------------------
(* Recorded sessions of writing events through a PrefixWriter, a             *)
(* RequestWeaver, or the one in front of the other. After each event e.o has *)
(* the events that came out, and the code of the status. ws holds every      *)
(* state the weaver may be in.                                               *)
EXTENDS Writers, Trace
VARIABLES l, c, d, ws
TInit == l = 1 /\ c = 0 /\ d = 0 /\ ws = {}
(* The names of a dotted path; empty names are skipped.                      *)
Path(s) == LET NonEmpty(x) == x # <<>> IN SelectSeq(Split(s, 46), NonEmpty)
Ev(e) == [e |-> e.e, n |-> e.n, t |-> e.t, v |-> e.v]
InvalidArgument == 3
TNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN
     CASE e.a = "start" -> c' = e /\ d' = 0 /\ ws' = {WInit(e.binds)}
       [] e.a = "ev" ->
            LET in == IF c.wp # 0 THEN Prefixed(Path(c.ps), d, Ev(e)) ELSE <<Ev(e)>> IN
            /\ c' = c /\ d' = Deeper(d, Ev(e))
            /\ IF c.ww = 0 THEN e.o.out = in /\ e.o.code = 0 /\ ws' = ws
               ELSE /\ ws' = {x \in UNION {Woven(y, in, e.o.out, c.rep # 0) : y \in ws} :
                                e.o.code = (IF x.bad THEN InvalidArgument ELSE 0)}
                    /\ ws' # {}
Spec == TInit /\ [][TNext]_<<l, c, d, ws>>
=============================================================================
