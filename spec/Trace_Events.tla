---------------------------- MODULE Trace_Events ----------------------------
(* Recorded sessions of translating events. Behind an error, messages that   *)
(* were ready may be handed out or not.                                      *)
EXTENDS Events, Trace
VARIABLES l, x
TInit == l = 1 /\ x = Begin(<<>>)
Conf(e) == [type |-> e.type, bp |-> e.bp, rej |-> e.rej # 0, ci |-> e.ci # 0, str |-> e.str # 0,
            del |-> e.del # 0, binds |-> e.binds]
Seen(e, y) == /\ e.o.bound
              /\ e.o.code = Code(y)
              /\ (y.c.str \/ ~y.err) => (e.o.fin = Finished(y))
TNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN
     CASE e.a = "start" -> x' = Begin(Conf(e))
       [] e.a = "ev" -> /\ x' \in OnEvent(x, [e |-> e.e, n |-> e.n, t |-> e.t, v |-> e.v])
                        /\ Seen(e, x')
       [] e.a = "next" ->
            /\ \/ x.err /\ ~e.o.got /\ x' = x
               \/ e.o.got = Ready(x) /\ x' = OnNext(x)
               \/ x.err /\ ~x.c.str /\ x' = x
            /\ Seen(e, x')
            /\ (e.o.got /\ ~(x.err /\ ~x.c.str)) =>
                 /\ e.o.ok
                 /\ e.o.hdr = (IF x.c.del THEN Header(e.o.len) ELSE <<>>)
                 /\ SameMessage(e.o.m, MessageNo(x, x.n + 1).m)
Spec == TInit /\ [][TNext]_<<l, x>>
=============================================================================
