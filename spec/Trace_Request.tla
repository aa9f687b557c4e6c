---------------------------- MODULE Trace_Request ----------------------------
(* Recorded sessions of a request translation.                               *)
EXTENDS Request, Trace
VARIABLES l, s
TInit == l = 1 /\ s = Start([str |-> FALSE])
Conf(e) == [type |-> e.type, bp |-> e.bp, rej |-> e.rej # 0, ci |-> e.ci # 0, str |-> e.str # 0,
            del |-> e.del # 0, binds |-> e.binds]
Seen(e, x) == /\ e.o.bound
              /\ e.o.fin = Over(x) /\ e.o.code = Code(x)
              /\ e.o.cons = <<0, x.cons>>
TPoll(e) ==
  \E r \in Polled(s) :
    /\ s' = r.s
    /\ Seen(e, r.s)
    /\ e.o.got = r.got
    /\ r.got => /\ e.o.ok
                /\ e.o.hdr = (IF s.c.del THEN Header(e.o.len) ELSE <<>>)
                /\ SameMessage(e.o.m, r.m.m)
TNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN
     CASE e.a = "start" -> s' = Start(Conf(e))
       [] e.a = "feed"  -> s' = Arrive(s, e.b) /\ Seen(e, s')
       [] e.a = "close" -> s' = CloseInput(s) /\ Seen(e, s')
       [] e.a = "poll"  -> TPoll(e)
Spec == TInit /\ [][TNext]_<<l, s>>
=============================================================================
