--------------------------- MODULE Trace_Gateway ---------------------------
(* Recorded requests, from the HTTP request to the frames, and the frames    *)
(* back to JSON.                                                             *)
EXTENDS Gateway, Trace
VARIABLE l
gv == <<opt, table, built, outB, outBody, l>>
TInit == PM!Init /\ l = 1
TStart(e) ==
  LET tabs == FoldLeft(LAMBDA a, r : LET x == PM!RegisterIn(a.t, FALSE, r.m, r.t, r.b, {}, r.id)
                                     IN [t |-> x.table, ok |-> Append(a.ok, x.ok)],
                       [t |-> <<>>, ok |-> <<>>], e.regs)
  IN /\ table' = tabs.t
     /\ e.o.regs = tabs.ok
     /\ opt' = [spec |-> e.spec, plus |-> e.plus # 0, unreg |-> FALSE, fail |-> FALSE]
     /\ built' = TRUE /\ outB' = <<>> /\ outBody' = <<>>
Opts(e) == [type |-> e.type, rej |-> e.rej # 0, ci |-> e.ci # 0, str |-> e.str # 0, del |-> TRUE,
            nd |-> e.nd # 0, ws |-> e.ws # 0, prim |-> e.prim # 0, ei |-> e.ei # 0, pn |-> e.pn # 0]
(* The documents show the messages.                                          *)
Same(c, docs, ms) ==
  LET sh == Shown(c, docs) IN
  /\ sh.ok
  /\ Len(sh.v) = Len(ms)
  /\ \A k \in 1..Len(ms) :
       /\ AsAsked(c.type, sh.v[k], c)
       /\ LET d == Denote(c.type, sh.v[k], FALSE) IN d.ok /\ SameMessage(ms[k].m, d.m)
(* The end of the body: it may end earlier, at the end of a chunk, if it is    *)
(* complete there; what follows is not looked at.                   *)
Ends(e) == {Len(e.body)} \cup {k \in {e.cuts[i] : i \in 1..Len(e.cuts)} :
                                 k > 0 /\ k < Len(e.body) /\
                                 Feed(JInit, SubSeq(e.body, 1, k)).m = "end"}
TServe(e) == \E end \in Ends(e) :
  LET c == Opts(e) w == Serve(e.m, e.p, e.q, c, SubSeq(e.body, 1, end)) IN
  /\ e.o.r = w.r
  /\ w.r # 0 =>
     /\ e.o.bound = w.bound
     /\ w.bound =>
        /\ e.o.fin /\ e.o.code = (IF w.ok THEN 0 ELSE 3)
        /\ IF w.ok THEN Len(e.o.msgs) = Len(w.ms) ELSE Len(e.o.msgs) <= Len(w.ms)
        /\ \A k \in 1..Len(e.o.msgs) :
             /\ e.o.msgs[k].ok
             /\ e.o.msgs[k].hdr = Header(e.o.msgs[k].len)
             /\ SameMessage(e.o.msgs[k].m, w.ms[k])
        /\ e.o.rcode = 0
        /\ (c.str \/ e.o.msgs # <<>>) => e.o.rfin /\ Same(c, e.o.docs, e.o.msgs)
        /\ (~c.str /\ e.o.msgs = <<>>) => e.o.docs = <<>>
TNext == /\ l <= Len(Events) /\ l' = l + 1
         /\ LET e == Events[l] IN
            CASE e.a = "start" -> TStart(e)
              [] e.a = "serve" -> TServe(e) /\ UNCHANGED <<opt, table, built, outB, outBody>>
Spec == TInit /\ [][TNext]_gv
=============================================================================
