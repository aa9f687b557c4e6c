------------------------------ MODULE Trace_Big ------------------------------
(* Recorded requests with large messages: objects {"s": text}, where most of *)
(* the text is fed as runs of a letter ("fill") that are only counted here.  *)
EXTENDS Request, Trace
VARIABLES l, str, del, p,
          x,       \* letters counted in the element being read
          done,    \* the lengths of the texts of the elements that are complete
          n,       \* how many of them have been taken
          closed
bv == <<l, str, del, p, x, done, n, closed>>
TInit == l = 1 /\ str = FALSE /\ del = FALSE /\ p = JInit /\ x = 0 /\ done = <<>> /\ n = 0 /\ closed = FALSE
Texts(q) == LET es == Elements([c |-> [str |-> str]], q) IN [i \in 1..Len(es) |-> Len(es[i].c[1].v.b)]
(* Field 1, a string of k bytes, on the wire; an empty one may be left out.  *)
Sizes(k) == {1 + VarintLen(k) + k} \cup (IF k = 0 THEN {0} ELSE {})
Wide0(k) == <<k \div 16777216, k % 16777216>>
Over0 == n = Len(done) /\ HasRoot(p)
Seen(e) == /\ e.o.code = 0
           /\ e.o.fin = (n' = Len(done') /\ HasRoot(p') /\ (~str => n' = 1))
           /\ UNCHANGED <<str, del>>
TNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN
     CASE e.a = "start" -> /\ str' = (e.str # 0) /\ del' = (e.del # 0) /\ p' = JInit
                           /\ x' = 0 /\ done' = <<>> /\ n' = 0 /\ closed' = FALSE
       [] e.a = "feed" ->
            LET q == Feed(p, e.b) ts == Texts(q)
                new == SubSeq(ts, Len(done) + 1, Len(ts))
            IN /\ p' = q
               /\ done' = done \o [i \in 1..Len(new) |-> new[i] + (IF i = 1 THEN x ELSE 0)]
               /\ x' = IF new = <<>> THEN x ELSE 0
               /\ UNCHANGED <<n, closed>> /\ e.o.code = 0 /\ UNCHANGED <<str, del>>
       [] e.a = "fill" -> /\ p.m = "str" /\ x' = x + e.n
                          /\ UNCHANGED <<p, done, n, closed>> /\ e.o.code = 0 /\ UNCHANGED <<str, del>>
       [] e.a = "close" -> closed' = TRUE /\ UNCHANGED <<str, del, p, x, done, n>>
       [] e.a = "poll" ->
            /\ UNCHANGED <<p, x, done, closed>>
            /\ e.o.got = (n < Len(done))
            /\ n' = IF e.o.got THEN n + 1 ELSE n
            /\ e.o.got => /\ e.o.ok
                          /\ e.o.len \in {Wide0(k) : k \in Sizes(done[n + 1])}
                          /\ e.o.hdr = (IF del THEN Header(e.o.len) ELSE <<>>)
            /\ Seen(e)
Spec == TInit /\ [][TNext]_bv
=============================================================================
