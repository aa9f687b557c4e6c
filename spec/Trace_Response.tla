--------------------------- MODULE Trace_Response ---------------------------
(* Recorded sessions of a response translation.                              *)
EXTENDS Response, Trace
VARIABLES l, s, code
TInit == l = 1 /\ s = Begin([str |-> FALSE], <<>>) /\ code = 0
Conf(e) == [type |-> e.type, str |-> e.str # 0, nd |-> e.nd # 0, ws |-> e.ws # 0,
            prim |-> e.prim # 0, ei |-> e.ei # 0, pn |-> e.pn # 0]
Num(w) == w[1] * 16777216 + w[2]
Framed(e) == [k \in 1..Len(e.frames) |->
               [size |-> Num(e.sizes[k]), fl |-> e.frames[k].fl, good |-> e.frames[k].k # "raw",
                x |-> e.frames[k]]]
Seen(e) ==
  /\ IF s'.err THEN e.o.code # 0 /\ (s.err => e.o.code = code) ELSE e.o.code = 0
  /\ code' = e.o.code
  \* A unary response without any message: whether that is the end is not said.
  /\ \/ e.o.fin = (s'.fin \/ s'.err)
     \/ ~s'.c.str /\ s'.closed /\ s'.i = 0 /\ s'.fed = 0
(* The document in the output: behind pre, in front of post.                 *)
Inner(b, a) == SubSeq(b, Len(a.pre) + 1, Len(b) - Len(a.post))
Fits(e, a) ==
  LET b == e.o.b n == Len(a.pre) + Len(a.post) IN
  IF a.i = 0 THEN b = a.pre /\ e.o.len = <<0, Len(b)>>
  ELSE IF a.s.frames[a.i].x.k = "fill"
  THEN \* large: its letters have been counted
       LET w == a.s.frames[a.i].x.n IN
       Num(e.o.fill) = w /\ Num(e.o.len) > w + n /\ Num(e.o.len) < w + n + 400
  ELSE /\ Len(b) >= n
       /\ e.o.len = <<0, Len(b)>>
       /\ SubSeq(b, 1, Len(a.pre)) = a.pre
       /\ SubSeq(b, Len(b) - Len(a.post) + 1, Len(b)) = a.post
       /\ Renders(a.s.c, Inner(b, a), a.s.frames[a.i].x.m)
TPoll(e) ==
  LET a == Answer(s) IN
  /\ s' = a.s
  /\ e.o.got = a.got
  /\ a.got => Fits(e, a)
  /\ Seen(e)
TNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN
     CASE e.a = "start" -> s' = Begin(Conf(e), Framed(e)) /\ code' = 0
       [] e.a = "feed"  -> s' = More(s, Num(e.o.n)) /\ Seen(e)
       [] e.a = "close" -> s' = NoMore(s) /\ Seen(e)
       [] e.a = "poll"  -> TPoll(e)
Spec == TInit /\ [][TNext]_<<l, s, code>>
=============================================================================
