--------------------------- MODULE MC_Translator ---------------------------
(* Translating a request: every body of a list, with different options and   *)
(* bindings, in every chunking (at most MaxQueue chunks waiting), with every *)
(* interleaving of arrivals and polls; the body may end anywhere. Looking at *)
(* all that has arrived at once says what has to come out.                   *)
EXTENDS Request, TLC, Json
CONSTANTS MaxQueue, Export, Which
VARIABLES s, no, left, got, act
mv == <<s, no, left, got, act>>

Bind(p, v) == [p |-> p, v |-> v]
Conf(str, bp, rej, binds) == [type |-> "M", bp |-> bp, rej |-> rej, ci |-> FALSE, str |-> str,
                              del |-> FALSE, binds |-> binds]
B == 98  D == 115   \* fields b: bool, s: string
NA == <<110>>       \* field n, a message
Q == QUOTE
BodyList == <<
  \* {"b":true}          with a binding of a field that is not in it
  [c |-> Conf(FALSE, <<>>, FALSE, <<Bind(<<<<D>>>>, <<B>>)>>), t |-> <<LBRACE, Q, B, Q, COLON>> \o TrueW \o <<RBRACE>>],
  \* {"s":"b"}           with a conflict that is to be reported, and without
  [c |-> Conf(FALSE, <<>>, TRUE, <<Bind(<<<<D>>>>, <<B>>)>>), t |-> <<LBRACE, Q, D, Q, COLON, Q, B, Q, RBRACE>>],
  [c |-> Conf(FALSE, <<>>, TRUE, <<Bind(<<<<D>>>>, <<D>>)>>), t |-> <<LBRACE, Q, D, Q, COLON, Q, B, Q, RBRACE>>],
  [c |-> Conf(FALSE, <<>>, FALSE, <<Bind(<<<<D>>>>, <<D>>)>>), t |-> <<LBRACE, Q, D, Q, COLON, Q, B, Q, RBRACE, SPACE>>],
  \* [{},{"s":""}]       a stream of two
  [c |-> Conf(TRUE, <<STAR>>, FALSE, <<Bind(<<<<D>>>>, <<D>>)>>),
   t |-> <<LBRACKET, LBRACE, RBRACE, COMMA, LBRACE, Q, D, Q, COLON, Q, Q, RBRACE, RBRACKET>>],
  \* [0,"7",1.5]         at field i32: the last one does not fit
  [c |-> Conf(TRUE, <<105, 51, 50>>, FALSE, <<>>),
   t |-> <<LBRACKET, 48, COMMA, Q, 55, Q, COMMA, 49, DOT, 53, RBRACKET>>],
  \* "b"                 at field s, then something too much
  [c |-> Conf(FALSE, <<D>>, FALSE, <<>>), t |-> <<Q, B, Q, SPACE, 48>>],
  \* {},  and  [{},}
  [c |-> Conf(TRUE, <<>>, FALSE, <<>>), t |-> <<LBRACE, RBRACE, COMMA>>],
  [c |-> Conf(TRUE, <<>>, FALSE, <<>>), t |-> <<LBRACKET, LBRACE, RBRACE, COMMA, RBRACE>>],
  \* 12                  at field ri: only the end shows that it is complete
  [c |-> Conf(FALSE, <<114, 105>>, FALSE, <<Bind(<<<<114, 105>>>>, <<49>>)>>), t |-> <<49, 50>>],
  \* [true,[]]           at field rb
  [c |-> Conf(TRUE, <<114, 98>>, TRUE, <<Bind(<<NA, <<97>>>>, <<D>>)>>),
   t |-> <<LBRACKET>> \o TrueW \o <<COMMA, LBRACKET, RBRACKET, RBRACKET>>],
  \* {"n":{"a":"s"},"zz":[{}]} with a binding n.a, equal
  [c |-> Conf(FALSE, <<>>, TRUE, <<Bind(<<NA, <<97>>>>, <<D>>), Bind(<<NA, <<114>>>>, <<D>>)>>),
   t |-> <<LBRACE, Q, 110, Q, COLON, LBRACE, Q, 97, Q, COLON, Q, D, Q, RBRACE, RBRACE>>],
  \* empty
  [c |-> Conf(FALSE, <<>>, TRUE, <<Bind(<<NA, <<97>>>>, <<D>>)>>), t |-> <<>>],
  [c |-> Conf(TRUE, <<>>, TRUE, <<>>), t |-> <<>>],
  [c |-> Conf(TRUE, <<>>, TRUE, <<Bind(<<<<D>>>>, <<D>>)>>), t |-> <<LBRACKET, SPACE, RBRACKET>>]
  >>
Bodies == Which \cap 1..Len(BodyList)

MCInit == /\ no \in Bodies
          /\ s = Start(BodyList[no].c) /\ left = BodyList[no].t
          /\ got = <<>> /\ act = [a |-> "init"]
DoFeed == \E k \in 1..Len(left) :
  /\ ~s.closed /\ Len(s.q) < MaxQueue
  /\ s' = Arrive(s, SubSeq(left, 1, k)) /\ left' = SubSeq(left, k + 1, Len(left))
  /\ act' = [a |-> "feed", b |-> SubSeq(left, 1, k)]
  /\ UNCHANGED <<no, got>>
DoClose == /\ ~s.closed /\ s' = CloseInput(s) /\ act' = [a |-> "close"]
           /\ UNCHANGED <<no, left, got>>
DoPoll == \E r \in Polled(s) :
  /\ s' = r.s /\ act' = [a |-> "poll"]
  /\ got' = IF r.got THEN Append(got, r.m.m) ELSE got
  /\ UNCHANGED <<no, left>>
MCNext == DoFeed \/ DoClose \/ DoPoll
MCSpec == MCInit /\ [][MCNext]_mv

Text0 == BodyList[no].t
Fed == SubSeq(Text0, 1, Len(Text0) - Len(left))
Waiting == FoldLeft(LAMBDA n, x : n + Len(x), 0, s.q)
Taken == SubSeq(Fed, 1, Len(Fed) - Waiting)
W0 == Whole(s.c, Fed)

(* What has been handed out is what a look at the whole would give, in order.*)
InOrder == /\ Len(got) = s.n
           /\ s.cons = Len(Taken)
           /\ Len(got) <= Len(W0.ms) /\ got = SubSeq(W0.ms, 1, Len(got))
(* An error means that no continuation helps: the easiest one does not.      *)
Continued == Whole(s.c, IF Taken = <<>> THEN <<>> ELSE Taken \o Completion(Feed(JInit, Taken)))
ErrorSound == s.err => IsBad(AtEnd(Feed(JInit, Taken))) \/ ~Continued.ok \/ (s.closed /\ ~W0.ok)
(* It is over without an error only if there was none to find, in what was   *)
(* looked at.                                                                *)
EndSound == (Over(s) /\ ~s.err) => LET w == Whole(s.c, Taken) IN w.ok /\ got = w.ms
(* A poll that gives nothing has looked at everything.                       *)
Silent == act'.a = "poll" /\ got' = got /\ ~Over(s')
Found == [][Silent => /\ s'.q = <<>>
                      /\ ~s'.closed]_mv
Final == [][Over(s) => got' = got /\ s'.err = s.err /\ Over(s')]_mv
(* The end of the input always settles it.                                   *)
RECURSIVE Drain(_, _)
Drain(S, n) == IF n = 0 THEN S ELSE Drain(UNION {{r.s : r \in Polled(x)} : x \in S}, n - 1)
Settles == s.closed => \A x \in Drain({s}, Len(W0.ms) + 2) :
                         /\ Over(x)
                         /\ W0.ok => ~x.err /\ x.n = Len(W0.ms)
                         /\ x.err => ~W0.ok
                         /\ ~s.c.str /\ ~W0.ok /\ ~x.err => \* more behind the end of the document
                              Whole(s.c, SubSeq(Fed, 1, x.cons)).ok
View == <<s, no, left, got>>
St == [n |-> no, l |-> Len(left), q |-> s.q, c |-> s.closed, s |-> <<s.cons, s.n, s.doom, s.err, s.seen>>]
Edge == Export => PrintT(ToJson([f |-> St, t |-> St', a |-> act']))
Listed == (Export /\ act.a = "init") => PrintT(ToJson([no |-> no, c |-> s.c, t |-> Text0]))
=============================================================================
