---------------------------- MODULE MC_Response ----------------------------
(* Every stream of up to MaxFrames frames, good and bad, cut off anywhere,   *)
(* arriving in every chunking with every interleaving of polls. Message k is *)
(* printed as the number k here. The whole stream, looked at once, says what *)
(* has to come out.                                                          *)
EXTENDS Response, TLC, Json
CONSTANTS MaxFrames, Sizes, Export
VARIABLES s, out, act
mv == <<s, out, act>>
FrameKinds == {x \in [size : Sizes, fl : {0}, good : BOOLEAN] : x.good \/ x.size > 0}
              \cup {[size |-> 1, fl |-> 7, good |-> TRUE]}
Streams == UNION {[1..k -> FrameKinds] : k \in 0..MaxFrames}
Confs == {[type |-> "M", str |-> x[1], nd |-> x[2], ws |-> FALSE, prim |-> FALSE, ei |-> FALSE, pn |-> FALSE] :
            x \in {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>}}
Length(fs) == FoldLeft(LAMBDA n, f : n + 5 + f.size, 0, fs)

MCInit == /\ \E c \in Confs, fs \in Streams : s = Begin(c, fs)
          /\ out = <<>> /\ act = [a |-> "init"]
DoFeed == \E k \in 1..(Length(s.frames) - s.fed) :
            ~s.closed /\ s' = More(s, k) /\ out' = out /\ act' = [a |-> "feed", n |-> k]
DoClose == ~s.closed /\ s' = NoMore(s) /\ out' = out /\ act' = [a |-> "close"]
DoPoll == LET x == Answer(s) IN
          /\ s' = x.s
          /\ out' = IF x.got THEN out \o x.pre \o (IF x.i = 0 THEN <<>> ELSE <<48 + x.i>>) \o x.post ELSE out
          /\ act' = [a |-> "poll"]
MCNext == DoFeed \/ DoClose \/ DoPoll
MCSpec == MCInit /\ [][MCNext]_mv

(* What has arrived, decoded at once: the good frames in front of the first  *)
(* defect, and the defect.                                                   *)
RECURSIVE Whole(_, _)
Whole(fs, n) ==
  IF n = 0 THEN [k |-> 0, rest |-> "clean"]
  ELSE IF n < 5 THEN [k |-> 0, rest |-> "cut"]
  ELSE IF fs[1].fl # 0 THEN [k |-> 0, rest |-> "bad"]
  ELSE IF n < 5 + fs[1].size THEN [k |-> 0, rest |-> "cut"]
  ELSE IF ~fs[1].good THEN [k |-> 0, rest |-> "bad"]
  ELSE LET r == Whole(Tail(fs), n - 5 - fs[1].size) IN [r EXCEPT !.k = @ + 1]
All == Whole(s.frames, s.fed)
Shows == Shown(s.c, out)

(* The output so far is the beginning of the one document or of the lines,   *)
(* with the messages taken, in order.                                        *)
Wellformed ==
  LET nums(v) == [j \in 1..Len(v) |-> v[j].b] IN
  /\ s.i <= (IF s.c.str THEN All.k ELSE 1) /\ s.i <= All.k
  /\ IF IsArray(s.c)
     THEN LET p == Feed(JInit, out) q == Partial(p) IN
          /\ ~IsBad(p)
          /\ HasRoot(p) <=> s.fin
          /\ out # <<>> => q[1].k = "arr"
          /\ s.fin => Shows.ok /\ nums(Shows.v) = [j \in 1..s.i |-> <<48 + j>>]
          /\ (~s.fin /\ out # <<>>) =>   \* completed by an ending
               LET z == Shown(s.c, out \o <<RBRACKET>>) IN z.ok /\ nums(z.v) = [j \in 1..s.i |-> <<48 + j>>]
     ELSE IF s.c.str THEN out = FoldLeft(LAMBDA acc, j : acc \o <<48 + j, LF>>, <<>>, [j \in 1..s.i |-> j])
     ELSE out = (IF s.i = 1 THEN <<49>> ELSE <<>>)
(* Errors only behind a defect that no further input mends; everything in    *)
(* front of it has been output. An end without error only without defect.    *)
ErrorSound == s.err => /\ s.i = All.k /\ ~s.fin
                       /\ All.rest = "bad" \/ (s.closed /\ All.rest = "cut")
EndSound == s.fin => IF s.c.str THEN s.closed /\ All.rest = "clean" /\ s.i = All.k
                     ELSE s.i = 1
(* A poll that says nothing has missed nothing.                              *)
Quiet == act'.a = "poll" /\ out' = out /\ ~s'.fin
Found == [][Quiet => /\ s'.i = All.k \/ s'.err
                     /\ s'.err = (s.err \/ All.rest = "bad" \/ (s.closed /\ All.rest = "cut"))]_mv
Final == [][(s.err \/ s.fin) => /\ out' = out /\ s'.err = s.err /\ s'.fin = s.fin]_mv
Reaches == (s.closed /\ s.c.str) => \* it ends, whatever comes
  LET RECURSIVE Run(_, _)
      Run(x, n) == IF n = 0 THEN x ELSE Run(Answer(x).s, n - 1)
      z == Run(s, MaxFrames + 2)
  IN z.fin # z.err
View == <<s, out>>
St == [c |-> <<s.c.str, s.c.nd>>, f |-> s.frames, s |-> <<s.fed, s.closed, s.i, s.fin, s.err>>]
Edge == Export => PrintT(ToJson([f |-> St, t |-> St', a |-> act']))
=============================================================================
