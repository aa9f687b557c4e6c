------------------------------- MODULE Request -------------------------------
(* Translating the JSON body of a request to messages, as it arrives         *)
(* (json_request_translator.cc, request_stream_translator.cc).               *)
(*                                                                           *)
(* State of one translation, a record s:                                     *)
(*   c      its configuration: [type, bp, rej, ci, str, del, binds]          *)
(*   q      the chunks that have arrived and are not taken                   *)
(*   closed whether that is all there will be                                *)
(*   p      the parser, of all that has been taken; seen: of any byte at all *)
(*   cons   the number of bytes taken                                        *)
(*   n      the number of messages handed out                                *)
(*   doom   -1, or: an error lies behind that many messages                  *)
(*   err    an error has been reported                                       *)
EXTENDS Weave

Start(c) == [c |-> c, q |-> <<>>, closed |-> FALSE, p |-> JInit, seen |-> FALSE,
             cons |-> 0, n |-> 0, doom |-> -1, err |-> FALSE]
Arrive(s, bytes) == IF bytes = <<>> THEN s ELSE [s EXCEPT !.q = Append(@, bytes)]
CloseInput(s) == [s EXCEPT !.closed = TRUE]

(* The values that stand for messages and are complete.                      *)
Elements(s, p) ==
  IF ~s.c.str THEN p.root
  ELSE LET kids == IF HasRoot(p) THEN p.root[1].c ELSE IF p.stk # <<>> THEN p.stk[1].c ELSE <<>>
       IN [i \in 1..Len(kids) |-> kids[i].v]
WrongRoot(s, p) ==
  s.c.str /\ \/ HasRoot(p) /\ p.root[1].k # "arr"
             \/ p.stk # <<>> /\ p.stk[1].k # "arr"
MessageNo(s, p, i) == Translate(s.c, IF i = 1 THEN s.c.binds ELSE <<>>, Elements(s, p)[i])

(* The number of messages in front of the first defect, if there is one in   *)
(* what p has read that must be reported now; -1 if there is none.           *)
Defect(s, p) ==
  IF WrongRoot(s, p) THEN 0
  ELSE LET es == Elements(s, p)
           B == {i \in (s.n + 1)..Len(es) : ~MessageNo(s, p, i).ok}
       IN IF B # {} THEN (CHOOSE i \in B : \A j \in B : i <= j) - 1
          ELSE IF IsBad(p) THEN Len(es) ELSE -1
(* Whether what has been read of a value that is not complete can not stand  *)
(* for a message any more: that may be reported right away.                  *)
OpenPart(s, p) ==
  IF HasRoot(p) \/ p.stk = <<>> THEN <<>>
  ELSE IF ~s.c.str THEN Partial(p)
  ELSE IF Len(p.stk) < 2 THEN <<>>
  ELSE LET u == Partial([p EXCEPT !.stk = Tail(@)]) IN u
Doubtful(s, p) ==
  LET o == OpenPart(s, p) IN
  o # <<>> /\ ~Translate(s.c, IF Len(Elements(s, p)) = 0 THEN s.c.binds ELSE <<>>, o[1]).ok

Over(s) == \/ s.err
           \/ /\ s.doom = -1
              /\ IF s.c.str THEN HasRoot(s.p) /\ s.n = Len(s.p.root[1].c) ELSE s.n = 1

(* Text that is no JSON any more, in a token that is not complete or between  *)
(* two: the parser may wait for the token's end before it says so.           *)
JustBad(s, p) == /\ IsBad(p) /\ ~HasRoot(p) /\ ~WrongRoot(s, p)
                 /\ \A i \in (s.n + 1)..Len(Elements(s, p)) : MessageNo(s, p, i).ok
(* The parser has moved to p, the text being over or not: what may become of  *)
(* it.                                                                       *)
Moved(s, p, over) ==
  LET d == Defect(s, p)
      fail == [s EXCEPT !.p = p, !.err = TRUE]
  IN IF d >= 0
     THEN {fail} \cup (IF s.c.str /\ d > s.n THEN {[s EXCEPT !.p = p, !.doom = d]} ELSE {})
          \cup (IF ~over /\ JustBad(s, p) THEN {[s EXCEPT !.p = p]} ELSE {})
     ELSE {[s EXCEPT !.p = p]} \cup (IF Doubtful(s, p) THEN {fail} ELSE {})

None == [ok |-> FALSE, m |-> <<>>]
RECURSIVE Polled(_)
(* The possible effects of asking for a message: [s, got, m]. No more input  *)
(* is taken than is needed.                                                  *)
Polled(s) ==
  LET nothing == {[s |-> s, got |-> FALSE, m |-> None]}
      After(S) == UNION {IF x.err THEN {[s |-> x, got |-> FALSE, m |-> None]} ELSE Polled(x) : x \in S}
      limit == IF s.doom >= 0 THEN s.doom ELSE Len(Elements(s, s.p))
  IN IF Over(s) THEN nothing
     ELSE IF s.n < limit
     THEN {[s |-> [s EXCEPT !.n = @ + 1], got |-> TRUE, m |-> MessageNo(s, s.p, s.n + 1)]}
     ELSE IF s.doom >= 0 THEN {[s |-> [s EXCEPT !.err = TRUE], got |-> FALSE, m |-> None]}
     ELSE IF s.q # <<>>
     THEN After(Moved([s EXCEPT !.q = Tail(@), !.cons = @ + Len(Head(s.q)), !.seen = TRUE],
                      Feed(s.p, Head(s.q)), FALSE))
     ELSE IF ~s.closed THEN nothing
     ELSE IF ~s.seen
     THEN After(Moved([s EXCEPT !.seen = TRUE], Feed(s.p, <<LBRACE, RBRACE>>), FALSE))
     ELSE After(Moved(s, AtEnd(s.p), TRUE))
Code(s) == IF s.err THEN 3 ELSE 0

(***************************************************************************)
(* The whole body at once: the messages in front of the first defect, and    *)
(* whether there is none. A body without a byte counts as "{}".              *)
(***************************************************************************)
Whole(c, text) ==
  LET s == Start(c)
      p == AtEnd(Feed(JInit, IF text = <<>> THEN <<LBRACE, RBRACE>> ELSE text))
      d == Defect(s, p)
      n == IF d >= 0 THEN d ELSE Len(Elements(s, p))
  IN [ms |-> [i \in 1..n |-> MessageNo(s, p, i).m], ok |-> d = -1]

(* The header of a message of that size (a wide number).                     *)
Header(size) == <<0, size[1] % 256, size[2] \div 65536, (size[2] \div 256) % 256, size[2] % 256>>
=============================================================================
