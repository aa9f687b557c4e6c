-------------------------- MODULE MC_MessageStream --------------------------
(* The view as it is implemented: a current message with a position in it,   *)
(* the next nonempty message being fetched when it is used up. Everything it *)
(* does is a behaviour of MessageStream.                                     *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS MaxMsgs, MsgSizes, Export
VARIABLES q, closed, cur, p, pushed, tot, last, ended, act
cv == <<q, closed, cur, p, pushed, tot, last, ended>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
A == INSTANCE MessageStream WITH rp <- tot - Sum(q) - (cur - p), Sizes <- 0..(2 * MaxMsgs)

Init == /\ q = <<>> /\ closed = FALSE /\ cur = 0 /\ p = 0 /\ pushed = 0 /\ tot = 0
        /\ last = 0 /\ ended = FALSE /\ act = [a |-> "init"]
Push == /\ ~closed /\ pushed < MaxMsgs
        /\ \E n \in MsgSizes : /\ q' = Append(q, n) /\ tot' = tot + n
                               /\ act' = [a |-> "push", s |-> tot, n |-> n]
        /\ pushed' = pushed + 1 /\ UNCHANGED <<closed, cur, p, last, ended>>
Close == /\ ~closed /\ closed' = TRUE /\ act' = [a |-> "close"]
         /\ UNCHANGED <<q, cur, p, pushed, tot, last, ended>>

RECURSIVE DropEmpty(_)
DropEmpty(s) == IF s # <<>> /\ Head(s) = 0 THEN DropEmpty(Tail(s)) ELSE s
Fetched == LET s == DropEmpty(q) IN
           IF p < cur THEN [q |-> q, cur |-> cur, p |-> p]
           ELSE IF s = <<>> THEN [q |-> s, cur |-> 0, p |-> 0]
           ELSE [q |-> Tail(s), cur |-> Head(s), p |-> 0]
Next0 ==
  LET f == Fetched IN
  /\ q' = f.q /\ cur' = f.cur /\ p' = f.cur
  /\ last' = f.cur - f.p
  /\ ended' = IF f.p < f.cur THEN ended ELSE closed
  /\ act' = [a |-> "next"]
  /\ UNCHANGED <<closed, pushed, tot>>
Back == \E n \in 0..last :
  /\ act.a = "next"
  /\ p' = p - n /\ last' = 0 /\ ended' = (ended /\ n = 0)
  /\ act' = [a |-> "backr", x |-> n]
  /\ UNCHANGED <<q, closed, cur, pushed, tot>>
Avail == LET f == Fetched IN
  /\ q' = f.q /\ cur' = f.cur /\ p' = f.p /\ last' = 0
  /\ act' = [a |-> "avail"]
  /\ UNCHANGED <<closed, pushed, tot, ended>>
Fin == last' = 0 /\ act' = [a |-> "fin"] /\ UNCHANGED <<q, closed, cur, p, pushed, tot, ended>>
MCNext == Push \/ Close \/ Next0 \/ Back \/ Avail \/ Fin
MCSpec == Init /\ [][MCNext]_<<cv, act>>
Refines == A!SSpec

View == <<cv, act.a = "next">>
Node == [init |-> (act.a = "init"), s |-> <<cv, act.a = "next">>]
Edge == Export => PrintT(ToJson([f |-> Node, t |-> [init |-> FALSE, s |-> <<cv', act'.a = "next">>], a |-> act']))
=============================================================================
