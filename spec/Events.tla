------------------------------- MODULE Events -------------------------------
(* Translating documents that come as events: one document to one message    *)
(* (request_message_translator.cc), or the elements of a list to a message   *)
(* each (request_stream_translator.cc).                                      *)
(*                                                                           *)
(* An event is [e, n, t, v] as in Writers. The state x is a record:          *)
(*   c     the configuration: [type, bp, rej, ci, str, del, binds]           *)
(*   stk   the objects and lists that are open, outermost first; with c.str  *)
(*         the outermost is the list of the messages                         *)
(*   docs  the elements that are complete, in order                          *)
(*   n     how many messages have been handed out                            *)
(*   done  the document, or the list, has been closed                        *)
(*   err   an error has been reported                                        *)
EXTENDS Weave

Begin(c) == [c |-> c, stk |-> <<>>, docs |-> <<>>, n |-> 0, done |-> FALSE, err |-> FALSE]

(* Bytes as text: base64.                                                    *)
Alphabet(i) == IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4
               ELSE IF i = 62 THEN 43 ELSE 47
RECURSIVE Encode64(_)
Encode64(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET b(i) == IF i <= Len(s) THEN s[i] ELSE 0
           n == b(1) * 65536 + b(2) * 256 + b(3)
           d(k) == Alphabet((n \div (64 ^ (3 - k))) % 64)
       IN IF Len(s) = 1 THEN <<d(0), d(1), EQ, EQ>>
          ELSE IF Len(s) = 2 THEN <<d(0), d(1), d(2), EQ>>
          ELSE <<d(0), d(1), d(2), d(3)>> \o Encode64(SubSeq(s, 4, Len(s)))

(* A value of the given type, as a value in JSON.                            *)
AsNode(ev) ==
  CASE ev.t = "nul" -> Null
    [] ev.t = "bool" -> Node(IF ev.v = TrueW THEN "true" ELSE "false", <<>>, <<>>)
    [] ev.t = "str" -> Node("str", ev.v, <<>>)
    [] ev.t = "byt" -> Node("str", Encode64(ev.v), <<>>)
    [] OTHER -> Node("num", ev.v, <<>>)

Base(x) == IF x.c.str THEN 1 ELSE 0
Depth(x) == Len(x.stk)
NewOpen(k, n) == [k |-> k, n |-> n, c |-> <<>>]
(* A value, complete, under its name where the document is now.              *)
PutIn(x, n, v) ==
  IF Depth(x) > Base(x) THEN [x EXCEPT !.stk[Depth(x)].c = Append(@, Child(n, v))]
  ELSE [x EXCEPT !.docs = Append(@, v), !.done = ~x.c.str]
Shorter(x) ==
  LET t == x.stk[Depth(x)]
      y == [x EXCEPT !.stk = SubSeq(@, 1, Depth(x) - 1)]
  IN IF x.c.str /\ Depth(x) = 1 THEN [y EXCEPT !.done = TRUE]
     ELSE PutIn(y, t.n, Node(t.k, <<>>, t.c))

(* Whether the event can not come here in a list of messages.                *)
Misplaced(x, ev) == x.c.str /\ \/ Depth(x) = 0 /\ ev.e # "sl"
                               \/ Depth(x) = 1 /\ ev.e = "eo"
Took(x, ev) ==
  CASE ev.e = "so" -> [x EXCEPT !.stk = Append(@, NewOpen("obj", ev.n))]
    [] ev.e = "sl" -> [x EXCEPT !.stk = Append(@, NewOpen("arr", ev.n))]
    [] ev.e \in {"eo", "el"} -> Shorter(x)
    [] ev.e = "v" -> PutIn(x, ev.n, AsNode(ev))

MessageNo(x, i) == Translate(x.c, IF i = 1 THEN x.c.binds ELSE <<>>, x.docs[i])
(* What there is of the element that is open, as if it were closed now.      *)
RECURSIVE Rolled(_, _)
Rolled(stk, acc) ==
  IF stk = <<>> THEN acc
  ELSE LET t == stk[Len(stk)] IN
       Rolled(SubSeq(stk, 1, Len(stk) - 1), <<Child(t.n, Node(t.k, <<>>, t.c \o acc))>>)
OpenOne(x) == LET r == Rolled(SubSeq(x.stk, Base(x) + 1, Depth(x)), <<>>)
             IN IF r = <<>> THEN <<>> ELSE <<r[1].v>>
Failed(x) == \E i \in 1..Len(x.docs) : ~MessageNo(x, i).ok
Doubtful(x) == LET o == OpenOne(x) IN
  o # <<>> /\ ~Translate(x.c, IF x.docs = <<>> THEN x.c.binds ELSE <<>>, o[1]).ok

(* What may become of it on an event. An error is reported when an element   *)
(* is complete at the latest.                                                *)
OnEvent(x, ev) ==
  IF x.err THEN {x}
  ELSE IF Misplaced(x, ev) THEN {[x EXCEPT !.err = TRUE]}
  ELSE LET y == Took(x, ev) IN
       IF Failed(y) THEN {[y EXCEPT !.err = TRUE]}
       ELSE {y} \cup (IF Doubtful(y) THEN {[y EXCEPT !.err = TRUE]} ELSE {})
(* The messages that can be handed out: those in front of the one at fault.  *)
Good(x) == LET B == {i \in 1..Len(x.docs) : ~MessageNo(x, i).ok}
           IN IF B = {} THEN Len(x.docs) ELSE (CHOOSE i \in B : \A j \in B : i <= j) - 1
Ready(x) == x.n < Good(x)
OnNext(x) == IF Ready(x) THEN [x EXCEPT !.n = @ + 1] ELSE x
Finished(x) == x.err \/ (x.done /\ x.n = Len(x.docs))
Code(x) == IF x.err THEN 3 ELSE 0
Header(size) == <<0, size[1] % 256, size[2] \div 65536, (size[2] \div 256) % 256, size[2] % 256>>
=============================================================================
