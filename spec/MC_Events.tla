------------------------------ MODULE MC_Events ------------------------------
(* Every short sequence of events and requests for messages, for a list of   *)
(* configurations, in one document or a list of them. Said of the whole      *)
(* history: messages come in order, none in front of its element, errors are *)
(* sound and found. All histories are exported for the code.                 *)
EXTENDS Events, TLC, Json
CONSTANTS MaxOps, Which, Export
VARIABLES x, h, k, told
Ev(e, n, t, v) == [e |-> e, n |-> n, t |-> t, v |-> v]
sS == <<115>>  sN == <<110>>  sB == <<98>>
Conf(str, bp, rej, binds) == [type |-> "M", bp |-> bp, rej |-> rej, ci |-> FALSE, str |-> str, del |-> FALSE, binds |-> binds]
Bound == <<[p |-> <<sS>>, v |-> sB]>>
Confs == <<Conf(FALSE, <<>>, TRUE, Bound), Conf(TRUE, <<STAR>>, TRUE, Bound), Conf(TRUE, sS, FALSE, <<>>),
           Conf(FALSE, <<114, 115>>, FALSE, Bound), Conf(TRUE, <<114, 115>>, FALSE, <<[p |-> <<<<114, 115>>>>, v |-> sB]>>),
           Conf(TRUE, sN, FALSE, <<[p |-> <<sN, <<97>>>>, v |-> sS]>>)>>
Name(n) == IF Depth(x) > Base(x) /\ x.stk[Depth(x)].k = "obj" THEN n ELSE <<>>
CanClose(kind) == \/ Depth(x) > 0 /\ x.stk[Depth(x)].k = kind
                  \/ Misplaced(x, Ev(IF kind = "obj" THEN "eo" ELSE "el", <<>>, "", <<>>))
(* No name twice in an object, no list in a list.                            *)
Fresh(ev) ==
  /\ Depth(x) > Base(x) /\ x.stk[Depth(x)].k = "obj" => \A i \in 1..Len(x.stk[Depth(x)].c) : x.stk[Depth(x)].c[i].n # ev.n
  /\ ev.e = "sl" => ~(Depth(x) > Base(x) /\ x.stk[Depth(x)].k = "arr")
Evs ==
  IF x.done THEN {}
  ELSE {ev \in {Ev("so", Name(sN), "", <<>>), Ev("sl", Name(<<114, 115>>), "", <<>>),
        Ev("v", Name(sS), "str", sB), Ev("v", Name(sS), "str", sS), Ev("v", Name(sB), "bool", TrueW)} : Fresh(ev)}
       \cup (IF CanClose("obj") THEN {Ev("eo", <<>>, "", <<>>)} ELSE {})
       \cup (IF CanClose("arr") THEN {Ev("el", <<>>, "", <<>>)} ELSE {})
MCInit == /\ k \in Which /\ x = Begin(Confs[k]) /\ h = <<>> /\ told = <<>>
MCNext ==
  /\ Len(h) < MaxOps /\ UNCHANGED k
  /\ Len(h) >= 2 => ~(h[Len(h)].a = "next" /\ h[Len(h) - 1].a = "next")
  /\ x.err => h[Len(h)].a = "ev"
  /\ \/ ~x.err /\ \E ev \in Evs : /\ x' \in OnEvent(x, ev)
                        /\ h' = Append(h, [a |-> "ev"] @@ ev) /\ told' = told
     \/ /\ x' = OnNext(x) /\ h' = Append(h, [a |-> "next"])
        /\ told' = IF Ready(x) THEN Append(told, MessageNo(x, x.n + 1)) ELSE told
MCSpec == MCInit /\ [][MCNext]_<<x, h, k, told>>

InOrder == Len(told) = x.n /\ x.n <= Len(x.docs) /\ \A i \in 1..Len(told) : told[i] = MessageNo(x, i) /\ told[i].ok
(* Nothing at fault is behind an x without an error.                         *)
Found == ~x.err => \A i \in 1..Len(x.docs) : MessageNo(x, i).ok
(* An error has a reason: the history without it, closed, does not translate.*)
RECURSIVE Shut(_)
Shut(y) == IF Depth(y) <= Base(y) THEN y ELSE Shut(Shorter(y))
Sound == x.err => \/ Failed(Shut(x))
                  \/ x.c.str /\ ((Depth(x) = 0 /\ ~x.done) \/ Depth(x) = 1)
OnlyFirst == x.c.str /\ Len(x.docs) >= 2 /\ MessageNo(x, 2).ok =>
               MessageNo(x, 2) = Translate(x.c, <<>>, x.docs[2])
Once == ~x.c.str => Len(x.docs) <= 1
Exported == (Export /\ Len(h) > 0 /\ (Len(h) = MaxOps \/ x.err \/ x.done)) => PrintT(ToJson([k |-> k, h |-> h]))
=============================================================================
