----------------------------- MODULE MC_Request -----------------------------
(* Every path over a small alphabet, with different sets of registered       *)
(* verbs: how it is taken apart, and that nothing gets lost on the way.      *)
EXTENDS PathMatcher, Json
CONSTANTS MaxLen, Export
VARIABLES s, cfg
GET == <<71>>
Alphabet == {SLASH, COLON, QMARK, 97, 98}
X == <<SLASH, LBRACE, 120, EQ, STAR, STAR, RBRACE>>
(* Configurations: which verbs have a template, and the option.              *)
VerbSets == <<{}, {<<97>>}, {<<97>>, <<98, 97>>}>>
Add(tab, i, verb) ==
  RegisterIn(tab, FALSE, GET, X \o (IF verb = <<>> THEN <<>> ELSE <<COLON>> \o verb),
             <<>>, {}, i).table
Table(n) == LET V == SetToSeq(VerbSets[n]) IN
  FoldLeft(LAMBDA tab, i : Add(tab, i + 1, V[i]), Add(<<>>, 1, <<>>), [i \in 1..Len(V) |-> i])

MCInit ==
  /\ cfg \in (1..3) \X BOOLEAN
  /\ opt = [spec |-> KeepReserved, plus |-> FALSE, unreg |-> cfg[2], fail |-> FALSE]
  /\ table = Table(cfg[1])
  /\ built = TRUE /\ outB = <<>> /\ outBody = <<>>
  /\ s = <<SLASH>>
MCNext == /\ Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
          /\ UNCHANGED <<vars, cfg>>
MCSpec == MCInit /\ [][MCNext]_<<vars, cfg, s>>

Req == Request(s, Verbs(table), opt.unreg)
Bare == LET q == FirstPos(s, QMARK) IN IF q = 0 THEN s ELSE SubSeq(s, 1, q - 1)
IsSlashes(x) == \A i \in 1..Len(x) : x[i] = SLASH
Whole == <<SLASH>> \o Join(Req.parts, SLASH)

(* Segments, some slashes and the verb make up the path again.               *)
NothingLost ==
  \E n \in 0..Len(s) :
    LET sl == [i \in 1..n |-> SLASH] IN
    \/ Req.verb # <<>> /\ Bare = Whole \o sl \o <<COLON>> \o Req.verb
    \/ Req.verb = <<>> /\ Bare = Whole \o sl
    \/ Req.verb = <<>> /\ Bare = Whole \o sl \o <<COLON>>   \* the empty verb
    \/ Req.parts = <<>> /\ Bare = sl
       /\ Req.verb = <<>>
VerbIsOne ==
  Req.verb # <<>> =>
    /\ ~Has(Req.verb, SLASH) /\ ~Has(Req.verb, COLON)
    /\ opt.unreg \/ Req.verb \in Verbs(table)
(* A registered verb behind the last ':' of the last segment is never left   *)
(* in the path.                                                              *)
VerbNotMissed ==
  \A v \in Verbs(table) :
    (Len(Bare) > Len(v) + 1 /\ SubSeq(Bare, Len(Bare) - Len(v), Len(Bare)) = <<COLON>> \o v)
      => Req.verb = v
NoTrailing == Req.parts = <<>> \/ Req.parts[Len(Req.parts)] # <<>>
Exported == Export => PrintT(ToJson([p |-> s, n |-> cfg[1], u |-> cfg[2],
                                     o |-> Outcome(GET, s, <<>>)]))
Header == (Export /\ s = <<SLASH>>) => PrintT(ToJson([n |-> cfg[1], regs |->
   LET V == SetToSeq(VerbSets[cfg[1]]) IN
   <<X>> \o [i \in 1..Len(V) |-> X \o <<COLON>> \o V[i]]]))
=============================================================================
