--------------------------- MODULE MC_PathMatcher ---------------------------
(* Every set of up to MaxReg templates from a small universe, every request  *)
(* over a small alphabet: the depth-first search of the code finds exactly   *)
(* the most specific template that matches (declared without any search),    *)
(* "more specific" orders all templates that match a request, the order of   *)
(* registration is irrelevant, and a duplicate takes its key out of service. *)
EXTENDS PathMatcher, Json, FiniteSetsExt

CONSTANTS
  Lits,      \* the literal bytes templates are made of
  PartLits,  \* the bytes request segments are made of
  MaxSegs, MaxParts, MaxReg,
  Methods,   \* the methods templates are registered for
  ReqMs,     \* the methods of requests
  VerbSet,   \* the verbs of templates (0: none)
  Unreg,     \* whether unregistered verbs are matched too
  Dups,      \* whether a key may be registered twice
  Export

VARIABLE hist   \* the keys registered, in order (a sequence of numbers)

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
SegAlpha == {<<c>> : c \in Lits} \cup {SegStar, SegStars}
SegSeqs == {s \in SeqsUpTo(SegAlpha, MaxSegs) : OnlyLiteralsBehind(s)}
Verb(v) == IF v = 0 THEN <<>> ELSE <<v>>
KeySet == {[segs |-> s, method |-> <<m>>, verb |-> Verb(v)] :
              s \in SegSeqs, m \in Methods,
              v \in VerbSet}
AllKeys == {k \in KeySet : k.segs # <<>> \/ k.verb = <<>>}
KeySeq == SetToSeq(AllKeys)
NKeys == Len(KeySeq)

Text(k) == <<SLASH>> \o Join(k.segs, SLASH)
           \o (IF k.verb = <<>> THEN <<>> ELSE <<COLON>> \o k.verb)

PartSeqs == {p \in SeqsUpTo({<<c>> : c \in PartLits}, MaxParts) : TRUE}
ReqVerbs == {Verb(v) : v \in VerbSet} \cup {<<122>>}
Path(parts, verb) == <<SLASH>> \o Join(parts, SLASH)
                     \o (IF verb = <<>> THEN <<>> ELSE <<COLON>> \o verb)
ReqMethods == {<<m>> : m \in ReqMs}
Paths == SetToSeq({Path(p, v) : p \in PartSeqs, v \in IF VerbSet = {0} THEN {<<>>} ELSE ReqVerbs})
ReqSeq == LET X == {[m |-> m, p |-> Paths[i]] : m \in ReqMethods, i \in 1..Len(Paths)}
          IN SetToSeq(X)

MCInit == Init /\ hist = <<>>
MCRegister(i) ==
  /\ Len(hist) < MaxReg
  /\ IF hist = <<>> THEN TRUE ELSE IF Dups THEN hist[Len(hist)] <= i ELSE hist[Len(hist)] < i
  /\ LET k == KeySeq[i] IN Register(k.method, Text(k), <<>>, {}, i, TRUE)
  /\ hist' = Append(hist, i)
MCNext == \E i \in 1..NKeys : MCRegister(i)
MCInitU == /\ opt = [spec |-> KeepReserved, plus |-> FALSE, unreg |-> Unreg, fail |-> FALSE]
           /\ table = <<>> /\ built = FALSE /\ outB = <<>> /\ outBody = <<>>
           /\ hist = <<>>
MCSpec == MCInitU /\ [][MCNext]_<<vars, hist>>
View == hist

Req(rq) == Request(rq.p, Verbs(table), Unreg)

SearchFindsWinner ==
  \A i \in 1..Len(ReqSeq) : LET rq == ReqSeq[i] req == Req(rq) IN
    Search(table, <<>>, req.parts, rq.m, req.verb) = Winner(table, rq.m, req)

(* The preference is a strict total order on the templates that match.       *)
OrderIsTotal ==
  \A i \in 1..Len(ReqSeq) : LET rq == ReqSeq[i] C == Candidates(table, rq.m, Req(rq)) IN
    \A k, l \in C : k # l => (Before(k, l, rq.m) <=> ~Before(l, k, rq.m))

(* A longer table never answers for fewer requests, and a winner changes     *)
(* only in favour of the template just added.                                *)
Monotone ==
  Len(hist) > 0 =>
    LET k0 == KeySeq[hist[Len(hist)]]
        tab0 == [k \in DOMAIN table \ {k0} |-> table[k]]
    IN \A i \in 1..Len(ReqSeq) : LET rq == ReqSeq[i] req == Req(rq) IN
         Winner(table, rq.m, req) \in {k0, Winner(tab0, rq.m, req)}

RoundTrip == \A i \in 1..Len(hist) : KeySeq[hist[i]] \in DOMAIN table

Answer(rq) == LET k == Winner(table, rq.m, Req(rq)) IN
  IF k = NoKey \/ (k # NoKey /\ table[k].n > 1) THEN 0 ELSE table[k].id
Header == (hist = <<>> /\ Export) =>
  PrintT(ToJson([keys |-> [i \in 1..NKeys |-> [m |-> KeySeq[i].method, t |-> Text(KeySeq[i])]],
                 reqs |-> ReqSeq]))
Exported == Export => PrintT(ToJson([h |-> hist,
                              w |-> [i \in 1..Len(ReqSeq) |-> Answer(ReqSeq[i])]]))
=============================================================================
