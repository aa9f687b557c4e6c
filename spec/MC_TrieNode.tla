----------------------------- MODULE MC_TrieNode -----------------------------
(* All histories of up to MaxIns insertions with at most one clone between   *)
(* them: the search finds the most specific path in every trie, and a trie   *)
(* is changed by nothing but insertions into it.                             *)
EXTENDS TrieNode, Json, FiniteSetsExt
CONSTANTS MaxIns, Export
VARIABLE hist

A == <<97>>
Two == {<<x, y>> : x \in {A, SegParam, SegStar}, y \in {A, SegParam, SegStar, SegStars}}
       \cup {<<SegStars, A>>}
Paths == {<<>>} \cup {<<x>> : x \in {A, SegParam, SegStar, SegStars}} \cup Two
Keys == {[segs |-> p, method |-> <<71>>, verb |-> <<>>] : p \in Paths}
        \cup {[segs |-> p, method |-> AnyMethod, verb |-> v] :
                 p \in {<<A>>, <<SegStars>>}, v \in {<<>>, <<118>>}}
KeySeq == SetToSeq(Keys)
Lk(p, m, v) == [p |-> p, m |-> m, v |-> v]
Reqs == SetToSeq({Lk(p, <<71>>, <<>>) : p \in UNION {[1..n -> {A, <<98>>}] : n \in 0..3}}
        \cup {Lk(p, m, v) : p \in {<<>>, <<A>>, <<SegStar>>, <<SegStars>>, <<A, SegStar>>, <<A, A>>},
                             m \in {<<71>>, <<72>>}, v \in {<<>>, <<118>>}})

Ins == Cardinality({j \in 1..Len(hist) : hist[j].a = "ins"})
MCInit == NInit /\ hist = <<>>
MCInsert(i, x, mark) ==
  LET k == KeySeq[x]
      ret == k \notin DOMAIN tries[i]
  IN /\ Ins < MaxIns
     /\ mark = FALSE => ~ret      \* marking only matters for a duplicate
     /\ Insert(i, k, Len(hist) + 1, mark, ret)
     /\ hist' = Append(hist, [a |-> "ins", n |-> i, p |-> k.segs, m |-> k.method, v |-> k.verb,
                              d |-> Len(hist) + 1, mark |-> IF mark THEN 1 ELSE 0, r |-> ret])
MCClone ==
  /\ Len(tries) = 1 /\ hist # <<>>
  /\ Clone(1)
  /\ hist' = Append(hist, [a |-> "clone", n |-> 1, p |-> <<>>, m |-> <<>>, v |-> <<>>, d |-> 0, mark |-> 0, r |-> TRUE])
MCNext == MCClone \/ \E i \in 1..Len(tries), x \in 1..Len(KeySeq), mark \in BOOLEAN : MCInsert(i, x, mark)
MCSpec == MCInit /\ [][MCNext]_<<tries, hist>>

SearchFindsWinner ==
  \A i \in 1..Len(tries), j \in 1..Len(Reqs) : LET rq == Reqs[j] IN
    Search(tries[i], <<>>, rq.p, rq.m, rq.v) = Winner(tries[i], rq.m, [verb |-> rq.v, parts |-> rq.p])
(* One insertion changes one trie.                                           *)
Independent == [][\A i \in 1..Len(tries) :
  tries'[i] # tries[i] => Len(hist') > Len(hist) /\ hist'[Len(hist')].a = "ins" /\ hist'[Len(hist')].n = i]_tries
ClonesAlike == (hist # <<>> /\ hist[Len(hist)].a = "clone") => tries[1] = tries[2]

Header == (hist = <<>> /\ Export) => PrintT(ToJson([reqs |-> Reqs]))
Exported == (Export /\ hist # <<>>) => PrintT(ToJson([h |-> hist,
  w |-> [i \in 1..Len(tries) |-> [j \in 1..Len(Reqs) |->
          LET x == NodeAnswer(tries[i], Reqs[j].m, [verb |-> Reqs[j].v, parts |-> Reqs[j].p])
          IN IF x.dup THEN -x.d ELSE x.d]]]))
=============================================================================
