------------------------------ MODULE TrieNode ------------------------------
(* The trie itself (path_matcher_node.h): paths are inserted with a method   *)
(* and a datum, looked up, and whole tries cloned. Unlike a matcher, a node  *)
(* answers with the datum inserted last and says whether there were several. *)
EXTENDS Routes

VARIABLE tries    \* a sequence of tables: key -> [d, dup]; <<>> for one that is gone

NInit == tries = << <<>> >>

Insert(i, k, d, mark, ret) ==
  /\ i \in DOMAIN tries
  /\ ret = (k \notin DOMAIN tries[i])
  /\ tries' = [tries EXCEPT ![i] =
       IF ret THEN (k :> [d |-> d, dup |-> FALSE]) @@ @
       ELSE [@ EXCEPT ![k] = [d |-> d, dup |-> @.dup \/ mark]]]

(* A clone answers like the original, and from then on they go their own     *)
(* ways; it does not need the original any more.                             *)
Clone(i) == i \in DOMAIN tries /\ tries' = Append(tries, tries[i])
Drop(i)  == i \in DOMAIN tries /\ tries' = [tries EXCEPT ![i] = <<>>]

NodeAnswer(tab, method, req) ==
  LET k == Winner(tab, method, req)
  IN IF k = NoKey THEN [d |-> 0, dup |-> FALSE] ELSE tab[k]
NodeLookup(i, method, verb, parts, ans) ==
  /\ i \in DOMAIN tries
  /\ ans = NodeAnswer(tries[i], method, [verb |-> verb, parts |-> parts])
  /\ UNCHANGED tries
=============================================================================
