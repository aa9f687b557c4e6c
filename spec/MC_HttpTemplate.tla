-------------------------- MODULE MC_HttpTemplate --------------------------
(* Every string over a small alphabet, up to a bound: the recursive descent  *)
(* accepts exactly the language of the grammar and gives its one reading.    *)
(* Accepted strings and their readings are exported for the replay against   *)
(* the code (what is not exported must be rejected there).                   *)
EXTENDS HttpTemplate, TLC, Json
CONSTANTS MaxLen, Export
VARIABLE s

Alphabet == {SLASH, STAR, LBRACE, RBRACE, EQ, DOT, COLON, 97}

Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s

Agree == LET R == Readings(s) p == Parse(s) IN
  /\ Cardinality(R) <= 1
  /\ p.ok <=> R # {}
  /\ p.ok => p \in R
WellFormed == LET p == Parse(s) IN p.ok =>
  /\ Cardinality({i \in 1..Len(p.segs) : p.segs[i] = SegStars}) <= 1
  /\ \A i \in 1..Len(p.segs) : p.segs[i] # <<>> /\ ~Has(p.segs[i], SLASH)
  /\ ~Has(p.verb, SLASH) /\ ~Has(p.verb, COLON)
  /\ \A k \in 1..Len(p.vars) : p.vars[k].fp # <<>>
Exported == (Export /\ Parse(s).ok) => PrintT(ToJson([t |-> s, obs |-> Parse(s)]))
=============================================================================
