----------------------------- MODULE MC_HttpRule -----------------------------
(* Every HTTP rule of up to MaxPatterns patterns, nested in every way, over  *)
(* a few kinds and templates, some of them invalid or the same. Registering  *)
(* it is the same as registering its patterns one by one, in order, up to    *)
(* the first failure.                                                        *)
EXTENDS PathMatcher, Json
CONSTANTS MaxPatterns, Export
VARIABLES rule, fail, done
rv == <<rule, fail, done>>

A == <<SLASH, 97>>  B == <<SLASH, 98>>  Bad == <<97>>
Leaves ==
  {[k |-> k, m |-> <<71, 69, 84>>, t |-> t, b |-> <<STAR>>, add |-> <<>>] :
     k \in {"get", "put", "custom"}, t \in {A, B, Bad}}
  \cup {[k |-> "none", m |-> <<>>, t |-> <<>>, b |-> <<>>, add |-> <<>>]}

RECURSIVE Size(_)
Size(r) == FoldLeft(LAMBDA n, a : n + Size(a), 1, r.add)

(* A rule grows by a leaf added at the end of its right spine, at depth d.   *)
RECURSIVE AddAt(_, _, _), Depth(_)
Depth(r) == IF r.add = <<>> THEN 1 ELSE 1 + Depth(r.add[Len(r.add)])
AddAt(r, d, x) ==
  IF d = 1 THEN [r EXCEPT !.add = Append(@, x)]
  ELSE [r EXCEPT !.add[Len(r.add)] = AddAt(@, d - 1, x)]

MCInit == Init /\ rule \in Leaves /\ fail \in BOOLEAN /\ done = FALSE
MCNext ==
  /\ Size(rule) < MaxPatterns
  /\ \E d \in 1..Depth(rule), x \in Leaves : rule' = AddAt(rule, d, x)
  /\ UNCHANGED <<vars, fail, done>>
MCSpec == MCInit /\ [][MCNext]_<<vars, rv>>

(* The patterns in preorder.                                                 *)
RECURSIVE Flat(_)
Flat(r) == (IF r.k = "none" THEN <<>> ELSE <<r>>)
           \o FoldLeft(LAMBDA acc, a : acc \o Flat(a), <<>>, r.add)
(* One by one: ok until the first failure, nothing behind it.                *)
OneByOne ==
  FoldLeft(LAMBDA acc, p :
             IF ~acc.ok THEN acc
             ELSE RegisterIn(acc.table, fail, RuleMethod(p), p.t, p.b, {}, 1),
           [ok |-> TRUE, table |-> <<>>], Flat(rule))
Whole == RegisterRuleIn(<<>>, fail, rule, {}, 1)
SameAsFlat == Whole = OneByOne
AllGood == (~fail /\ \A i \in 1..Len(Flat(rule)) : Parse(Flat(rule)[i].t).ok) => Whole.ok

Looks == <<[m |-> <<71, 69, 84>>, p |-> A], [m |-> <<71, 69, 84>>, p |-> B],
           [m |-> <<80, 85, 84>>, p |-> A], [m |-> <<80, 85, 84>>, p |-> B]>>
Answer(q) == LET k == Winner(Whole.table, q.m, Request(q.p, {}, FALSE)) IN
             IF k = NoKey \/ (k # NoKey /\ Whole.table[k].n > 1) THEN 0 ELSE 1
Header == (Export /\ rule.k = "none" /\ rule.add = <<>> /\ fail) => PrintT(ToJson([looks |-> Looks]))
Exported == Export => PrintT(ToJson([rule |-> rule, fail |-> fail, ret |-> Whole.ok,
                                     w |-> [i \in 1..4 |-> Answer(Looks[i])]]))
=============================================================================
