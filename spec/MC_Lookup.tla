------------------------------ MODULE MC_Lookup ------------------------------
(* Every history of up to MaxLooks lookups over a few requests with every    *)
(* choice of output arguments, on one table: what a lookup answers depends   *)
(* on the request alone, and the output arguments are touched only by        *)
(* lookups that succeed and were given them.                                 *)
EXTENDS PathMatcher, Json
CONSTANTS MaxLooks, Export
VARIABLE steps
G == <<71>>
Regs == <<[t |-> <<SLASH, LBRACE, 120, RBRACE>>, b |-> <<STAR>>],
          [t |-> <<SLASH, 97, SLASH, LBRACE, 121, EQ, STAR, STAR, RBRACE>>, b |-> <<98>>],
          [t |-> <<SLASH, 98>>, b |-> <<>>]>>
Reqs == <<[p |-> <<SLASH, 99>>, q |-> <<>>],
          [p |-> <<SLASH, 97, SLASH, 98, SLASH, 99>>, q |-> <<122, EQ, 49>>],
          [p |-> <<SLASH, 98>>, q |-> <<>>],
          [p |-> <<SLASH, 99, SLASH, 99>>, q |-> <<122, EQ, 49>>]>>
Tab == FoldLeft(LAMBDA tab, i : RegisterIn(tab, FALSE, G, Regs[i].t, Regs[i].b, {}, i).table,
                <<>>, <<1, 2, 3>>)
MCInit ==
  /\ opt = [spec |-> KeepReserved, plus |-> FALSE, unreg |-> FALSE, fail |-> FALSE]
  /\ table = Tab /\ built = TRUE /\ outB = <<>> /\ outBody = <<>> /\ steps = <<>>
(* v: 0 all arguments, 1 the two-argument form, 2 no bindings, 3 no body,    *)
(* 4 neither.                                                                *)
Do(i, v) ==
  LET q == IF v = 1 THEN <<>> ELSE Reqs[i].q
      o == Outcome(G, Reqs[i].p, q) IN
  /\ Len(steps) < MaxLooks
  /\ Lookup(G, Reqs[i].p, q, v \in {0, 3}, v \in {0, 2}, o.r, outB', outBody')
  /\ steps' = Append(steps, [q |-> i, v |-> v, o |-> [r |-> o.r, b |-> outB', body |-> outBody']])
MCNext == \E i \in 1..Len(Reqs), v \in 0..4 : Do(i, v)
MCSpec == MCInit /\ [][MCNext]_<<vars, steps>>

(* The same request, the same answer, whatever lies between.                 *)
Repeatable == \A i, j \in 1..Len(steps) : steps[i].q = steps[j].q => steps[i].o.r = steps[j].o.r
Untouched ==
  \A i \in 2..Len(steps) :
    (steps[i].o.r = 0 \/ steps[i].v \in {1, 4}) =>
       /\ steps[i].o.b = steps[i - 1].o.b /\ steps[i].o.body = steps[i - 1].o.body
Replaced ==
  \A i, j \in 1..Len(steps) :
    (steps[i].q = steps[j].q /\ steps[i].o.r # 0 /\ steps[i].v = 0 /\ steps[j].v = 0)
       => steps[i].o = steps[j].o
Header == (Export /\ steps = <<>>) => PrintT(ToJson([regs |-> Regs, reqs |-> Reqs]))
Exported == (Export /\ Len(steps) = MaxLooks) => PrintT(ToJson([steps |-> steps]))
=============================================================================
