------------------------- MODULE Trace_PathMatcher -------------------------
(* Recorded sessions of a builder and the matcher built from it. Which       *)
(* observations are judged depends on ASPECT, so that every property is      *)
(* decided on its own observations: "reg" (results of registrations),        *)
(* "route" (which method a lookup gives), "path" (bindings of path           *)
(* variables, given the method), "query" (bindings of query parameters,      *)
(* given the method), "verb" (method and path bindings), "pure" (that a      *)
(* lookup is a function of the request, whichever it is, and what it does to *)
(* the output arguments), "out" (everything).                                *)
EXTENDS PathMatcher, Trace
VARIABLES l, memo   \* memo: request -> what it gave the first time
Aspect == IOEnv.ASPECT
All == Aspect = "out"

TInit == Init /\ l = 1 /\ memo = <<>>

Opt(o, v) == IF o = "spec" THEN v ELSE v # 0

TStart ==
  /\ opt' = [spec |-> KeepReserved, plus |-> FALSE, unreg |-> FALSE, fail |-> FALSE]
  /\ table' = <<>> /\ built' = FALSE /\ outB' = <<>> /\ outBody' = <<>>

TRegister(e) ==
  LET r == RegisterIn(table, opt.fail, e.m, e.t, e.b, SetOf(e.sys), e.id) IN
  Register(e.m, e.t, e.b, SetOf(e.sys), e.id,
           IF All \/ Aspect = "reg" THEN e.o.r ELSE r.ok)
TRule(e) ==
  LET r == RegisterRuleIn(table, opt.fail, e.rule, SetOf(e.sys), e.id) IN
  RegisterRule(e.rule, SetOf(e.sys), e.id, IF All \/ Aspect = "reg" THEN e.o.r ELSE r.ok)

Chosen(id) == CHOOSE k \in DOMAIN table : table[k].id = id

(* "pure": an outcome that is consistent with what was seen before, and that *)
(* is that of some registration.                                             *)
Plausible(o) ==
  \/ o = [r |-> 0, b |-> <<>>, body |-> <<>>]
  \/ \E k \in DOMAIN table : /\ table[k].id = o.r /\ table[k].body = o.body
                            /\ Len(o.b) >= Len(table[k].vars)
                            /\ \A i \in 1..Len(table[k].vars) : o.b[i].f = table[k].vars[i].fp
Consistent(key, o) == Plausible(o) /\ (key \in DOMAIN memo => memo[key] = o)
PureLookup(e) ==
  LET key == <<e.m, e.p, e.q>>
      known == key \in DOMAIN memo
      full == e.v = 0
      o == IF known THEN memo[key]
           ELSE IF e.o.r = 0 THEN [r |-> 0, b |-> <<>>, body |-> <<>>]
           ELSE [r |-> e.o.r, b |-> e.o.b, body |-> e.o.body]
  IN /\ built
     /\ e.o.r = o.r
     /\ (known \/ full \/ e.o.r = 0) =>
          /\ Plausible(o)
          /\ outB' = (IF o.r # 0 /\ e.v \in {0, 3} THEN o.b ELSE outB)
          /\ outBody' = (IF o.r # 0 /\ e.v \in {0, 2} THEN o.body ELSE outBody)
     /\ (~known /\ ~full /\ e.o.r # 0) =>
          /\ outB' = (IF e.v = 3 THEN e.o.b ELSE outB)
          /\ outBody' = (IF e.v = 2 THEN e.o.body ELSE outBody)
     /\ e.o.b = outB' /\ e.o.body = outBody'
     /\ memo' = IF known \/ ~(full \/ e.o.r = 0) THEN memo ELSE (key :> o) @@ memo
     /\ UNCHANGED <<opt, table, built>>
PureConc(e) ==
  LET Rq(i) == <<e.reqs[i].m, e.reqs[i].p, e.reqs[i].q>> IN
  /\ built
  /\ Len(e.o.res) = Len(e.reqs)
  /\ \A i \in 1..Len(e.reqs) : Len(e.o.res[i]) = 1 /\ Consistent(Rq(i), e.o.res[i][1])
  /\ memo' = [k \in {Rq(i) : i \in 1..Len(e.reqs)} |->
                e.o.res[CHOOSE i \in 1..Len(e.reqs) : Rq(i) = k][1]] @@ memo
  /\ UNCHANGED vars

TLookup(e) ==
  IF All
  THEN Lookup(e.m, e.p, e.q, e.v \in {0, 3}, e.v \in {0, 2}, e.o.r, e.o.b, e.o.body)
  ELSE LET o == Outcome(e.m, e.p, e.q) IN
       /\ built
       /\ Aspect \in {"route", "verb"} => e.o.r = o.r
       /\ (Aspect \in {"path", "query", "verb"} /\ e.o.r # 0 /\ e.v \in {0, 3}) =>
            LET t == table[Chosen(e.o.r)]
                n == Len(t.vars)
                all == Bindings(t, Request(e.p, Verbs(table), opt.unreg).parts, e.q)
            IN IF Aspect \in {"path", "verb"}
               THEN /\ Len(e.o.b) >= n
                    /\ SubSeq(e.o.b, 1, n) = SubSeq(all, 1, n)
               ELSE SubSeq(e.o.b, n + 1, Len(e.o.b)) = SubSeq(all, n + 1, Len(all))
       /\ UNCHANGED vars

(* Concurrent lookups: each request has one outcome, whatever ran beside it. *)
TConc(e) ==
  /\ built
  /\ Len(e.o.res) = Len(e.reqs)
  /\ \A i \in 1..Len(e.reqs) :
       e.o.res[i] = <<Outcome(e.reqs[i].m, e.reqs[i].p, e.reqs[i].q)>>
  /\ UNCHANGED vars

TNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l]
         M(A) == A /\ UNCHANGED memo
     IN
     CASE e.a = "start" -> TStart /\ memo' = <<>>
       [] e.a = "opt"   -> M(SetOption(e.o1, Opt(e.o1, e.v)))
       [] e.a = "reg"   -> M(TRegister(e))
       [] e.a = "rule"  -> M(TRule(e))
       [] e.a = "build" -> M(Build)
       [] e.a = "look"  -> IF Aspect = "pure" THEN PureLookup(e) ELSE M(TLookup(e))
       [] e.a = "conc"  -> IF Aspect = "pure" THEN PureConc(e) ELSE M(TConc(e))
Spec == TInit /\ [][TNext]_<<vars, l, memo>>
=============================================================================
