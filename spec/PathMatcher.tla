----------------------------- MODULE PathMatcher -----------------------------
(* Routing of HTTP requests to methods (path_matcher.h, path_matcher_node.cc).*)
(* State: the options, the table of registered templates, whether the        *)
(* matcher is built, and the caller's output arguments. Actions: SetOption,  *)
(* Register, RegisterRule, Build, Lookup.                                    *)
EXTENDS Percent, Routes

VARIABLES
  opt,      \* [spec, plus, unreg, fail]
  table,    \* key -> entry; key = [segs, method, verb]
  built,
  outB,     \* the caller's list of bindings
  outBody   \* the caller's body field path

vars == <<opt, table, built, outB, outBody>>

Init ==
  /\ opt = [spec |-> KeepReserved, plus |-> FALSE, unreg |-> FALSE, fail |-> FALSE]
  /\ table = <<>>
  /\ built = FALSE
  /\ outB = <<>> /\ outBody = <<>>

(***************************************************************************)
(* Registration                                                              *)
(***************************************************************************)
Key(method, ht) == [segs |-> ht.segs, method |-> method, verb |-> ht.verb]
Verbs(tab) == {k.verb : k \in DOMAIN tab} \ {<<>>}

(* The effect of one registration on the table, and what it reports.         *)
RegisterIn(tab, fail, method, tmpl, body, sys, id) ==
  LET ht == Parse(tmpl) IN
  IF ~ht.ok THEN [ok |-> FALSE, table |-> tab]
  ELSE LET k == Key(method, ht) IN
       IF k \in DOMAIN tab
       THEN [ok |-> ~fail, table |-> [tab EXCEPT ![k].n = @ + 1]]
       ELSE [ok |-> TRUE,
             table |-> (k :> [n |-> 1, id |-> id, vars |-> ht.vars,
                              body |-> body, sys |-> sys]) @@ tab]

Register(method, tmpl, body, sys, id, ret) ==
  LET r == RegisterIn(table, opt.fail, method, tmpl, body, sys, id) IN
  /\ ~built
  /\ ret = r.ok
  /\ table' = r.table
  /\ UNCHANGED <<opt, built, outB, outBody>>

(* A google.api.HttpRule: [k, m, t, b, add]. The pattern named by k, then    *)
(* the additional bindings in order, stopping at the first failure.          *)
RuleMethod(r) ==
  CASE r.k = "get"    -> <<71, 69, 84>>
    [] r.k = "put"    -> <<80, 85, 84>>
    [] r.k = "post"   -> <<80, 79, 83, 84>>
    [] r.k = "delete" -> <<68, 69, 76, 69, 84, 69>>
    [] r.k = "patch"  -> <<80, 65, 84, 67, 72>>
    [] r.k = "custom" -> r.m

RECURSIVE RegisterRuleIn(_, _, _, _, _)
RegisterRuleIn(tab, fail, r, sys, id) ==
  LET own == IF r.k = "none" THEN [ok |-> TRUE, table |-> tab]
             ELSE RegisterIn(tab, fail, RuleMethod(r), r.t, r.b, sys, id)
  IN FoldLeft(LAMBDA acc, a :
                IF acc.ok THEN RegisterRuleIn(acc.table, fail, a, sys, id) ELSE acc,
              own, r.add)

RegisterRule(r, sys, id, ret) ==
  LET x == RegisterRuleIn(table, opt.fail, r, sys, id) IN
  /\ ~built
  /\ ret = x.ok
  /\ table' = x.table
  /\ UNCHANGED <<opt, built, outB, outBody>>

SetOption(o, v) ==
  /\ ~built
  /\ opt' = [opt EXCEPT ![o] = v]
  /\ UNCHANGED <<table, built, outB, outBody>>

Build == ~built /\ built' = TRUE /\ UNCHANGED <<opt, table, outB, outBody>>

(***************************************************************************)
(* The request: its verb and its segments                                    *)
(***************************************************************************)
Request(path, verbs, unreg) ==
  LET q == FirstPos(path, QMARK)
      p == IF q = 0 THEN path ELSE SubSeq(path, 1, q - 1)
      c == LastPos(p, COLON)
      sl == LastPos(p, SLASH)
      cand == SubSeq(p, c + 1, Len(p))
      hasVerb == c # 0 /\ sl # 0 /\ c > sl /\ (unreg \/ cand \in verbs)
      rest == IF hasVerb THEN SubSeq(p, 1, c - 1) ELSE p
  IN [verb |-> IF hasVerb THEN cand ELSE <<>>,
      parts |-> IF rest = <<>> THEN <<>>
                ELSE DropTrailingEmpty(Split(Tail(rest), SLASH))]

(***************************************************************************)
(* Bindings                                                                  *)
(***************************************************************************)
Abs(k, n) == IF k >= 0 THEN k ELSE n + k + 1

PathBinding(v, parts, mode) ==
  LET a == Abs(v.s, Len(parts))
      b == Abs(v.e, Len(parts))
      multi == v.w \/ b - a > 1
      m == IF multi THEN mode ELSE KeepNone
  IN [f |-> v.fp,
      v |-> Join([i \in 1..(b - a) |-> Decode(parts[a + i], m, FALSE)], SLASH)]

QueryBindings(query, sys, plus) ==
  LET ps == Split(query, AMP)
      Name(p) == SubSeq(p, 1, FirstPos(p, EQ) - 1)
      Wanted(p) == FirstPos(p, EQ) > 1 /\ Name(p) \notin sys
      ws == SelectSeq(ps, Wanted)
  IN [i \in 1..Len(ws) |->
        [f |-> Split(Name(ws[i]), DOT),
         v |-> Decode(SubSeq(ws[i], FirstPos(ws[i], EQ) + 1, Len(ws[i])),
                      KeepNone, plus)]]

Bindings(entry, parts, query) ==
  [i \in 1..Len(entry.vars) |-> PathBinding(entry.vars[i], parts, opt.spec)]
  \o QueryBindings(query, entry.sys, opt.plus)

(* What a lookup gives: 0 if nothing is to be called.                        *)
Outcome(method, path, query) ==
  LET req == Request(path, Verbs(table), opt.unreg)
      k == Winner(table, method, req)
  IN IF k = NoKey \/ (k # NoKey /\ table[k].n > 1)
     THEN [r |-> 0, b |-> <<>>, body |-> <<>>]
     ELSE [r |-> table[k].id, b |-> Bindings(table[k], req.parts, query),
           body |-> table[k].body]

(* wantB, wantBody: whether the caller passed the output argument.           *)
Lookup(method, path, query, wantB, wantBody, ret, b, body) ==
  LET o == Outcome(method, path, query) IN
  /\ built
  /\ ret = o.r
  /\ outB' = (IF o.r # 0 /\ wantB THEN o.b ELSE outB)
  /\ outBody' = (IF o.r # 0 /\ wantBody THEN o.body ELSE outBody)
  /\ b = outB' /\ body = outBody'
  /\ UNCHANGED <<opt, table, built>>
=============================================================================
