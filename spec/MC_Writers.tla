------------------------------ MODULE MC_Writers ------------------------------
(* Small documents event by event, through a prefix and with up to two       *)
(* bindings. Ref is one way to put events out; what it must come to is said  *)
(* of the finished document, without weaving; and what Writers allows of     *)
(* each event has to include it. Every run is exported for the code.         *)
EXTENDS Writers, TLC, Json
CONSTANTS MaxEv, MaxBinds, Export
VARIABLES w, d, pre, binds, inp, out, unmet
sA == <<97>>  sN == <<110>>  sR == <<114>>  one == <<49>>  two == <<50>>  seven == <<55>>
F(n, r) == [n |-> n, j |-> n \o n, rep |-> r]
Fa == F(sA, FALSE)  Fn == F(sN, FALSE)  Fr == F(sR, TRUE)
Paths == {<<Fa>>, <<Fr>>, <<Fn, Fa>>, <<Fn, Fr>>, <<Fn, Fn, Fa>>}
Binds == {[p |-> p, v |-> v] : p \in Paths, v \in {one, two}}
BindSeqs == UNION {[1..k -> Binds] : k \in 0..MaxBinds}
Tops == [x \in {<<>>, <<sN>>, <<sN, sN>>} |-> {So(<<>>)}]
        @@ [x \in {<<sA>>, <<sN, sA>>} |-> {V(<<>>, "i32", one), V(<<>>, "nul", <<>>)}]
        @@ [x \in {<<sR>>, <<sN, sR>>} |-> {V(<<>>, "str", seven), Sl(<<>>)}]

(* One way to put out what is left for the message at p.                     *)
RECURSIVE Tree(_, _)
RECURSIVE Subs(_, _, _)
Tree(p, bs) ==
  LET Leaf(b) == Len(b.p) = Len(p) + 1
      Deep(b) == ~Leaf(b)
      ls == SelectSeq(bs, Leaf)
  IN [i \in 1..Len(ls) |-> V(ls[i].p[Len(p) + 1].n, "str", ls[i].v)] \o Subs(p, SelectSeq(bs, Deep), {})
Subs(p, bs, seen) ==
  IF bs = <<>> THEN <<>>
  ELSE LET f == bs[1].p[Len(p) + 1]
           Same(b) == b.p[Len(p) + 1] = f
           Other(b) == ~Same(b)
       IN <<So(f.n)>> \o Tree(Append(p, f), SelectSeq(bs, Same)) \o <<Eo>> \o Subs(p, SelectSeq(bs, Other), seen)
RefOut(x, ev) ==
  CASE ev.e = "eo" -> LET Mine(b) == Here(x, b) IN Tree(Top(x).p, SelectSeq(x.pend, Mine)) \o <<ev>>
    [] ev.e = "v" /\ ev.t # "nul" ->
         LET Rep(b) == Bound(x, ev.n, b) /\ IsRep(b)
             r == SelectSeq(x.pend, Rep)
         IN [i \in 1..Len(r) |-> V(ev.n, "str", r[i].v)] \o <<ev>>
    [] OTHER -> <<ev>>
(* The same through the specification: what it allows, with this output.     *)
RefNext(x, ev) == {y \in WStep(x, ev, RefOut(x, ev), TRUE) : y.n = Len(RefOut(x, ev))}
RECURSIVE RefRun(_, _)
RefRun(x, evs) ==     \* [w, out, ok]
  IF evs = <<>> THEN [w |-> x, out |-> <<>>, ok |-> TRUE]
  ELSE LET S == RefNext(x, Head(evs)) IN
       IF S = {} THEN [w |-> x, out |-> RefOut(x, Head(evs)), ok |-> FALSE]
       ELSE LET r == RefRun((CHOOSE y \in S : TRUE).w, Tail(evs))
            IN [r EXCEPT !.out = RefOut(x, Head(evs)) \o @]

(* The input: a document, names in an object once each.                      *)
RECURSIVE Open(_, _)
Open(st, evs) ==      \* the objects and lists open, with the names seen in them
  IF evs = <<>> THEN st
  ELSE LET e == Head(evs)
           k == Len(st)
           named == IF k = 0 THEN st ELSE [st EXCEPT ![k].names = @ \cup {e.n}]
       IN Open(IF Closes(e) THEN Pop(st)
               ELSE IF Opens(e) THEN Append(named, [obj |-> e.e = "so", names |-> {}]) ELSE named, Tail(evs))
Now == Open(<<>>, inp)
Next1 ==
  IF inp = <<>> THEN Tops[pre]
  ELSE IF Now = <<>> THEN {}
  ELSE LET o == Now[Len(Now)] IN
       {IF o.obj THEN Eo ELSE El} \cup
       (IF Len(inp) >= MaxEv - Len(Now) THEN {}
        ELSE IF o.obj
        THEN {e \in {V(sA, "i32", one), V(sA, "nul", <<>>), V(sR, "str", seven)} \cup
                    (IF Len(inp) < MaxEv - Len(Now) - 1 THEN {So(sN), Sl(sR)} ELSE {}) : e.n \notin o.names}
        ELSE {V(<<>>, "str", seven)} \cup (IF Len(inp) < MaxEv - Len(Now) - 1 THEN {So(<<>>)} ELSE {}))

MCInit == /\ pre \in DOMAIN Tops /\ binds \in BindSeqs
          /\ w = WInit(binds) /\ d = 0 /\ inp = <<>> /\ out = <<>> /\ unmet = FALSE
MCNext == \E ev \in Next1 :
  LET r == RefRun(w, Prefixed(pre, d, ev)) IN
  /\ inp' = Append(inp, ev) /\ d' = Deeper(d, ev)
  /\ w' = r.w /\ out' = out \o r.out /\ unmet' = ~r.ok
  /\ UNCHANGED <<pre, binds>>
MCSpec == MCInit /\ [][MCNext]_<<w, d, pre, binds, inp, out, unmet>>

Allowed == ~unmet
Done == inp # <<>> /\ Now = <<>>
(* The leaves of a stream of events, each with its path; a list on the way   *)
(* shows as <<0>>.                                                           *)
RECURSIVE Leaves(_, _)
Leaves(p, evs) ==
  IF evs = <<>> THEN <<>>
  ELSE LET e == Head(evs) IN
       CASE e.e = "so" -> Leaves(Append(p, e.n), Tail(evs))
         [] e.e = "sl" -> Leaves(Append(Append(p, e.n), <<0>>), Tail(evs))
         [] e.e = "eo" -> Leaves(Pop(p), Tail(evs))
         [] e.e = "el" -> Leaves(Pop(Pop(p)), Tail(evs))
         [] e.e = "v" -> <<[p |-> Append(p, e.n), t |-> e.t, v |-> e.v]>> \o Leaves(p, Tail(evs))
RECURSIVE Balance(_, _)
Balance(d0, evs) == IF evs = <<>> THEN d0 = 0
                    ELSE LET x == Deeper(d0, Head(evs)) IN x >= 0 /\ Balance(x, Tail(evs))
Balanced == Done => Balance(0, out)
LeavesAt(p, ls) == LET Is(x) == x.p = p IN SelectSeq(ls, Is)
(* Where the input's leaves have to be: below the prefix.                    *)
Below(x) == IF pre = <<>> THEN x
            ELSE [x EXCEPT !.p = <<x.p[1]>> \o SubSeq(pre, 1, Len(pre) - 1) \o <<pre[Len(pre)]>> \o Tail(x.p)]
PathOf(b) == <<<<>>>> \o [i \in 1..Len(b.p) |-> b.p[i].n]
BodyL == LET ls == Leaves(<<>>, inp) IN [i \in 1..Len(ls) |-> Below(ls[i])]
OutL == Leaves(<<>>, out)
IsNull(x) == x.t = "nul"
NotNull(x) == x.t # "nul"
EachLeaf ==
  Done =>
    LET all == {BodyL[i].p : i \in 1..Len(BodyL)} \cup {OutL[i].p : i \in 1..Len(OutL)} \cup {PathOf(binds[i]) : i \in 1..Len(binds)}
    IN \A p \in all :
         LET was == LeavesAt(p, BodyL)  is == LeavesAt(p, OutL)
             Mine(b) == PathOf(b) = p
             bs == SelectSeq(binds, Mine)
             tx == [i \in 1..Len(bs) |-> [p |-> p, t |-> "str", v |-> bs[i].v]]
             Bodys(x) == x.v = seven
             Bounds(x) == x.v # seven
         IN IF bs = <<>> THEN is = was
            ELSE IF IsRep(bs[1]) THEN SelectSeq(is, Bodys) = was /\ SelectSeq(is, Bounds) = tx
            ELSE IF SelectSeq(was, NotNull) # <<>> THEN is = was
            ELSE SelectSeq(is, NotNull) = tx /\ SelectSeq(is, IsNull) = was
(* Each message is opened once, whoever asks for it.                         *)
RECURSIVE Opened(_, _)
Opened(p, evs) ==
  IF evs = <<>> THEN <<>>
  ELSE LET e == Head(evs) IN
       CASE e.e = "so" -> <<Append(p, e.n)>> \o Opened(Append(p, e.n), Tail(evs))
         [] e.e = "sl" -> Opened(Append(Append(p, e.n), <<0>>), Tail(evs))
         [] e.e = "eo" -> Opened(Pop(p), Tail(evs))
         [] e.e = "el" -> Opened(Pop(Pop(p)), Tail(evs))
         [] OTHER -> Opened(p, Tail(evs))
OpenedOnce == Done => LET NoList(p) == \A i \in 1..Len(p) : p[i] # <<0>>
                          s == SelectSeq(Opened(<<>>, out), NoList)
                      IN IsOnce(s) /\ \A i \in 1..Len(binds) : TRUE
(* Nothing is left, and a conflict is what it is said to be.                 *)
NothingLeft == Done => w.pend = <<>> /\ w.stk = <<>>
BadIff == Done => (w.bad <=> \E i \in 1..Len(binds) :
                     ~IsRep(binds[i]) /\ \E k \in 1..Len(BodyL) : BodyL[k].p = PathOf(binds[i])
                                           /\ BodyL[k].t # "nul" /\ BodyL[k].v # binds[i].v)
Exported == (Export /\ Done) => PrintT(ToJson([pre |-> pre, binds |-> binds, inp |-> inp]))
=============================================================================
