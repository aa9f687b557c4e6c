------------------------------ MODULE MC_Weave ------------------------------
(* Small bodies with up to two members and up to two bindings: what becomes  *)
(* of every field, said without weaving.                                     *)
EXTENDS Weave, TLC, Json
CONSTANTS MaxKids, MaxBinds, Export
VARIABLES body, binds, rej, bp
Str(b) == Node("str", b, <<>>)
Obj(kids) == Node("obj", <<>>, kids)
Arr(vs) == Node("arr", <<>>, [i \in 1..Len(vs) |-> Child(<<>>, vs[i])])
One == Str(<<49>>)  Two == Str(<<50>>)
sS == <<115>>  sN == <<110>>  sA == <<97>>  sR == <<114>>  sM == <<109>>  sRs == <<114, 115>>
LongJ == <<108,111,110,103,78,97,109,101>>  LongN == <<108,111,110,103,95,110,97,109,101>>
Kids == {Child(sS, One), Child(sS, Null), Child(sN, Obj(<<>>)), Child(sN, Obj(<<Child(sA, One)>>)),
         Child(sN, Obj(<<Child(sR, Arr(<<One, Two>>)), Child(sM, Obj(<<Child(sS, Two)>>))>>)),
         Child(sN, Null), Child(sRs, Arr(<<Two>>)), Child(sRs, Two), Child(<<122, 122>>, Obj(<<Child(sS, Two)>>)),
         Child(LongJ, One), Child(LongN, Two), Child(sM, Obj(<<Child(sS, One)>>))}
Bodies == {Obj(ks) : ks \in UNION {{f \in [1..k -> Kids] :
             \A i, j \in 1..k : i # j => (f[i].n # f[j].n /\ {f[i].n, f[j].n} # {LongJ, LongN})} : k \in 0..MaxKids}}
Paths == {<<sS>>, <<sN, sA>>, <<sN, sR>>, <<sRs>>, <<sN, sM, sS>>, <<LongN>>, <<sM, sM, sS>>}
MCInit == /\ binds = <<>> /\ rej \in BOOLEAN /\ bp \in {<<>>, sN}
          /\ \E k \in Kids : body \in {Obj(<<>>), Obj(<<k>>)}
Able == bp = sN => (\A i \in 1..Len(body.c) : body.c[i].n \in {sA, sM, LongJ, LongN, <<122, 122>>})
MCNext ==
  /\ UNCHANGED <<rej, bp>>
  /\ \/ /\ binds = <<>> /\ Len(body.c) < MaxKids /\ binds' = binds
        /\ \E k \in Kids : body' = Obj(Append(body.c, k)) /\ body' \in Bodies /\ Able'
     \/ /\ Len(binds) < MaxBinds /\ body' = body
        /\ \E p \in Paths, v \in {<<49>>, <<50>>} : binds' = Append(binds, [p |-> p, v |-> v])
MCSpec == MCInit /\ [][MCNext]_<<body, binds, rej, bp>>

C == [type |-> "M", bp |-> bp, rej |-> rej, ci |-> FALSE]
R == Translate(C, binds, body)
Placed == Place(bp, body)
Plain0 == Translate([C EXCEPT !.rej = FALSE], <<>>, body)

(* The values a message has at a path of names, body's and bound ones.       *)
RECURSIVE At0(_, _, _, _)
At0(t, m, p, what) ==
  LET i == FieldOf(t, p[1])
      K == {k \in 1..Len(m) : m[k].f = Fields(t)[i].num}
  IN IF K = {} THEN <<>>
     ELSE LET f == m[CHOOSE k \in K : TRUE] IN
          IF Len(p) = 1 THEN (IF what = "x" THEN f.x ELSE f.v)
          ELSE At0(Fields(t)[i].t, f.v[1].m, Tail(p), what)
RECURSIVE IsRep(_, _)
IsRep(t, p) == LET f == Fields(t)[FieldOf(t, p[1])] IN IF Len(p) = 1 THEN f.rep ELSE IsRep(f.t, Tail(p))
ValuesOf(p) == LET B(b) == b.p = p IN [i \in 1..Len(SelectSeq(binds, B)) |-> SelectSeq(binds, B)[i].v]
Texts(vs) == [i \in 1..Len(vs) |-> vs[i].b]

Fine == R.ok /\ Plain0.ok
EachField ==
  Fine => \A p \in Paths :
    LET b == ValuesOf(p) old == Texts(At0("M", Plain0.m, p, "v")) new == Texts(At0("M", R.m, p, "v"))
    IN IF b = <<>> THEN new = old
       ELSE IF IsRep("M", p) THEN new = old /\ Texts(At0("M", R.m, p, "x")) = b
       ELSE IF old # <<>> THEN new = old
       ELSE new = <<b[Len(b)]>>
(* No field comes from nowhere.                                              *)
RECURSIVE Leaves(_, _)
Leaves(t, m) ==
  UNION {LET f == m[k] IN
         IF Fields(t)[CHOOSE i \in 1..Len(Fields(t)) : Fields(t)[i].num = f.f].k = "message"
         THEN {<<f.f>> \o x : x \in Leaves(Fields(t)[CHOOSE i \in 1..Len(Fields(t)) : Fields(t)[i].num = f.f].t, f.v[1].m)}
         ELSE {<<f.f>>} : k \in 1..Len(m)}
RECURSIVE Numbers(_, _)
Numbers(t, p) == LET f == Fields(t)[FieldOf(t, p[1])] IN
  IF Len(p) = 1 THEN <<f.num>> ELSE <<f.num>> \o Numbers(f.t, Tail(p))
NothingElse == Fine => Leaves("M", R.m) = Leaves("M", Plain0.m) \cup {Numbers("M", binds[k].p) : k \in 1..Len(binds)}
(* Rejected exactly if asked for and some singular field differs.            *)
Rejected ==
  Plain0.ok =>
    (R.ok <=> ~(rej /\ \E k \in 1..Len(binds) :
                  ~IsRep("M", binds[k].p)
                  /\ LET old == Texts(At0("M", Plain0.m, binds[k].p, "v")) IN old # <<>> /\ old[1] # binds[k].v))
(* The order of bindings of different fields does not matter.                *)
Swapped == IF Len(binds) = 2 /\ binds[1].p # binds[2].p THEN <<binds[2], binds[1]>> ELSE binds
OrderIdle == Translate(C, Swapped, body) = R
Exported == Export => PrintT(ToJson([t |-> Text(body), b |-> binds, rej |-> rej, bp |-> bp]))
=============================================================================
