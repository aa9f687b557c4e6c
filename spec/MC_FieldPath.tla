---------------------------- MODULE MC_FieldPath ----------------------------
(* Every path over a few bytes, resolved in a small, recursive type graph.   *)
EXTENDS FieldPath, Json, TLC
CONSTANTS MaxLen, Export
VARIABLE path
(* a: message of the same type, JSON name "b"; d: a scalar; aa: a message of *)
(* a type that does not exist; "." + "%": names that need encoding.          *)
Fld(n, j, k, t) == [n |-> n, j |-> j, k |-> k, t |-> t, rep |-> 0]
a == 97  b == 98  d == 100
Types == <<[n |-> "A", f |-> <<Fld(<<a>>, <<a, b>>, "message", "B"), Fld(<<d>>, <<d>>, "string", ""),
                               Fld(<<a, a>>, <<a, a>>, "message", "Nowhere"), Fld(<<b>>, <<b>>, "group", "A"),
                               Fld(<<a, PERCENT>>, <<a, PERCENT>>, "message", "A")>>],
           [n |-> "B", f |-> <<Fld(<<b>>, <<d, d>>, "message", "A"), Fld(<<d>>, <<a>>, "enum", "")>>]>>
Alphabet == {a, b, d, DOT, PERCENT, 54, 49, 52}
F(t) == IF t = "A" THEN Types[1].f ELSE IF t = "B" THEN Types[2].f ELSE <<>>
Known(t) == t \in {"A", "B"}
MCInit == path = <<>>
MCNext == Len(path) < MaxLen /\ \E c \in Alphabet : path' = Append(path, c)
MCSpec == MCInit /\ [][MCNext]_path

R == Resolve(F, Known, "A", Dotted(path))
(* Every field found belongs to the type before it, every one but the last   *)
(* is a message, and each bears the name given for it.                       *)
Chain ==
  R.ok => /\ Len(R.f) = Len(Dotted(path))
          /\ \A k \in 1..Len(R.f) :
               LET f == F(R.f[k].t)[R.f[k].i] nm == Dotted(path)[k] IN
               /\ R.f[k].t = (IF k = 1 THEN "A" ELSE F(R.f[k - 1].t)[R.f[k - 1].i].t)
               /\ k < Len(R.f) => f.k = "message"
               /\ {f.n, f.j} \cap {nm, Decode(nm, KeepReserved, FALSE)} # {}
(* A path resolves if its first part does, to a message, and the rest does   *)
(* from there.                                                               *)
Compose ==
  \A k \in 1..Len(path) :
    path[k] = DOT =>
      LET p1 == Dotted(SubSeq(path, 1, k - 1)) p2 == Dotted(SubSeq(path, k + 1, Len(path)))
          r1 == Resolve(F, Known, "A", p1)
          last == r1.f[Len(r1.f)]
          r2 == Resolve(F, Known, IF p1 = <<>> THEN "A" ELSE F(last.t)[last.i].t, p2)
      IN IF p1 = <<>> \/ p2 = <<>> THEN TRUE
         ELSE R.ok = (r1.ok /\ F(last.t)[last.i].k = "message" /\ r2.ok)
(* Dots at either end and doubled ones do not matter.                        *)
DotsIdle == Dotted(path) = Dotted(<<DOT>> \o path \o <<DOT, DOT>>)
Number(t) == IF t = "A" THEN 1 ELSE 2
Exported == Export => PrintT(ToJson([p |-> path, ok |-> R.ok,
                        f |-> [k \in 1..Len(R.f) |-> <<Number(R.f[k].t), R.f[k].i>>]]))
Header == (Export /\ path = <<>>) => PrintT(ToJson([types |-> Types]))
=============================================================================
