------------------------------- MODULE Message -------------------------------
(* Which message a JSON document denotes. A message is the sequence of its   *)
(* set fields, by number: [f, v, x], where v holds the values, each [b, m]:  *)
(* the bytes of a scalar (numbers in decimal), or the fields of a message.   *)
(* x holds those values of a repeated field that come from URL bindings; how *)
(* they are interleaved with v is not specified, except that both stay in    *)
(* order and together.                                                       *)
EXTENDS JsonText, Schema, Decimal, Base64

(***************************************************************************)
(* Fields                                                                    *)
(***************************************************************************)
(* The index of the field with that JSON name or, failing that, proto name.  *)
FieldOf(t, name) ==
  LET fs == Fields(t)
      J == {i \in 1..Len(fs) : fs[i].j = name}
      N == {i \in 1..Len(fs) : fs[i].n = name}
  IN IF J # {} THEN CHOOSE i \in J : TRUE ELSE IF N # {} THEN CHOOSE i \in N : TRUE ELSE 0

(***************************************************************************)
(* Numbers, in decimal                                                       *)
(***************************************************************************)
IsInt(s) ==
  LET d == IF s # <<>> /\ s[1] = MINUS THEN Tail(s) ELSE s
  IN /\ d # <<>> /\ \A i \in 1..Len(d) : d[i] \in Digits
     /\ Len(d) = 1 \/ d[1] # ZERO
Magnitude(s) == IF s[1] = MINUS THEN Tail(s) ELSE s
DecLess(a, b) ==
  \/ Len(a) < Len(b)
  \/ Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Max32  == <<50,49,52,55,52,56,51,54,52,55>>                                \* 2147483647
Min32  == <<50,49,52,55,52,56,51,54,52,56>>
MaxU32 == <<52,50,57,52,57,54,55,50,57,53>>                                \* 4294967295
Max64  == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>      \* 9223372036854775807
Min64  == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>   \* 18446744073709551615
InRange(k, s) ==
  LET neg == s[1] = MINUS
      m == Magnitude(s)
      AtMost(x) == ~DecLess(x, m)
  IN CASE k \in {"int32", "enum"} -> AtMost(IF neg THEN Min32 ELSE Max32)
       [] k = "int64"  -> AtMost(IF neg THEN Min64 ELSE Max64)
       [] k = "uint32" -> ~neg /\ AtMost(MaxU32)
       [] k = "uint64" -> ~neg /\ AtMost(MaxU64)

IsReal(s) == LET d == Document(s) IN d # <<>> /\ d[1].k = "num" /\ ~(s[1] \in White) /\ ~(s[Len(s)] \in White)

(***************************************************************************)
(* Scalars                                                                   *)
(***************************************************************************)
No == [ok |-> FALSE, b |-> <<>>]
Yes(b) == [ok |-> TRUE, b |-> b]
Upper(s) == [i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE IF s[i] = MINUS THEN 95 ELSE s[i]]
EnumNamed(name) == {x \in {EnumE[i] : i \in 1..Len(EnumE)} : x.n = name}
EnumValues == {EnumE[i].v : i \in 1..Len(EnumE)}

(* Text given for a field of kind k: a JSON string, or a URL binding.        *)
FromText(k, s, ci) ==
  CASE k = "string" -> Yes(s)
    [] k = "bytes" -> IF IsBase64(s) THEN Yes(DecodeBase64(s)) ELSE No
    [] k = "bool" -> IF s \in {TrueW, FalseW} THEN Yes(s) ELSE No
    [] k \in {"int32", "int64", "uint32", "uint64"} -> IF IsInt(s) /\ InRange(k, s) THEN Yes(s) ELSE No
    [] k \in {"double", "float"} -> IF IsReal(s) THEN Yes(Plain(s)) ELSE No
    [] k = "enum" ->
         IF EnumNamed(s) # {} THEN Yes((CHOOSE x \in EnumNamed(s) : TRUE).v)
         ELSE IF s \in EnumValues THEN Yes(s)
         ELSE IF ci /\ EnumNamed(Upper(s)) # {} THEN Yes((CHOOSE x \in EnumNamed(Upper(s)) : TRUE).v)
         ELSE No
    [] OTHER -> No

FromScalar(k, v, ci) ==
  CASE v.k \in {"str", "bind"} -> FromText(k, v.b, ci)
    [] v.k \in {"true", "false"} -> IF k = "bool" THEN Yes(IF v.k = "true" THEN TrueW ELSE FalseW) ELSE No
    [] v.k = "num" ->
         IF k \in {"double", "float"} THEN Yes(Plain(v.b))
         ELSE IF k \in {"int32", "int64", "uint32", "uint64", "enum"} /\ IsInt(Plain(v.b)) /\ InRange(k, Plain(v.b))
         THEN Yes(Plain(v.b)) ELSE No
    [] OTHER -> No

IsDefault(k, b) ==
  CASE k \in {"string", "bytes"} -> b = <<>>
    [] k = "bool" -> b = FalseW
    [] OTHER -> b = <<ZERO>>

(***************************************************************************)
(* Messages                                                                  *)
(***************************************************************************)
Wrong == [ok |-> FALSE, m |-> <<>>]
Right(m) == [ok |-> TRUE, m |-> m]

RECURSIVE Denote(_, _, _)
(* The message of type t that the node v (an object) denotes. Fields the     *)
(* type does not have are ignored, and so are nulls.                         *)
Denote(t, v, ci) ==
  IF v.k # "obj" THEN Wrong
  ELSE
  LET fs == Fields(t)
      kids == [j \in 1..Len(v.c) |-> [i |-> FieldOf(t, v.c[j].n), v |-> v.c[j].v]]
      Given(i) == LET Of(x) == x.i = i /\ x.v.k # "null" IN SelectSeq(kids, Of)
      (* The values of a field, lists taken apart. *)
      Flat(i) == FoldLeft(LAMBDA a, x :
                   a \o (IF x.v.k = "arr" /\ fs[i].rep THEN [e \in 1..Len(x.v.c) |-> x.v.c[e].v] ELSE <<x.v>>),
                   <<>>, Given(i))
      Merged(vs) == IF vs # <<>> /\ \A e \in 1..Len(vs) : vs[e].k = "obj"
                    THEN Node("obj", <<>>, FoldLeft(LAMBDA a, x : a \o x.c, <<>>, vs))
                    ELSE Null
      Value(i, n) ==
        IF fs[i].k = "message"
        THEN LET r == Denote(fs[i].t, n, ci) IN [ok |-> r.ok, b |-> <<>>, m |-> r.m]
        ELSE LET r == FromScalar(fs[i].k, n, ci) IN [ok |-> r.ok, b |-> r.b, m |-> <<>>]
      Field(i) ==
        LET vs == IF ~fs[i].rep /\ fs[i].k = "message" /\ Flat(i) # <<>> THEN <<Merged(Flat(i))>> ELSE Flat(i)
            rs == [e \in 1..Len(vs) |-> Value(i, vs[e])]
            ok == \A e \in 1..Len(vs) : rs[e].ok
            Pick(bind) == LET idx == SelectSeq([e \in 1..Len(vs) |-> e],
                                               LAMBDA e : (vs[e].k = "bind") = bind)
                          IN [e \in 1..Len(idx) |-> [b |-> rs[idx[e]].b, m |-> rs[idx[e]].m]]
            last == rs[Len(rs)]
        IN IF vs = <<>> THEN [ok |-> TRUE, fs |-> <<>>]
           ELSE IF ~ok THEN [ok |-> FALSE, fs |-> <<>>]
           ELSE IF fs[i].rep
                THEN [ok |-> TRUE, fs |-> <<[f |-> fs[i].num, v |-> Pick(FALSE), x |-> Pick(TRUE)]>>]
           ELSE IF fs[i].k # "message" /\ IsDefault(fs[i].k, last.b) THEN [ok |-> TRUE, fs |-> <<>>]
           ELSE [ok |-> TRUE, fs |-> <<[f |-> fs[i].num, v |-> <<[b |-> last.b, m |-> last.m]>>, x |-> <<>>]>>]
  IN FoldLeft(LAMBDA a, i :
                IF ~a.ok THEN a
                ELSE LET g == Field(i) IN IF g.ok THEN Right(a.m \o g.fs) ELSE Wrong,
              Right(<<>>), SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : Given(i) # <<>>))

(* Whether an observed message, [f, v] per field, is a denoted one.          *)
RECURSIVE SameMessage(_, _), SameValues(_, _)
SameValues(g, e) ==
  /\ Len(g) = Len(e)
  /\ \A i \in 1..Len(e) : g[i].b = e[i].b /\ SameMessage(g[i].m, e[i].m)
SameMessage(got, want) ==
  /\ Len(got) = Len(want)
  /\ \A i \in 1..Len(want) :
       /\ got[i].f = want[i].f
       /\ \/ SameValues(got[i].v, want[i].v \o want[i].x)
          \/ want[i].v # <<>> /\ want[i].x # <<>> /\ SameValues(got[i].v, want[i].x \o want[i].v)

(* The size of a message on the wire, where it is determined: bytes of tags, *)
(* lengths and values.                                                       *)
RECURSIVE VarintLen(_)
VarintLen(n) == IF n < 128 THEN 1 ELSE 1 + VarintLen(n \div 128)
=============================================================================
