------------------------------ MODULE MC_Types ------------------------------
(* Every small catalog, with every history of lookups; the answers do not    *)
(* depend on what was asked before.                                          *)
EXTENDS Types, Json, TLC
CONSTANTS MaxAsk, Export
VARIABLES types, enums, asked
a == <<97>>  ab == <<97, 98>>  none == <<>>
Old == Proto2 \o MessageOptions \o MapEntry
New == GoogleProtobuf \o MessageOptions \o MapEntry
OldSet == Proto2 \o MessageOptions \o MessageSet
Near == Proto2 \o MessageOptions \o <<109>>
Opts == {<<>>, <<[n |-> Old, v |-> <<8, 1>>]>>, <<[n |-> New, v |-> <<8, 1>>], [n |-> OldSet, v |-> <<>>]>>,
         <<[n |-> Near, v |-> <<7>>], [n |-> Old, v |-> <<>>], [n |-> Old, v |-> <<8, 0>>]>>}
T(n, o, f) == [n |-> n, o |-> o, f |-> f]
Catalogs == {<<>>} \cup {<<T(n, o, <<a>>)>> : n \in {a, ab}, o \in Opts}
            \cup {<<T(n, o, <<a>>), T(m, p, <<ab, a>>)>> : n \in {a}, m \in {ab, none}, o \in Opts, p \in Opts}
Enums == {<<>>, <<[n |-> a, v |-> <<ab>>]>>, <<[n |-> ab, v |-> <<a, ab>>], [n |-> a, v |-> <<>>]>>}
Urls == {UrlOf(a), UrlOf(ab), UrlOf(none), UrlOf(<<97, 99>>), a, <<47>> \o a, SubSeq(UrlPrefix, 1, Len(UrlPrefix) - 1), <<>>,
         UrlOf(<<47>> \o a), <<120>> \o UrlOf(a)}
Asks == {[a |-> k, u |-> u] : k \in {"type", "enum"}, u \in Urls}
MCInit == types \in Catalogs /\ enums \in Enums /\ asked = <<>>
MCNext == /\ Len(asked) < MaxAsk
          /\ \E x \in Asks : asked' = Append(asked, x)
          /\ UNCHANGED <<types, enums>>
MCSpec == MCInit /\ [][MCNext]_<<types, enums, asked>>

Answer(x) == IF x.a = "type" THEN TypeAt(types, x.u) ELSE EnumAt(enums, x.u)
OneAtMost == \A i \in 1..Len(asked) : Cardinality(Answer(asked[i])) <= 1
(* What is found is what was given: its name, its members, its options'      *)
(* values, and their names up to the renaming, which nothing undoes.         *)
Same == \A i \in 1..Len(asked) : \A t \in Answer(asked[i]) :
          /\ asked[i].u = UrlOf(t.n)
          /\ asked[i].a = "type" =>
               \E k \in 1..Len(types) : LET g == types[k] IN
                 /\ g.n = t.n /\ g.f = t.f /\ Len(g.o) = Len(t.o)
                 /\ \A j \in 1..Len(t.o) : /\ t.o[j].v = g.o[j].v
                                           /\ t.o[j].n # g.o[j].n => g.o[j].n \in {Old, OldSet}
                                           /\ t.o[j].n \notin {Old, OldSet}
                                           /\ g.o[j].n = Old => t.o[j].n = New
                 /\ AsGiven(t) = t
EachFound == \A k \in 1..Len(types) : Cardinality(TypeAt(types, UrlOf(types[k].n))) = 1
Exported == (Export /\ Len(asked) = MaxAsk) => PrintT(ToJson([types |-> types, enums |-> enums, asked |-> asked]))
=============================================================================
