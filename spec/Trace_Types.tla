----------------------------- MODULE Trace_Types -----------------------------
(* Recorded histories of a type helper: a start event with the catalog, then *)
(* lookups. own: the helper is given a resolver of the caller's, which has   *)
(* the same catalog, except that it renames nothing.                         *)
EXTENDS Types, Trace
VARIABLES l, cat
Found(e) ==
  IF e.a \in {"enum", "ienum", "enull"} THEN EnumAt(cat.enums, e.u)
  ELSE IF cat.own # 0 THEN {cat.types[i] : i \in At(cat.types, e.u)} ELSE TypeAt(cat.types, e.u)
NotFound == 5
Right(e) ==
  LET f == Found(e)  o == e.o IN
  CASE e.a \in {"tnull", "enull"} -> o.code = (IF f = {} THEN NotFound ELSE 0)
    [] e.a = "drop" -> o.gone = cat.own     \* a resolver that was handed over is deleted with the helper
    [] OTHER -> IF f = {} THEN o.code = NotFound /\ o.kept
                ELSE /\ o.code = 0
                     /\ LET t == CHOOSE t \in f : TRUE IN
                        IF e.a \in {"enum", "ienum"} THEN o.n = t.n /\ o.v = t.v
                        ELSE o.n = t.n /\ o.f = t.f /\ o.o = t.o
TInit == l = 1 /\ cat = <<>>
TNext == /\ l <= Len(Events) /\ l' = l + 1
         /\ LET e == Events[l] IN
            IF e.a = "start" THEN cat' = [types |-> e.types, enums |-> e.enums, own |-> e.own]
            ELSE cat' = cat /\ Right(e) /\ (e.a # "drop" => e.o.gone = 0)
Spec == TInit /\ [][TNext]_<<l, cat>>
=============================================================================
