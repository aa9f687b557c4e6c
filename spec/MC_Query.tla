------------------------------ MODULE MC_Query ------------------------------
(* The query string arrives byte by byte; a scanner with one parameter in    *)
(* hand collects the bindings. It agrees with the declarative reading after  *)
(* every byte.                                                               *)
EXTENDS PathMatcher, Json
CONSTANTS MaxLen, Export
VARIABLES s, name, inValue, value, done, plus
qv == <<s, name, inValue, value, done, plus>>
Alphabet == {97, 98, EQ, AMP, DOT, PLUS}
Sys == {<<98>>}

MCInit == /\ Init /\ s = <<>> /\ name = <<>> /\ inValue = FALSE /\ value = <<>> /\ done = <<>>
          /\ plus \in BOOLEAN

Binding == [f |-> Split(name, DOT), v |-> value]
Flush == IF inValue /\ name # <<>> /\ name \notin Sys THEN Append(done, Binding) ELSE done
Byte(c) ==
  /\ s' = Append(s, c)
  /\ IF c = AMP
     THEN done' = Flush /\ name' = <<>> /\ value' = <<>> /\ inValue' = FALSE
     ELSE IF c = EQ /\ ~inValue
     THEN inValue' = TRUE /\ UNCHANGED <<name, value, done>>
     ELSE IF inValue
     THEN value' = Append(value, IF c = PLUS /\ plus THEN SPACE ELSE c)
          /\ UNCHANGED <<name, inValue, done>>
     ELSE name' = Append(name, c) /\ UNCHANGED <<inValue, value, done>>
  /\ UNCHANGED <<plus, vars>>
MCNext == Len(s) < MaxLen /\ \E c \in Alphabet : Byte(c)
MCSpec == MCInit /\ [][MCNext]_<<vars, qv>>

Agree == Flush = QueryBindings(s, Sys, plus)
Exported == Export => PrintT(ToJson([q |-> s, plus |-> plus, b |-> Flush]))
=============================================================================
