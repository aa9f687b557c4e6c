------------------------------ MODULE Gateway ------------------------------
(* A request all the way: routing, bindings, field paths, the body and its   *)
(* translation; and the frames back to JSON. The variables are those of      *)
(* PathMatcher.                                                              *)
EXTENDS Request, Response, TLC
VARIABLES opt, table, built, outB, outBody
PM == INSTANCE PathMatcher
FP == INSTANCE FieldPath

KnownType(t) == t \in {"M", "N"}
(* A binding of the matcher, its path resolved from the type of the message. *)
Resolved(type, b) == FP!Resolve(Fields, KnownType, type, b.f)
BoundTo(type, b) ==
  LET r == Resolved(type, b) IN
  [p |-> [k \in 1..Len(r.f) |-> Fields(r.f[k].t)[r.f[k].i].n], v |-> b.v]

(* What a request gives: no method; a path that is no field of the message;  *)
(* or messages. c: the options of the translation, but for path and bindings.*)
Serve(method, path, query, c, body) ==
  LET o == PM!Outcome(method, path, query)
      able == \A k \in 1..Len(o.b) : Resolved(c.type, o.b[k]).ok
      w == Whole([bp |-> o.body, binds |-> [k \in 1..Len(o.b) |-> BoundTo(c.type, o.b[k])]] @@ c, body)
  IN IF o.r = 0 \/ ~able THEN [r |-> o.r, bound |-> able, ms |-> <<>>, ok |-> FALSE]
     ELSE [r |-> o.r, bound |-> TRUE, ms |-> w.ms, ok |-> w.ok]
=============================================================================
