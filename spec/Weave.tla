-------------------------------- MODULE Weave --------------------------------
(* How a body, a body field path and URL bindings make a request message     *)
(* (prefix_writer.cc, request_weaver.cc, request_message_translator.cc).     *)
(* A binding is [p, v]: field names from the root of the message, and text.  *)
EXTENDS Message

(* The names of a dotted path; empty names are skipped.                      *)
Names(path) == LET NonEmpty(x) == x # <<>> IN SelectSeq(Split(path, DOT), NonEmpty)

(* The body, at its path: the body itself for "" and "*".                    *)
Place(path, v) ==
  IF path = <<STAR>> THEN v
  ELSE LET ns == Names(path)
       IN FoldRight(LAMBDA n, acc : Node("obj", <<>>, <<Child(n, acc)>>), ns, v)

(* The positions of the children of v that are values of field i of type t.  *)
ValuesAt(t, v, i) ==
  IF v.k # "obj" THEN {}
  ELSE {j \in 1..Len(v.c) : FieldOf(t, v.c[j].n) = i /\ v.c[j].v.k # "null"}
Some(S) == CHOOSE x \in S : TRUE

RECURSIVE BodyValues(_, _, _)
(* The scalars the body has at the path; none if the field is repeated.      *)
BodyValues(t, v, p) ==
  IF p = <<>> THEN {}
  ELSE LET i == FieldOf(t, p[1])
           J == ValuesAt(t, v, i)
       IN IF i = 0 THEN {}
          ELSE IF Len(p) = 1 THEN (IF Fields(t)[i].rep THEN {} ELSE {j \in {v.c[x].v : x \in J} : IsScalar(j)})
          ELSE UNION {BodyValues(Fields(t)[i].t, v.c[x].v, Tail(p)) : x \in J}

(* Whether the text of a binding differs from a value of the body, as a      *)
(* value of the body's type.                                                 *)
Differs(v, s) ==
  CASE v.k = "str" -> v.b # s
    [] v.k = "true" -> s # TrueW
    [] v.k = "false" -> s # FalseW
    [] v.k = "num" -> IF IsInt(v.b) THEN v.b # s
                      ELSE ~IsReal(s) \/ ~SameReal(s, v.b, FALSE)
Conflict(t, v, binds) ==
  \E k \in 1..Len(binds) : \E x \in BodyValues(t, v, binds[k].p) : Differs(x, binds[k].v)

RECURSIVE Insert(_, _, _, _)
(* The text s put at path p. Where the body has no message on the way, one   *)
(* is made.                                                                  *)
Insert(t, v, p, s) ==
  IF v.k # "obj" THEN v
  ELSE LET i == FieldOf(t, p[1])
           f == Fields(t)[i]
           J == ValuesAt(t, v, i)
       IN IF Len(p) = 1
          THEN [v EXCEPT !.c = Append(@, Child(f.n, Node("bind", s, <<>>)))]
          ELSE IF J # {}
          THEN LET j == Some(J) IN
               [v EXCEPT !.c = [@ EXCEPT ![j] = Child(@.n, Insert(f.t, @.v, Tail(p), s))]]
          ELSE [v EXCEPT !.c = Append(@, Child(f.n, Insert(f.t, EmptyObj, Tail(p), s)))]

(* All bindings, except those to the whole message and those to a singular   *)
(* field the body has set.                                                   *)
Woven(t, v, binds) ==
  LET Wanted(b) == b.p # <<>> /\ BodyValues(t, v, b.p) = {}
  IN FoldLeft(LAMBDA acc, b : Insert(t, acc, b.p, b.v), v, SelectSeq(binds, Wanted))

(* The request message: c is [type, bp, rej, ci].                            *)
Translate(c, binds, body) ==
  LET v == Place(c.bp, body) IN
  IF v.k # "obj" THEN Wrong
  ELSE IF c.rej /\ Conflict(c.type, v, binds) THEN Wrong
  ELSE Denote(c.type, Woven(c.type, v, binds), c.ci)
=============================================================================
