------------------------------ MODULE FieldPath ------------------------------
(* Resolving field paths (type_helper.cc). F(t): the fields of type t, each  *)
(* [n, j, k, t, ..]: its proto name, its JSON name, its kind, and its type   *)
(* if it is a message; <<>> and not Known(t) if there is no such type.       *)
EXTENDS Percent

(* The field of that JSON name or, failing that, proto name; 0 if none.      *)
Named(fs, name) ==
  LET J == {i \in 1..Len(fs) : fs[i].j = name}
      N == {i \in 1..Len(fs) : fs[i].n = name}
      Least(S) == CHOOSE i \in S : \A k \in S : i <= k
  IN IF J # {} THEN Least(J) ELSE IF N # {} THEN Least(N) ELSE 0
(* A name that is not found as it is may be percent-encoded.                 *)
Find(fs, name) ==
  LET i == Named(fs, name) IN
  IF i # 0 THEN i ELSE Named(fs, Decode(name, KeepReserved, FALSE))

(* The fields that names name, from type t: [ok, f] with f a sequence of     *)
(* [t, i]: field i of type t.                                                *)
RECURSIVE Resolve(_, _, _, _)
Resolve(F(_), Known(_), t, names) ==
  IF names = <<>> THEN [ok |-> TRUE, f |-> <<>>]
  ELSE LET fs == F(t)
           i == Find(fs, names[1])
           bad == [ok |-> FALSE, f |-> <<>>]
       IN IF i = 0 THEN bad
          ELSE IF Len(names) = 1 THEN [ok |-> TRUE, f |-> <<[t |-> t, i |-> i]>>]
          ELSE IF fs[i].k # "message" \/ ~Known(fs[i].t) THEN bad
          ELSE LET r == Resolve(F, Known, fs[i].t, Tail(names))
               IN IF r.ok THEN [ok |-> TRUE, f |-> <<[t |-> t, i |-> i]>> \o r.f] ELSE bad

(* The names of a path in dotted form: empty ones are skipped.               *)
Dotted(path) == LET NonEmpty(x) == x # <<>> IN SelectSeq(Split(path, DOT), NonEmpty)
=============================================================================
