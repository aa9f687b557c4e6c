------------------------------- MODULE Bytes -------------------------------
(* Strings of bytes are sequences of integers 0..255, so that the            *)
(* specification can look inside them.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

SLASH == 47     COLON == 58     STAR == 42      LBRACE == 123
RBRACE == 125   EQ == 61        DOT == 46       QMARK == 63
PERCENT == 37   PLUS == 43      AMP == 38       SPACE == 32

Slice(s, a, b) == SubSeq(s, a, b)

Has(s, c) == \E i \in 1..Len(s) : s[i] = c

(* The first position at or behind p that holds a byte of C; Len(s)+1 if     *)
(* there is none.                                                            *)
NextIn(s, p, C) ==
  CHOOSE i \in p..(Len(s) + 1) :
    /\ i = Len(s) + 1 \/ s[i] \in C
    /\ \A j \in p..(i - 1) : s[j] \notin C

(* The last position that holds byte c; 0 if there is none.                  *)
LastPos(s, c) ==
  LET P == {i \in 1..Len(s) : s[i] = c}
  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i

FirstPos(s, c) ==
  LET P == {i \in 1..Len(s) : s[i] = c}
  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j

(* The increasing sequence of the elements of a set of positions of s.       *)
Positions(s, Test(_)) == SelectSeq([i \in 1..Len(s) |-> i], Test)

(* s cut at every occurrence of c; one more piece than there are cuts.       *)
Split(s, c) ==
  LET IsCut(i) == s[i] = c
      cuts == <<0>> \o Positions(s, IsCut) \o <<Len(s) + 1>>
  IN [k \in 1..(Len(cuts) - 1) |-> SubSeq(s, cuts[k] + 1, cuts[k + 1] - 1)]

(* The pieces joined with c.                                                 *)
Join(ps, c) ==
  IF Len(ps) = 0 THEN <<>>
  ELSE FoldLeft(LAMBDA acc, p : acc \o <<c>> \o p, ps[1], Tail(ps))

RECURSIVE DropTrailingEmpty(_)
DropTrailingEmpty(ps) ==
  IF Len(ps) > 0 /\ ps[Len(ps)] = <<>>
  THEN DropTrailingEmpty(SubSeq(ps, 1, Len(ps) - 1))
  ELSE ps
=============================================================================
