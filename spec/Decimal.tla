------------------------------- MODULE Decimal -------------------------------
(* Real numbers as decimal text without an exponent, and when two of them    *)
(* are the same up to the rounding of binary floating point.                 *)
EXTENDS Bytes

(* Without a needless fraction: 2.50 is 2.5, 3.0 is 3.                       *)
RECURSIVE DropZeros(_)
DropZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN DropZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
Plain(s) ==
  LET d == FirstPos(s, DOT) IN
  IF d = 0 THEN s
  ELSE LET f == DropZeros(SubSeq(s, d + 1, Len(s)))
       IN SubSeq(s, 1, d - 1) \o (IF f = <<>> THEN <<>> ELSE <<DOT>> \o f)

LOCAL Whole(s) == LET d == FirstPos(s, DOT) IN IF d = 0 THEN s ELSE SubSeq(s, 1, d - 1)
LOCAL Digit(s, i) == LET d == FirstPos(s, DOT) IN IF d = 0 \/ d + i > Len(s) THEN 0 ELSE s[d + i] - 48
(* Nine digits of the fraction as a number.                                  *)
LOCAL Nine(s, at) == FoldLeft(LAMBDA acc, i : 10 * acc + Digit(s, at + i), 0, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>)
LOCAL Abs(n) == IF n < 0 THEN -n ELSE n
(* The rounding of comparisons: as doubles 5 / 10^15, as floats 5 / 10^6.    *)
(* (The bound is not sharp: nobody may rely on a difference near to it.)     *)
SameReal(s, t, single) ==
  \/ Plain(s) = Plain(t)
  \/ /\ Whole(s) = Whole(t)
     /\ LET a == Nine(s, 0)  b == Nine(t, 0)  c == Nine(s, 9)  d == Nine(t, 9)
        IN IF single THEN Abs(a - b) <= 5000
           ELSE \/ a = b /\ Abs(c - d) <= 5000
                \/ a = b + 1 /\ (1000000000 - d) + c <= 5000
                \/ b = a + 1 /\ (1000000000 - c) + d <= 5000
=============================================================================
