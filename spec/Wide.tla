-------------------------------- MODULE Wide --------------------------------
(* Numbers beyond TLC's 32 bits: <<hi, lo>> stands for hi * 2^24 + lo.       *)
EXTENDS Integers, Sequences
WB == 16777216
W(n) == <<n \div WB, n % WB>>
WZero == <<0, 0>>
WAdd(a, b) == LET l == a[2] + b[2] IN <<a[1] + b[1] + l \div WB, l % WB>>
WSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
              ELSE <<a[1] - b[1] - 1, a[2] + WB - b[2]>>
WLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
WLeq(a, b) == ~WLess(b, a)
WMin(a, b) == IF WLess(a, b) THEN a ELSE b
(* Remainder by a small number: (hi * 2^24 + lo) mod m, m < 100.             *)
WMod(a, m) == (((a[1] % m) * (WB % m)) + a[2]) % m
WDiv10(a) == <<a[1] \div 10, ((a[1] % 10) * WB + a[2]) \div 10>>
(* Decimal digits as bytes.                                                  *)
RECURSIVE WDec(_)
WDec(a) == IF WLess(a, W(10)) THEN <<48 + a[2]>>
           ELSE Append(WDec(WDiv10(a)), 48 + WMod(a, 10))
=============================================================================
