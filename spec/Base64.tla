-------------------------------- MODULE Base64 --------------------------------
(* Base64, standard or URL-safe alphabet, with or without padding.           *)
EXTENDS Bytes
B64(c) ==
  CASE c \in 65..90 -> c - 65
    [] c \in 97..122 -> c - 71
    [] c \in 48..57 -> c + 4
    [] c \in {43, 45} -> 62
    [] c \in {47, 95} -> 63
    [] OTHER -> 64
RECURSIVE Unpad(_)
Unpad(s) == IF s # <<>> /\ s[Len(s)] = 61 THEN Unpad(SubSeq(s, 1, Len(s) - 1)) ELSE s
IsBase64(s) == LET u == Unpad(s) IN
  /\ \A i \in 1..Len(u) : B64(u[i]) < 64
  /\ Len(u) % 4 # 1
  /\ Len(s) = Len(u) \/ Len(s) % 4 = 0
DecodeBase64(s) ==
  LET u == Unpad(s)
      v == [i \in 1..Len(u) |-> B64(u[i])]
      n == (Len(u) * 6) \div 8
      ByteNo(j) == \* counted from 0; its first bit is 8j
        LET g == (8 * j) \div 6 o == (8 * j) % 6
            hi == v[g + 1]
            lo == IF g + 2 <= Len(u) THEN v[g + 2] ELSE 0
        IN ((hi * 64 + lo) \div (CASE o = 0 -> 16 [] o = 2 -> 4 [] o = 4 -> 1)) % 256
      \* with o = 0 the byte is 6 bits of hi and 2 of lo, with 2: 4 and 4, with 4: 2 and 6
  IN [j \in 1..n |-> ByteNo(j - 1)]

(* Written as an encoder would, without bits left over.                      *)
Canonical64(s) ==
  LET u == Unpad(s) IN
  IsBase64(s) /\ (u = <<>> \/ CASE Len(u) % 4 = 2 -> B64(u[Len(u)]) % 16 = 0
                             [] Len(u) % 4 = 3 -> B64(u[Len(u)]) % 4 = 0
                             [] OTHER -> TRUE)
=============================================================================
