---------------------------- MODULE MessageReader ----------------------------
(* Reading gRPC frames from a byte stream that arrives bit by bit            *)
(* (message_reader.h). A frame is a flag byte, which must be 0, four bytes   *)
(* of length, most significant first, and that many bytes of message.        *)
(*                                                                           *)
(* The stream is a sequence of runs of bytes: [at, len, b], where b holds    *)
(* the bytes, or is empty for a patterned run, whose byte at position p of   *)
(* the stream is p mod 251. Positions and sizes are wide numbers.            *)
EXTENDS Wide, Bytes

VARIABLES
  str, fed, closed,  \* what has arrived, how much, and whether it is all
  lim,               \* where the source breaks off, or <<>>: it tells of the bytes behind, but does not deliver them
  pos,               \* how much has been consumed
  need,              \* the size in the last header read, or <<>> if its message has been yielded
  hdr,               \* the last header read
  fin, err,          \* finished; the error, or NoErr
  open               \* what is left of the message yielded last, or <<>> if it is used up

rvars == <<str, fed, closed, lim, pos, need, hdr, fin, err, open>>

(* An error: what is wrong ("header" or "body" cut off, a "flag" set), and   *)
(* the numbers its text gives: the flag; the size of the body and how much   *)
(* of it there is.                                                           *)
NoErr == [code |-> 0, what |-> "", n |-> <<>>]
Internal(what, n) == [code |-> 13, what |-> what, n |-> n]
None == <<>>

RInit ==
  /\ str = <<>> /\ fed = WZero /\ closed = FALSE /\ lim = None
  /\ pos = WZero /\ need = None /\ hdr = <<0, 0, 0, 0, 0>>
  /\ fin = FALSE /\ err = NoErr /\ open = None

(* Position p of the stream, counted from 0.                                 *)
ByteAt(p) ==
  LET i == CHOOSE i \in 1..Len(str) :
             WLeq(str[i].at, p) /\ WLess(p, WAdd(str[i].at, str[i].len))
  IN IF str[i].b # <<>> THEN str[i].b[WSub(p, str[i].at)[2] + 1]
     ELSE (((p[1] % 251) * (WB % 251)) + p[2]) % 251
BytesAt(p, n) == [i \in 1..n |-> ByteAt(WAdd(p, W(i - 1)))]

(***************************************************************************)
(* The input                                                                 *)
(***************************************************************************)
Feed(b) ==
  /\ ~closed
  /\ str' = IF b = <<>> THEN str ELSE Append(str, [at |-> fed, len |-> W(Len(b)), b |-> b])
  /\ fed' = WAdd(fed, W(Len(b)))
  /\ UNCHANGED <<closed, lim, pos, need, hdr, fin, err, open>>
FeedPattern(n) ==
  /\ ~closed
  /\ str' = IF n = WZero THEN str ELSE Append(str, [at |-> fed, len |-> n, b |-> <<>>])
  /\ fed' = WAdd(fed, n)
  /\ UNCHANGED <<closed, lim, pos, need, hdr, fin, err, open>>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED <<str, fed, lim, pos, need, hdr, fin, err, open>>
(* The source fails: it delivers nothing behind position p any more.         *)
Break(p) ==
  /\ lim = None
  /\ lim' = IF WLess(p, pos) THEN pos ELSE WMin(p, fed)
  /\ UNCHANGED <<str, fed, closed, pos, need, hdr, fin, err, open>>
Until(p) == lim = None \/ WLeq(p, lim)     \* the bytes up to p are delivered

(***************************************************************************)
(* The reader                                                                *)
(***************************************************************************)
Avail == WSub(fed, pos)
Finished == fin \/ err # NoErr
SizeOf(h) == <<h[2], (h[3] * 256 + h[4]) * 256 + h[5]>>

Nothing == [got |-> FALSE, hdr |-> <<>>, size |-> WZero]

(* Given that a header has been read up to position p: its message.          *)
Body(p, h, size, ret) ==
  /\ pos' = p /\ hdr' = h
  /\ UNCHANGED <<str, fed, closed, lim, fin>>
  /\ IF WLess(WSub(fed, p), size)
     THEN /\ ret = Nothing
          /\ need' = size /\ open' = None
          /\ err' = IF closed THEN Internal("body", <<WDec(size), WDec(WSub(fed, p))>>)
                    ELSE err
     ELSE /\ ret = [got |-> TRUE, hdr |-> h, size |-> size]
          /\ need' = None /\ open' = size /\ err' = err

Poll(ret) ==
  /\ open \in {None, WZero}      \* the contract: the last message has been read
  /\ IF Finished
     THEN ret = Nothing /\ open' = None
          /\ UNCHANGED <<str, fed, closed, lim, pos, need, hdr, fin, err>>
     ELSE IF need # None THEN Body(pos, hdr, need, ret)
     ELSE IF WLess(Avail, W(5))
     THEN /\ ret = Nothing
          /\ fin' = closed
          /\ err' = IF closed /\ Avail # WZero THEN Internal("header", <<>>) ELSE err
          /\ open' = None
          /\ UNCHANGED <<str, fed, closed, lim, pos, need, hdr>>
     ELSE IF ~Until(WAdd(pos, W(5)))    \* no header, and nothing behind it: the end
     THEN /\ ret = Nothing
          /\ fin' = TRUE /\ pos' = lim /\ open' = None
          /\ UNCHANGED <<str, fed, closed, lim, need, hdr, err>>
     ELSE LET h == BytesAt(pos, 5) p == WAdd(pos, W(5)) IN
          IF h[1] # 0
          THEN /\ ret = Nothing
               /\ pos' = p /\ hdr' = h
               /\ err' = Internal("flag", <<WDec(W(h[1]))>>)
               /\ open' = None
               /\ UNCHANGED <<str, fed, closed, lim, need, fin>>
          ELSE Body(p, h, SizeOf(h), ret)

(* The reader of a message takes up to n bytes (all: whatever is left). It   *)
(* sees the end of the message if it asked for more than there was.          *)
Left == IF lim = None THEN open ELSE WMin(open, WSub(lim, pos))
Read(all, n, got, eof) ==
  /\ open # None
  /\ got = IF all THEN Left ELSE WMin(n, Left)
  /\ eof = (all \/ WLess(Left, n))
  /\ pos' = WAdd(pos, got)
  /\ open' = IF eof THEN None ELSE WSub(open, got)
  /\ UNCHANGED <<str, fed, closed, lim, need, hdr, fin, err>>
Drop == /\ open \in {None, WZero} /\ open' = None
        /\ UNCHANGED <<str, fed, closed, lim, pos, need, hdr, fin, err>>
=============================================================================
