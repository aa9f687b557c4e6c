------------------------- MODULE Trace_MessageReader -------------------------
(* Recorded sessions of a reader over a scripted source. ASPECT: "frames"    *)
(* (what is yielded), "lazy" (what is consumed, and that no more is asked    *)
(* for than there is), "errors" (status and end), "all".                     *)
EXTENDS MessageReader, Trace
VARIABLE l
Aspect == IOEnv.ASPECT
TInit == RInit /\ l = 1
TStart == /\ str' = <<>> /\ fed' = WZero /\ closed' = FALSE /\ lim' = None
          /\ pos' = WZero /\ need' = None /\ hdr' = <<0, 0, 0, 0, 0>>
          /\ fin' = FALSE /\ err' = NoErr /\ open' = None

Rets(e) == LET k == IF need # None THEN need
                    ELSE IF WLess(Avail, W(5)) THEN WZero
                    ELSE SizeOf(BytesAt(pos, 5))
               h == IF need # None THEN hdr
                    ELSE IF WLess(Avail, W(5)) THEN <<>> ELSE BytesAt(pos, 5)
           IN {Nothing, [got |-> TRUE, hdr |-> h, size |-> k]}
TPoll(e) ==
  \E ret \in Rets(e) :
    /\ Poll(ret)
    /\ Aspect \in {"frames", "errors", "all"} => e.o.got = ret.got
    /\ (Aspect \in {"frames", "all"} /\ e.a = "pollf" /\ ret.got) => e.o.hdr = ret.hdr /\ e.o.size = ret.size
TRead(e) ==
  LET all == e.n[1] < 0
      got == IF all THEN Left ELSE WMin(e.n, Left)
      eof == all \/ WLess(Left, e.n)
  IN /\ Read(all, e.n, got, eof)
     /\ Aspect \in {"frames", "all"} =>
          /\ e.o.n = got /\ e.o.eof = eof /\ e.o.match
          /\ got[1] = 0 /\ got[2] <= 512 => e.o.b = BytesAt(pos, got[2])

(* The text of a status says what is wrong, with the numbers in it.          *)
Numbers(t) == LET d == [i \in 1..Len(t) |-> IF t[i] \in 48..57 THEN t[i] ELSE SPACE]
                  NonEmpty(x) == x # <<>>
              IN SelectSeq(Split(d, SPACE), NonEmpty)
Says(t, w) == \E i \in 1..(Len(t) - Len(w) + 1) : SubSeq(t, i, i + Len(w) - 1) = w
Told(t, er) ==
  /\ Numbers(t) = er.n
  /\ Says(t, <<104, 101, 97, 100, 101, 114>>) = (er.what = "header")
  /\ Says(t, <<102, 108, 97, 103>>) = (er.what = "flag")
Seen(e) ==
  /\ Aspect \in {"frames", "errors", "all"} => e.o.fin = (fin' \/ err' # NoErr)
  /\ Aspect \in {"errors", "all"} => e.o.code = err'.code /\ Told(e.o.msg, err')
  /\ Aspect \in {"lazy", "all"} => /\ e.o.cons[1] < 0 \/ e.o.cons = pos' \/ (lim' # None /\ fin')
                        /\ ~e.o.ovr
TNext ==
  /\ l <= Len(Events)
  /\ l' = l + 1
  /\ LET e == Events[l] IN
     CASE e.a = "start" -> TStart
       [] e.a = "feed"  -> Feed(e.b) /\ Seen(e)
       [] e.a = "pat"   -> FeedPattern(e.n) /\ Seen(e)
       [] e.a = "close" -> Close /\ Seen(e)
       [] e.a = "break" -> Break(e.n) /\ Seen(e)
       [] e.a \in {"poll", "pollf"} -> TPoll(e) /\ Seen(e)
       [] e.a = "read"  -> TRead(e) /\ Seen(e)
       [] e.a = "drop"  -> Drop /\ Seen(e)
Spec == TInit /\ [][TNext]_<<rvars, l>>
=============================================================================
