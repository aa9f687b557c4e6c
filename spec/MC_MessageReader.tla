-------------------------- MODULE MC_MessageReader --------------------------
(* Every stream of up to MaxFrames small frames (some with a bad flag), cut  *)
(* off anywhere, arriving in every chunking, with every interleaving of      *)
(* polls and reads. A frame decoder that sees the whole stream at once says  *)
(* what has to come out.                                                     *)
EXTENDS MessageReader, FiniteSets, Json, TLC
CONSTANTS MaxFrames, Sizes, Breaks, Export
VARIABLES wire,   \* what the sender sends
          n,      \* how many messages have been yielded
          act     \* the last action and what was observed
mv == <<rvars, wire, n, act>>

Frame(f, k) == <<f, 0, 0, 0, k>> \o [i \in 1..k |-> 7 + i]
Frames == {Frame(f, k) : f \in {0, 1}, k \in Sizes}
RECURSIVE Wires(_)
Wires(k) == IF k = 0 THEN {<<>>}
            ELSE {f \o w : f \in Frames, w \in Wires(k - 1)}
MCInit == RInit /\ n = 0 /\ wire \in Wires(MaxFrames) /\ act = [a |-> "init"]

D == fed[2]
Obs(o) == [o |-> o, fin |-> (fin' \/ err' # NoErr), code |-> err'.code, err |-> [w |-> err'.what, n |-> err'.n], cons |-> pos']
DoFeed == \E k \in 1..(Len(wire) - D) :
  /\ Feed(SubSeq(wire, D + 1, D + k)) /\ UNCHANGED <<wire, n>>
  /\ act' = [a |-> "feed", b |-> SubSeq(wire, D + 1, D + k)] @@ Obs(0)
DoClose == Close /\ UNCHANGED <<wire, n>> /\ act' = [a |-> "close"] @@ Obs(0)
PollRet == IF open \notin {None, WZero} \/ Finished THEN {Nothing}
           ELSE {Nothing} \cup
                {[got |-> TRUE, hdr |-> <<0, 0, 0, 0, k>>, size |-> W(k)] : k \in Sizes}
DoPoll == \E ret \in PollRet :
  /\ Poll(ret)
  /\ n' = IF ret.got THEN n + 1 ELSE n
  /\ act' = [a |-> "poll"] @@ Obs(ret)
  /\ UNCHANGED wire
DoRead == \E k \in {1, 9} :     \* 9: more than any message has
  /\ open # None
  /\ Read(FALSE, W(k), WMin(W(k), Left), WLess(Left, W(k)))
  /\ act' = [a |-> "read", n |-> k]
            @@ Obs([b |-> BytesAt(pos, WMin(W(k), Left)[2]), eof |-> WLess(Left, W(k))])
  /\ UNCHANGED <<wire, n>>
DoBreak == \E k \in Breaks :
  /\ pos[2] + k <= D /\ Break(W(pos[2] + k)) /\ UNCHANGED <<wire, n>> /\ act' = [a |-> "break", n |-> pos[2] + k] @@ Obs(0)
MCNext == DoFeed \/ DoClose \/ DoPoll \/ DoRead \/ DoBreak
MCSpec == MCInit /\ [][MCNext]_mv

(***************************************************************************)
(* The whole stream, decoded at once: where the complete frames are, and     *)
(* what is wrong behind them.                                                *)
(***************************************************************************)
RECURSIVE Decoded(_, _)
Decoded(w, p) ==    \* p: bytes in front of this frame
  IF Len(w) < 5 THEN [at |-> <<>>, rest |-> IF w = <<>> THEN "clean" ELSE "header", end |-> p]
  ELSE IF w[1] # 0 THEN [at |-> <<>>, rest |-> "flag", end |-> p]
  ELSE IF Len(w) < 5 + w[5] THEN [at |-> <<>>, rest |-> "body", end |-> p]
  ELSE LET d == Decoded(SubSeq(w, 6 + w[5], Len(w)), p + 5 + w[5])
       IN [d EXCEPT !.at = <<[p |-> p + 5, k |-> w[5]]>> \o @]
All == Decoded(SubSeq(wire, 1, D), 0)

(* Yielded messages are the frames, in order; an open one lies where its     *)
(* body lies.                                                                *)
InOrder ==
  /\ n <= Len(All.at)
  /\ open # None => pos[2] + open[2] = All.at[n].p + All.at[n].k
(* Consumed: exactly what has been handed out, and a header that is known.   *)
Handed == IF n = 0 THEN 0
          ELSE All.at[n].p + All.at[n].k - (IF open = None THEN 0 ELSE open[2])
Lazy == lim = None => pos[2] = Handed + (IF need # None \/ (err # NoErr /\ All.rest = "flag") THEN 5 ELSE 0)
(* A poll that yields nothing has had everything there is.                   *)
Missed == act'.a = "poll" /\ ~act'.o.got
Told == IF lim = None THEN Len(All.at)
        ELSE Cardinality({i \in 1..Len(All.at) : All.at[i].p <= lim[2]})
NothingMissed == [][Missed => n' = Told]_mv
(* A source that breaks off: nothing behind is taken, no frame whose header  *)
(* is not there comes out, and there is an end.                              *)
BrokenOff ==
  lim # None => /\ pos[2] <= lim[2]
                /\ n > 0 => All.at[n].p <= lim[2] \/ All.at[n].p <= pos[2]
BrokenEnds == [][(Missed /\ lim # None /\ lim[2] - pos[2] < 5 /\ Avail[2] >= 5 /\ need = None)
                  => Finished']_mv
(* Errors: only behind a defect that can not be mended by more input; and    *)
(* found by the first poll behind it.                                        *)
ErrorSound ==
  /\ (err # NoErr /\ lim = None) =>
       /\ n = Len(All.at)
       /\ All.rest = "flag" \/ (closed /\ All.rest \in {"header", "body"})
  /\ Finished => open = None
ErrorFound ==
  [][(Missed /\ lim = None) =>
        /\ (err' # NoErr) = (All.rest = "flag" \/ (closed /\ All.rest # "clean"))
        /\ Finished' = (closed \/ All.rest = "flag")]_mv
Sticky == [][Finished => /\ Finished' /\ err' = err /\ n' = n /\ pos' = pos]_mv

View == <<fed, closed, lim, pos, need, hdr, fin, err, open, wire, n>>
St == [w |-> wire, s |-> <<fed, closed, pos, need, fin, err.code, open, n, lim>>]
Edge == Export => PrintT(ToJson([f |-> St, t |-> St', a |-> act']))
=============================================================================
