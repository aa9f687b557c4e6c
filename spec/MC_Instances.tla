---------------------------- MODULE MC_Instances ----------------------------
(* Two frame readers, each with a stream of its own, in every interleaving.  *)
(* A reader is what MessageReader says, whatever the other one does: no step *)
(* of one changes what the other has yielded, consumed or reported. The code *)
(* has to go along with every transition of the product.                     *)
EXTENDS Wide, Bytes, Json, TLC
CONSTANTS Wires, Cuts, Export
SomeWires == {<<0, 0, 0, 0, 1, 65>>, <<0, 0, 0, 0, 2, 66, 67>>, <<0, 0, 0, 0, 2, 66>>, <<1, 0, 0, 0, 0>>}
VARIABLES strA, fedA, closedA, limA, posA, needA, hdrA, finA, errA, openA, wireA, nA,
          strB, fedB, closedB, limB, posB, needB, hdrB, finB, errB, openB, wireB, nB,
          act
A == INSTANCE MessageReader WITH str <- strA, fed <- fedA, closed <- closedA, lim <- limA, pos <- posA, need <- needA,
       hdr <- hdrA, fin <- finA, err <- errA, open <- openA
B == INSTANCE MessageReader WITH str <- strB, fed <- fedB, closed <- closedB, lim <- limB, pos <- posB, need <- needB,
       hdr <- hdrB, fin <- finB, err <- errB, open <- openB
va == <<strA, fedA, closedA, limA, posA, needA, hdrA, finA, errA, openA, wireA, nA>>
vb == <<strB, fedB, closedB, limB, posB, needB, hdrB, finB, errB, openB, wireB, nB>>

MCInit == /\ A!RInit /\ B!RInit /\ nA = 0 /\ nB = 0
          /\ wireA \in Wires /\ wireB \in Wires
          /\ act = [a |-> "init"]

Obs(fin, err, pos, o) == [o |-> o, fin |-> (fin \/ err # A!NoErr), code |-> err.code, cons |-> pos]
Ends(w, d) == {k \in Cuts \cup {Len(w)} : k > d /\ k <= Len(w)}
Rets(w) == {A!Nothing, [got |-> TRUE, hdr |-> SubSeq(w, 1, 5), size |-> W(w[5])]}

StepA ==
  /\ UNCHANGED vb
  /\ \/ \E k \in Ends(wireA, fedA[2]) : LET s == SubSeq(wireA, fedA[2] + 1, k) IN
          /\ A!Feed(s) /\ UNCHANGED <<wireA, nA>>
          /\ act' = [i |-> 0, a |-> "feed", b |-> s] @@ Obs(finA', errA', posA', 0)
     \/ /\ fedA[2] = Len(wireA) /\ A!Close /\ UNCHANGED <<wireA, nA>>
        /\ act' = [i |-> 0, a |-> "close"] @@ Obs(finA', errA', posA', 0)
     \/ \E ret \in Rets(wireA) :
          /\ A!Poll(ret) /\ nA' = (IF ret.got THEN nA + 1 ELSE nA) /\ UNCHANGED wireA
          /\ act' = [i |-> 0, a |-> "pollf"] @@ Obs(finA', errA', posA', ret)
     \/ /\ openA # <<>> /\ A!Read(TRUE, W(0), openA, TRUE) /\ UNCHANGED <<wireA, nA>>
        /\ act' = [i |-> 0, a |-> "read"] @@ Obs(finA', errA', posA', [b |-> A!BytesAt(posA, openA[2])])
StepB ==
  /\ UNCHANGED va
  /\ \/ \E k \in Ends(wireB, fedB[2]) : LET s == SubSeq(wireB, fedB[2] + 1, k) IN
          /\ B!Feed(s) /\ UNCHANGED <<wireB, nB>>
          /\ act' = [i |-> 1, a |-> "feed", b |-> s] @@ Obs(finB', errB', posB', 0)
     \/ /\ fedB[2] = Len(wireB) /\ B!Close /\ UNCHANGED <<wireB, nB>>
        /\ act' = [i |-> 1, a |-> "close"] @@ Obs(finB', errB', posB', 0)
     \/ \E ret \in Rets(wireB) :
          /\ B!Poll(ret) /\ nB' = (IF ret.got THEN nB + 1 ELSE nB) /\ UNCHANGED wireB
          /\ act' = [i |-> 1, a |-> "pollf"] @@ Obs(finB', errB', posB', ret)
     \/ /\ openB # <<>> /\ B!Read(TRUE, W(0), openB, TRUE) /\ UNCHANGED <<wireB, nB>>
        /\ act' = [i |-> 1, a |-> "read"] @@ Obs(finB', errB', posB', [b |-> B!BytesAt(posB, openB[2])])
MCNext == StepA \/ StepB
MCSpec == MCInit /\ [][MCNext]_<<va, vb, act>>

(* What a reader has done depends on its own stream only.                    *)
Own(w, fed, closed, n, pos, err) ==
  LET whole == Len(w) >= 5 /\ w[1] = 0 /\ Len(w) = 5 + w[5]
      there == fed[2] = Len(w) IN
  /\ n = 1 => whole /\ there
  /\ n <= 1
  /\ err # A!NoErr => ~whole /\ fed[2] >= 5 /\ (w[1] # 0 \/ closed)
  /\ pos[2] <= fed[2]
OwnA == Own(wireA, fedA, closedA, nA, posA, errA)
OwnB == Own(wireB, fedB, closedB, nB, posB, errB)

View == <<va, vb>>
St == [w |-> <<wireA, wireB>>, s |-> <<fedA, closedA, limA, posA, needA, finA, errA.code, openA, nA,
                                      fedB, closedB, limB, posB, needB, finB, errB.code, openB, nB>>]
Edge == Export => PrintT(ToJson([f |-> St, t |-> St', a |-> act']))
=============================================================================
