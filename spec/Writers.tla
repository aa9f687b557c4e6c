------------------------------- MODULE Writers -------------------------------
(* A document as a stream of events, on its way through a PrefixWriter       *)
(* (prefix_writer.cc), which puts it at the end of a path, and a             *)
(* RequestWeaver (request_weaver.cc), which adds values to it.               *)
(*                                                                           *)
(* An event is [e, n, t, v]: "so", "eo", "sl", "el" (an object or a list is  *)
(* opened or closed) or "v", a value of type t; n is the name where there is *)
(* one. A binding is [p, v]: a sequence of fields [n, j, rep] (name, JSON    *)
(* name, whether repeated), and the text of its value.                       *)
EXTENDS Decimal, Base64

So(n) == [e |-> "so", n |-> n, t |-> "", v |-> <<>>]
Eo == [e |-> "eo", n |-> <<>>, t |-> "", v |-> <<>>]
Sl(n) == [e |-> "sl", n |-> n, t |-> "", v |-> <<>>]
El == [e |-> "el", n |-> <<>>, t |-> "", v |-> <<>>]
V(n, t, v) == [e |-> "v", n |-> n, t |-> t, v |-> v]
Opens(ev) == ev.e \in {"so", "sl"}
Closes(ev) == ev.e \in {"eo", "el"}

(***************************************************************************)
(* The prefix: what one event becomes at the given depth.                    *)
(***************************************************************************)
Repeat(x, n) == [i \in 1..n |-> x]
Deeper(d, ev) == IF Opens(ev) THEN d + 1 ELSE IF Closes(ev) THEN d - 1 ELSE d
Prefixed(pre, d, ev) ==
  LET k == Len(pre)
      first == d = 0
      last == Deeper(d, ev) = 0
      names == <<ev.n>> \o pre
  IN (IF first THEN [i \in 1..k |-> So(names[i])] ELSE <<>>)
     \o <<IF first THEN [ev EXCEPT !.n = names[k + 1]] ELSE ev>>
     \o (IF last THEN Repeat(Eo, k) ELSE <<>>)

(***************************************************************************)
(* The weaver. State w: stk, for each object or list that is open, where it  *)
(* is (the fields from the root; or off: nowhere a binding leads to); pend,  *)
(* the bindings still to be placed; bad, whether a conflict has been found.  *)
(***************************************************************************)
At(p) == [on |-> TRUE, p |-> p]
Off == [on |-> FALSE, p |-> <<>>]
WInit(binds) == LET Real(b) == b.p # <<>>
                IN [stk |-> <<>>, pend |-> SelectSeq(binds, Real), bad |-> FALSE]
Top(w) == IF w.stk = <<>> THEN Off ELSE w.stk[Len(w.stk)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Names(f, n) == f.n = n \/ (n # <<>> /\ f.j = n)
Under(p, b) == Len(b.p) > Len(p) /\ SubSeq(b.p, 1, Len(p)) = p
(* The field of that name at p through which a binding goes on; or none.     *)
Through(w, p, n) ==
  LET S == {i \in 1..Len(w.pend) : LET b == w.pend[i] IN
              Under(p, b) /\ Len(b.p) > Len(p) + 1 /\ Names(b.p[Len(p) + 1], n)}
  IN IF S = {} THEN <<>> ELSE <<w.pend[CHOOSE i \in S : \A j \in S : i <= j].p[Len(p) + 1]>>
Here(w, b) == Top(w).on /\ Under(Top(w).p, b)
Bound(w, n, b) == /\ Here(w, b) /\ Len(b.p) = Len(Top(w).p) + 1
                  /\ Names(b.p[Len(b.p)], n)
IsRep(b) == b.p[Len(b.p)].rep

(* A sequence of balanced events as what it sets: paths (of names, below p)  *)
(* with text, in order; <<>> in a singleton is not one.                      *)
RECURSIVE Settings(_, _)
Settings(p, evs) ==
  IF evs = <<>> THEN <<>>
  ELSE IF Head(evs).e = "so" THEN Settings(Append(p, Head(evs).n), Tail(evs))
  ELSE IF Head(evs).e = "eo" THEN Settings(Pop(p), Tail(evs))
  ELSE <<[p |-> Append(p, Head(evs).n), v |-> Head(evs).v]>> \o Settings(p, Tail(evs))
(* The events up to the one that closes what was open before; 0: none does.  *)
RECURSIVE ClosedAt(_, _, _)
ClosedAt(evs, i, d) ==
  IF i > Len(evs) THEN 0
  ELSE IF Closes(evs[i]) THEN (IF d = 0 THEN i ELSE ClosedAt(evs, i + 1, d - 1))
  ELSE ClosedAt(evs, i + 1, IF Opens(evs[i]) THEN d + 1 ELSE d)
(* Whether no object in the events is opened twice under one name.           *)
RECURSIVE Objects(_, _)
Objects(p, evs) ==
  IF evs = <<>> THEN <<>>
  ELSE IF Head(evs).e = "so" THEN <<Append(p, Head(evs).n)>> \o Objects(Append(p, Head(evs).n), Tail(evs))
  ELSE IF Head(evs).e = "eo" THEN Objects(Pop(p), Tail(evs))
  ELSE Objects(p, Tail(evs))
IsOnce(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
FieldNames(p, k) == [i \in 1..(Len(p) - k) |-> p[k + i].n]
(* evs are a way to write the bindings bs, all below p: each message is      *)
(* opened once; the values of each field come in their order.                *)
Writes(evs, p, bs) ==
  /\ \A i \in 1..Len(evs) : evs[i].e \in {"so", "eo"} \/ (evs[i].e = "v" /\ evs[i].t = "str")
  /\ LET s == Settings(<<>>, evs) IN
     /\ Len(s) = Len(bs)
     /\ \A q \in {FieldNames(bs[i].p, Len(p)) : i \in 1..Len(bs)} :
          LET IsS(x) == x.p = q  IsB(b) == FieldNames(b.p, Len(p)) = q
              ss == SelectSeq(s, IsS)  bb == SelectSeq(bs, IsB)
          IN /\ Len(ss) = Len(bb)
             /\ \A i \in 1..Len(ss) : ss[i].v = bb[i].v
  /\ IsOnce(Objects(<<>>, evs))
  /\ \A i \in 1..Len(evs) : evs[i].e = "so" => i = Len(evs) \/ evs[i + 1].e # "eo"

(* Whether a bound text differs from a value of the body.                    *)
IsDecimal(s) ==
  LET d == FirstPos(s, DOT) IN
  /\ s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57 \/ (i = 1 /\ s[i] = 45 /\ Len(s) > 1) \/ (i = d /\ 1 < i /\ i < Len(s))
(* Besides true and false, protobuf knows more words for them. Bytes that a  *)
(* caller writes are compared with the text of a binding, or with what it    *)
(* stands for: not specified.                                                *)
Encodes(b, v) == Canonical64(b) /\ DecodeBase64(b) = v
OtherWord(ev, b) == \/ ev.t = "bool" /\ b.v # ev.v /\ Len(b.v) <= 3
                    \/ ev.t = "byt" /\ (b.v = ev.v) # Encodes(b.v, ev.v)
Clash(ev, b) == IF ev.t \in {"dbl", "flt"} THEN ~IsDecimal(b.v) \/ ~SameReal(b.v, ev.v, ev.t = "flt")
                ELSE IF ev.t = "byt" THEN ~Encodes(b.v, ev.v)
                ELSE b.v # ev.v

(* What may happen to the weaver on an event, given what comes out from here *)
(* on: [w, n], n being how much of out belongs to this event.                *)
WStep(w, ev, out, report) ==
  CASE ev.e = "so" ->
         IF out = <<>> \/ out[1] # ev THEN {}
         ELSE LET f == IF Top(w).on THEN Through(w, Top(w).p, ev.n) ELSE <<>>
                  at == IF w.stk = <<>> THEN At(<<>>) ELSE IF f = <<>> THEN Off ELSE At(Append(Top(w).p, f[1]))
              IN {[w |-> [w EXCEPT !.stk = Append(@, at)], n |-> 1]}
    [] ev.e = "sl" ->
         IF out = <<>> \/ out[1] # ev THEN {} ELSE {[w |-> [w EXCEPT !.stk = Append(@, Off)], n |-> 1]}
    [] ev.e = "el" ->
         IF out = <<>> \/ out[1] # ev THEN {} ELSE {[w |-> [w EXCEPT !.stk = Pop(@)], n |-> 1]}
    [] ev.e = "eo" ->
         LET k == ClosedAt(out, 1, 0)
             here(b) == Here(w, b)
             away(b) == ~Here(w, b)
         IN IF k = 0 \/ out[k] # ev \/ ~Writes(SubSeq(out, 1, k - 1), Top(w).p, SelectSeq(w.pend, here)) THEN {}
            ELSE {[w |-> [w EXCEPT !.stk = Pop(@), !.pend = SelectSeq(@, away)], n |-> k]}
    [] ev.e = "v" ->
         LET Hit(b) == ev.t # "nul" /\ Bound(w, ev.n, b)
             Rep(b) == Hit(b) /\ IsRep(b)
             Miss(b) == ~Hit(b)
             MissOrRep(b) == Miss(b) \/ IsRep(b)
             r == SelectSeq(w.pend, Rep)
             more == [i \in 1..Len(r) |-> V(ev.n, "str", r[i].v)]
             Single(b) == Hit(b) /\ ~IsRep(b)
             bads == IF w.bad \/ (report /\ \E i \in 1..Len(w.pend) : LET b == w.pend[i] IN
                                     Single(b) /\ Clash(ev, b) /\ ~OtherWord(ev, b)) THEN {TRUE}
                     ELSE IF report /\ \E i \in 1..Len(w.pend) : Single(w.pend[i]) /\ OtherWord(ev, w.pend[i])
                     THEN BOOLEAN ELSE {FALSE}
             Is(x) == Len(out) >= Len(x) /\ SubSeq(out, 1, Len(x)) = x
         IN (IF Is(more \o <<ev>>) \/ Is(<<ev>> \o more)
             THEN {[w |-> [w EXCEPT !.pend = SelectSeq(@, Miss), !.bad = bad], n |-> Len(more) + 1] : bad \in bads} ELSE {})
            \cup (IF more # <<>> /\ Is(<<ev>>)      \* or they may come later
                  THEN {[w |-> [w EXCEPT !.pend = SelectSeq(@, MissOrRep), !.bad = bad], n |-> 1] : bad \in bads} ELSE {})

RECURSIVE Woven(_, _, _, _)
(* The states the weaver may be in after the events evs, having put out out. *)
Woven(w, evs, out, report) ==
  IF evs = <<>> THEN (IF out = <<>> THEN {w} ELSE {})
  ELSE UNION {Woven(x.w, Tail(evs), SubSeq(out, x.n + 1, Len(out)), report) :
              x \in WStep(w, Head(evs), out, report)}
=============================================================================
