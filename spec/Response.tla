------------------------------ MODULE Response ------------------------------
(* Translating a stream of gRPC frames to JSON, as it arrives                *)
(* (response_to_json_translator.cc). What MessageReader says about the bytes *)
(* of frames is taken for granted here: a frame is [size, fl, good, ..]: the *)
(* size of its message, its flag byte, and whether the message is one of the *)
(* type. The stream may be cut off anywhere.                                 *)
(*                                                                           *)
(* State of one translation, a record s:                                     *)
(*   c      its configuration: [type, str, nd, ws, prim, ei, pn]             *)
(*   frames, fed, closed   what is sent, how many bytes of it have arrived,  *)
(*          and whether that is all there will be                            *)
(*   i, base  the number of frames taken, and of the bytes they took         *)
(*   fin, err finished for good; with an error                               *)
EXTENDS Message

Begin(c, frames) == [c |-> c, frames |-> frames, fed |-> 0, closed |-> FALSE,
                     i |-> 0, base |-> 0, fin |-> FALSE, err |-> FALSE]
More(s, k) == [s EXCEPT !.fed = @ + k]
NoMore(s) == [s EXCEPT !.closed = TRUE]

IsArray(c) == c.str /\ ~c.nd
LF == 10
(* What surrounds the i-th document.                                         *)
Before(c, i) == IF ~IsArray(c) THEN <<>> ELSE IF i = 1 THEN <<LBRACKET>> ELSE <<COMMA>>
Behind(c) == IF c.str /\ c.nd THEN <<LF>> ELSE <<>>
(* What is said when a stream is over.                                       *)
Ending(s) == IF ~IsArray(s.c) THEN <<>>
             ELSE IF s.i = 0 THEN <<LBRACKET, RBRACKET>> ELSE <<RBRACKET>>

(* The effect of asking for output: the new state, whether there is output,  *)
(* and if there is: pre, the JSON of message number i (nothing if 0), post.  *)
Answer(s) ==
  LET quiet(x) == [s |-> x, got |-> FALSE, pre |-> <<>>, i |-> 0, post |-> <<>>]
      failed == quiet([s EXCEPT !.err = TRUE])
      avail == s.fed - s.base
      f == s.frames[s.i + 1]
      taken == [s EXCEPT !.i = @ + 1, !.base = @ + 5 + f.size, !.fin = ~s.c.str]
  IN IF s.fin \/ s.err THEN quiet(s)
     ELSE IF avail < 5
     THEN IF ~s.closed THEN quiet(s)
          ELSE IF avail > 0 THEN failed
          ELSE IF s.c.str
          THEN [s |-> [s EXCEPT !.fin = TRUE], got |-> TRUE, pre |-> Ending(s), i |-> 0, post |-> <<>>]
          ELSE quiet(s)
     ELSE IF f.fl # 0 THEN failed
     ELSE IF avail - 5 < f.size THEN (IF s.closed THEN failed ELSE quiet(s))
     ELSE IF ~f.good THEN failed
     ELSE [s |-> taken, got |-> TRUE, pre |-> Before(s.c, s.i + 1), i |-> s.i + 1, post |-> Behind(s.c)]

(***************************************************************************)
(* Whether a document is written as the print options ask: names of fields,  *)
(* enum values as names or numbers, all singular scalars and lists, or only  *)
(* those that are set.                                                       *)
(***************************************************************************)
RECURSIVE AsAsked(_, _, _)
AsAsked(t, v, c) ==
  LET fs == Fields(t)
      name(i) == IF c.pn THEN fs[i].n ELSE fs[i].j
      kids(i) == {j \in 1..Len(v.c) : v.c[j].n = name(i)}
      values(i) == IF fs[i].rep THEN {x.v : x \in UNION {ToSet(v.c[j].v.c) : j \in kids(i)}}
                   ELSE {v.c[j].v : j \in kids(i)}
  IN /\ v.k = "obj"
     /\ \A j \in 1..Len(v.c) : \E i \in 1..Len(fs) : v.c[j].n = name(i)
     /\ \A i \in 1..Len(fs) :
          /\ Cardinality(kids(i)) <= 1
          /\ \A j \in kids(i) : fs[i].rep => v.c[j].v.k = "arr"
          /\ c.prim /\ (fs[i].rep \/ fs[i].k # "message") => kids(i) # {}
          /\ \A x \in values(i) :
               CASE fs[i].k = "message" -> AsAsked(fs[i].t, x, c)
                 [] fs[i].k = "enum" -> x.k = (IF c.ei THEN "num" ELSE "str")
                 [] OTHER -> TRUE

(* Whether text is the JSON of message m, as asked for.                      *)
Renders(c, text, m) ==
  LET d == Document(text) IN
  /\ d # <<>>
  /\ AsAsked(c.type, d[1], c)
  /\ LET r == Denote(c.type, d[1], FALSE) IN r.ok /\ SameMessage(m, r.m)
  /\ c.ws = Has(text, LF) \/ d[1].c = <<>>

(* The whole output of a stream without defect: the messages it shows.       *)
Shown(c, text) ==
  IF IsArray(c)
  THEN LET d == Document(text) IN
       IF d = <<>> \/ d[1].k # "arr" THEN [ok |-> FALSE, v |-> <<>>]
       ELSE [ok |-> TRUE, v |-> [j \in 1..Len(d[1].c) |-> d[1].c[j].v]]
  ELSE IF c.str
  THEN LET ls == Split(text, LF)
           ds == [j \in 1..(Len(ls) - 1) |-> Document(ls[j])]
           ok == ls[Len(ls)] = <<>> /\ \A j \in 1..Len(ds) : ds[j] # <<>>
       IN [ok |-> ok, v |-> IF ok THEN [j \in 1..Len(ds) |-> ds[j][1]] ELSE <<>>]
  ELSE LET d == Document(text) IN [ok |-> d # <<>>, v |-> d]
=============================================================================
