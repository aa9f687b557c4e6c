---------------------------- MODULE MC_Bindings ----------------------------
(* Templates of up to MaxSegs segments with every placement of up to two     *)
(* variables, and the requests their expansions give. The oracle expands the *)
(* template's segments into request segments and collects what a variable's  *)
(* own segments expand to; the specification finds the same by positions.    *)
EXTENDS PathMatcher, Json
CONSTANTS MaxSegs, MaxReps, Export
VARIABLES segs, spans, reps, mode
mv == <<segs, spans, reps, mode>>

Alpha == {<<97>>, SegStar, SegStars}
SegSeqs == {s \in UNION {[1..k -> Alpha] : k \in 1..MaxSegs} : OnlyLiteralsBehind(s)}
Spans(n) ==
  LET I == {<<a, b>> \in (1..n) \X (1..n) : a <= b}
      P == {ij \in I \X I : ij[1][2] < ij[2][1]}
  IN {<<i>> : i \in I} \cup P

MCInit ==
  /\ Init
  /\ segs \in SegSeqs
  /\ spans \in Spans(Len(segs))
  /\ reps \in (IF Wildcard(segs) = 0 THEN {1}
              ELSE IF Wildcard(segs) = Len(segs) THEN 0..MaxReps ELSE 1..MaxReps)
  /\ mode \in {KeepReserved, KeepSlash, KeepNone}
MCSpec == MCInit /\ [][FALSE]_<<vars, mv>>

(* Segment i expands to: itself; "%2F%26" and a digit; or several of those.  *)
Piece(i, j) == <<37, 50, 70, 37, 50, 54, 48 + i, 48 + j>>
Expand(i) == IF segs[i] = SegStar THEN <<Piece(i, 0)>>
             ELSE IF segs[i] = SegStars THEN [j \in 1..reps |-> Piece(i, j)]
             ELSE <<segs[i]>>
RECURSIVE Expansion(_, _)
Expansion(a, b) == IF a > b THEN <<>> ELSE Expand(a) \o Expansion(a + 1, b)
Parts == Expansion(1, Len(segs))

InSpan(i) == \E k \in 1..Len(spans) : spans[k][1] <= i /\ i <= spans[k][2]
SegText(i) ==
  <<SLASH>>
  \o (IF \E k \in 1..Len(spans) : spans[k][1] = i
      THEN <<LBRACE, 120, EQ>> ELSE <<>>)
  \o segs[i]
  \o (IF \E k \in 1..Len(spans) : spans[k][2] = i THEN <<RBRACE>> ELSE <<>>)
RECURSIVE TextFrom(_)
TextFrom(i) == IF i > Len(segs) THEN <<>> ELSE SegText(i) \o TextFrom(i + 1)
Text == TextFrom(1)
Path == <<SLASH>> \o Join(Parts, SLASH)

Oracle ==
  [k \in 1..Len(spans) |->
     LET a == spans[k][1] b == spans[k][2]
         multi == b > a \/ \E i \in a..b : segs[i] = SegStars
         ex == Expansion(a, b)
     IN [f |-> <<<<120>>>>,
         v |-> Join([i \in 1..Len(ex) |->
                       Decode(ex[i], IF multi THEN mode ELSE KeepNone, FALSE)], SLASH)]]

Tab == RegisterIn(<<>>, FALSE, <<71>>, Text, <<>>, {}, 1).table
ByPosition ==
  LET k == Winner(Tab, <<71>>, Request(Path, {}, FALSE)) IN
  /\ k # NoKey
  /\ [i \in 1..Len(Tab[k].vars) |->
        PathBinding(Tab[k].vars[i], Request(Path, {}, FALSE).parts, mode)] = Oracle
Exported == Export => PrintT(ToJson([t |-> Text, p |-> Path, mode |-> mode, b |-> Oracle]))
=============================================================================
