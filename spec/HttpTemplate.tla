---------------------------- MODULE HttpTemplate ----------------------------
(* URL templates (http_template.h):                                          *)
(*                                                                           *)
(*   Template  = "/" | "/" Segments [ Verb ]                                 *)
(*   Segments  = Segment { "/" Segment }                                     *)
(*   Segment   = "*" | "**" | LITERAL | Variable                             *)
(*   Variable  = "{" FieldPath [ "=" Segments ] "}"                          *)
(*   FieldPath = IDENT { "." IDENT }                                         *)
(*   Verb      = ":" LITERAL                                                 *)
(*                                                                           *)
(* LITERAL: a nonempty run of bytes other than '/', ':' and '}'; as a        *)
(* segment it begins with neither '*' nor '{'. IDENT: a nonempty run of      *)
(* bytes other than '.', '=' and '}'. Variables do not nest, and behind the  *)
(* first "**" there are only literals.                                       *)
EXTENDS Bytes

SegStar  == <<STAR>>
SegStars == <<STAR, STAR>>
IsWild(seg) == seg = SegStar \/ seg = SegStars

LiteralStop == {SLASH, COLON, RBRACE}
IdentStop   == {DOT, EQ, RBRACE}

(***************************************************************************)
(* Operational: recursive descent. A parser state p is a record; `at` is the *)
(* next position, or 0 once the parse has failed.                            *)
(***************************************************************************)
Failed(p) == [p EXCEPT !.at = 0]
Cur(s, p) == IF p.at >= 1 /\ p.at <= Len(s) THEN s[p.at] ELSE -1

ParseLiteral(s, p) ==
  LET e == NextIn(s, p.at, LiteralStop)
  IN IF e = p.at THEN Failed(p)
     ELSE [p EXCEPT !.at = e, !.segs = Append(@, SubSeq(s, p.at, e - 1))]

RECURSIVE ParseFieldPath(_, _, _)
ParseFieldPath(s, p, fp) ==    \* at an IDENT; puts the field path into p.fp
  LET e == NextIn(s, p.at, IdentStop)
      f == Append(fp, SubSeq(s, p.at, e - 1))
  IN IF e = p.at THEN Failed(p)
     ELSE IF e <= Len(s) /\ s[e] = DOT
          THEN ParseFieldPath(s, [p EXCEPT !.at = e + 1], f)
     ELSE [p EXCEPT !.at = e, !.fp = f]

RECURSIVE ParseSegments(_, _), ParseSegment(_, _)
ParseSegment(s, p) ==
  CASE p.at = 0 \/ p.at > Len(s) -> Failed(p)
    [] s[p.at] = STAR ->
         IF p.at < Len(s) /\ s[p.at + 1] = STAR
         THEN [p EXCEPT !.at = @ + 2, !.segs = Append(@, SegStars)]
         ELSE [p EXCEPT !.at = @ + 1, !.segs = Append(@, SegStar)]
    [] s[p.at] = LBRACE ->
         IF p.in THEN Failed(p) ELSE
         LET start == Len(p.segs)
             q == ParseFieldPath(s, [p EXCEPT !.at = @ + 1, !.in = TRUE], <<>>)
             r == IF q.at = 0 THEN q
                  ELSE IF Cur(s, q) = EQ
                       THEN ParseSegments(s, [q EXCEPT !.at = @ + 1])
                       ELSE [q EXCEPT !.segs = Append(@, SegStar)]
         IN IF r.at = 0 \/ Cur(s, r) # RBRACE THEN Failed(r)
            ELSE [r EXCEPT !.at = @ + 1, !.in = FALSE,
                           !.vars = Append(@, [fp |-> q.fp, s |-> start,
                                               e |-> Len(r.segs)])]
    [] OTHER -> ParseLiteral(s, p)
ParseSegments(s, p) ==
  LET q == ParseSegment(s, p)
  IN IF q.at # 0 /\ Cur(s, q) = SLASH
     THEN ParseSegments(s, [q EXCEPT !.at = @ + 1])
     ELSE q

OnlyLiteralsBehind(segs) ==
  \A i, j \in 1..Len(segs) : i < j /\ segs[i] = SegStars => ~IsWild(segs[j])

(* A variable stands for the template's segments s+1 .. e. Positions in      *)
(* front of the "**" are counted from the start of the path. What lies at or *)
(* behind its end is counted from the end of the path: -1 is the end itself. *)
Wildcard(segs) ==   \* the position of "**", 0 if there is none
  LET P == {i \in 1..Len(segs) : segs[i] = SegStars}
  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j

Locate(segs, v) ==
  LET w == Wildcard(segs)
      n == Len(segs)
      Rel(k) == k - n - 1
  IN [fp |-> v.fp,
      s |-> IF w # 0 /\ v.s >= w THEN Rel(v.s) ELSE v.s,
      e |-> IF w # 0 /\ v.e >= w THEN Rel(v.e) ELSE v.e,
      w |-> \E k \in (v.s + 1)..v.e : segs[k] = SegStars]

NoTemplate == [ok |-> FALSE, segs |-> <<>>, verb |-> <<>>, vars |-> <<>>]

Parse(s) ==
  IF s = <<SLASH>> THEN [NoTemplate EXCEPT !.ok = TRUE]
  ELSE IF Len(s) = 0 \/ s[1] # SLASH THEN NoTemplate
  ELSE LET p == ParseSegments(s, [at |-> 2, in |-> FALSE, segs |-> <<>>,
                                  vars |-> <<>>, fp |-> <<>>])
       IN IF p.at = 0 THEN NoTemplate
          ELSE LET hasVerb == Cur(s, p) = COLON
                   verb == IF hasVerb THEN SubSeq(s, p.at + 1, Len(s)) ELSE <<>>
                   end  == IF hasVerb
                           THEN verb # <<>> /\ \A i \in 1..Len(verb) :
                                                  verb[i] \notin LiteralStop
                           ELSE p.at = Len(s) + 1
               IN IF end /\ OnlyLiteralsBehind(p.segs)
                  THEN [ok |-> TRUE, segs |-> p.segs, verb |-> verb,
                        vars |-> [k \in 1..Len(p.vars) |->
                                    Locate(p.segs, p.vars[k])]]
                  ELSE NoTemplate

(***************************************************************************)
(* Declarative: the language of the grammar above, as membership by cases    *)
(* on how a string can be cut, with no parsing order at all. Derivations(s)  *)
(* is the set of parses of s as Segments: it has at most one element (the    *)
(* grammar is unambiguous; checked as an invariant).                         *)
(***************************************************************************)
Free(s, C) == \A i \in 1..Len(s) : s[i] \notin C
IsLiteral(s) == s # <<>> /\ Free(s, LiteralStop)
IsIdent(s)   == s # <<>> /\ Free(s, IdentStop)

RECURSIVE FieldPaths(_)
FieldPaths(s) ==
  (IF IsIdent(s) THEN {<<s>>} ELSE {})
  \cup UNION {{<<SubSeq(s, 1, i - 1)>> \o fp :
                 fp \in FieldPaths(SubSeq(s, i + 1, Len(s)))} :
              i \in {i \in 1..Len(s) : s[i] = DOT /\ IsIdent(SubSeq(s, 1, i - 1))}}

(* A derivation is a sequence of items: a plain segment, or a variable with  *)
(* its own sequence of plain segments.                                       *)
Plain(s) == IF s = SegStar \/ s = SegStars
               \/ (IsLiteral(s) /\ s[1] # STAR /\ s[1] # LBRACE)
            THEN {s} ELSE {}
RECURSIVE PlainSegs(_)
PlainSegs(s) ==
  {<<x>> : x \in Plain(s)}
  \cup UNION {{<<x>> \o r : x \in Plain(SubSeq(s, 1, i - 1)),
                            r \in PlainSegs(SubSeq(s, i + 1, Len(s)))} :
              i \in {i \in 1..Len(s) : s[i] = SLASH}}
Var(s) ==
  IF Len(s) < 2 \/ s[1] # LBRACE \/ s[Len(s)] # RBRACE THEN {} ELSE
  LET b == SubSeq(s, 2, Len(s) - 1) IN
  {[fp |-> f, segs |-> <<SegStar>>] : f \in FieldPaths(b)}
  \cup UNION {{[fp |-> f, segs |-> g] : f \in FieldPaths(SubSeq(b, 1, i - 1)),
                                        g \in PlainSegs(SubSeq(b, i + 1, Len(b)))} :
              i \in {i \in 1..Len(b) : b[i] = EQ}}
Item(s) == {[fp |-> <<>>, segs |-> <<x>>] : x \in Plain(s)} \cup Var(s)
RECURSIVE Derivations(_)
Derivations(s) ==
  {<<x>> : x \in Item(s)}
  \cup UNION {{<<x>> \o r : x \in Item(SubSeq(s, 1, i - 1)),
                            r \in Derivations(SubSeq(s, i + 1, Len(s)))} :
              i \in {i \in 1..Len(s) : s[i] = SLASH}}

ItemSegs(d) == FoldLeft(LAMBDA acc, x : acc \o x.segs, <<>>, d)
Meaning(d, verb) ==
  LET segs == ItemSegs(d)
      Start(k) == Len(ItemSegs(SubSeq(d, 1, k - 1)))
      IsVar(k) == d[k].fp # <<>>
      vs == SelectSeq([k \in 1..Len(d) |-> k], IsVar)
  IN [ok |-> TRUE, segs |-> segs, verb |-> verb,
      vars |-> [k \in 1..Len(vs) |->
                  Locate(segs, [fp |-> d[vs[k]].fp, s |-> Start(vs[k]),
                                e |-> Start(vs[k]) + Len(d[vs[k]].segs)])]]

Readings(s) ==   \* every way to read s as a Template
  IF s = <<SLASH>> THEN {[NoTemplate EXCEPT !.ok = TRUE]}
  ELSE IF Len(s) = 0 \/ s[1] # SLASH THEN {}
  ELSE {m \in
         {Meaning(d, <<>>) : d \in Derivations(Tail(s))}
         \cup UNION {{Meaning(d, SubSeq(s, i + 1, Len(s))) :
                        d \in Derivations(SubSeq(s, 2, i - 1))} :
                     i \in {i \in 2..Len(s) :
                              s[i] = COLON /\ IsLiteral(SubSeq(s, i + 1, Len(s)))}} :
         OnlyLiteralsBehind(m.segs)}
=============================================================================
