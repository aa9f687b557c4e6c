------------------------------ MODULE JsonText ------------------------------
(* JSON text, read byte by byte: after every byte the parser knows whether   *)
(* the text so far can still become JSON ("bad" if not), whether it is a     *)
(* whole document, and the part of the document that has been read.          *)
(*                                                                           *)
(* A document is a tree of nodes [k, b, c]: k is "obj", "arr", "str", "num", *)
(* "true", "false" or "null"; b the bytes of a string, decoded, or of a      *)
(* number, as written; c the children, each with its name n (<<>> in arrays).*)
EXTENDS Bytes

Node(k, b, c) == [k |-> k, b |-> b, c |-> c]
Child(n, v) == [n |-> n, v |-> v]
Null == Node("null", <<>>, <<>>)
EmptyObj == Node("obj", <<>>, <<>>)
IsScalar(v) == v.k \notin {"obj", "arr"}

LBRACKET == 91   RBRACKET == 93   QUOTE == 34   COMMA == 44   BACKSLASH == 92
MINUS == 45      ZERO == 48
Digits == 48..57
White == {32, 9, 10, 13}
TrueW == <<116, 114, 117, 101>>
FalseW == <<102, 97, 108, 115, 101>>
NullW == <<110, 117, 108, 108>>

(***************************************************************************)
(* The parser's state. m: what is expected next,                             *)
(*   "val" a value, "first" a value or "]", "key1" a key or "}", "key" a key,*)
(*   "colon", "post" a comma or the closing bracket, "end" nothing more,     *)
(*   "str", "esc", "hex" inside a string, "word" inside true/false/null,     *)
(*   "neg", "zero", "int", "dot", "frac", "exp", "sign", "pow" inside a      *)
(*   number, "bad" nothing helps any more.                                   *)
(* tok: the bytes of the token being read; hex: hex digits of a \u escape;   *)
(* iskey: the string is a key. stk: the containers open, outermost first,    *)
(* each [k, n, c]; key: the name of the value to come. root: the documents   *)
(* completed (at most one).                                                  *)
(***************************************************************************)
JInit == [m |-> "val", tok |-> <<>>, hex |-> <<>>, iskey |-> FALSE, stk |-> <<>>,
          key |-> <<>>, root |-> <<>>]
Bad(p) == [p EXCEPT !.m = "bad"]
IsBad(p) == p.m = "bad"
HasRoot(p) == p.root # <<>>

(* A value has been completed: it goes into the container around it.         *)
Put(p, v) ==
  IF p.stk = <<>> THEN [p EXCEPT !.m = "end", !.tok = <<>>, !.root = <<v>>]
  ELSE LET d == Len(p.stk) IN
       [p EXCEPT !.m = "post", !.tok = <<>>, !.key = <<>>,
                 !.stk = [@ EXCEPT ![d] = [@ EXCEPT !.c = Append(@, Child(p.key, v))]]]
Open(p, k) ==
  [p EXCEPT !.m = IF k = "obj" THEN "key1" ELSE "first", !.key = <<>>,
            !.stk = Append(@, [k |-> k, n |-> p.key, c |-> <<>>])]
CloseTop(p) ==
  LET t == p.stk[Len(p.stk)]
  IN Put([p EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.key = t.n], Node(t.k, <<>>, t.c))

Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
HexD(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
IsHex(c) == c \in (48..57) \cup (65..70) \cup (97..102)

StringDone(p) ==
  IF p.iskey THEN [p EXCEPT !.m = "colon", !.key = p.tok, !.tok = <<>>, !.iskey = FALSE]
  ELSE Put(p, Node("str", p.tok, <<>>))

WordNode(w) == Node(IF w = TrueW THEN "true" ELSE IF w = FalseW THEN "false" ELSE "null", <<>>, <<>>)

BeginValue(p, b) ==
  CASE b = LBRACE -> Open(p, "obj")
    [] b = LBRACKET -> Open(p, "arr")
    [] b = QUOTE -> [p EXCEPT !.m = "str", !.tok = <<>>, !.iskey = FALSE]
    [] b = MINUS -> [p EXCEPT !.m = "neg", !.tok = <<b>>]
    [] b = ZERO -> [p EXCEPT !.m = "zero", !.tok = <<b>>]
    [] b \in 49..57 -> [p EXCEPT !.m = "int", !.tok = <<b>>]
    [] b \in {116, 102, 110} -> [p EXCEPT !.m = "word", !.tok = <<b>>]
    [] OTHER -> Bad(p)

Structural(p, b) ==
  IF b \in White THEN p
  ELSE CASE p.m = "val" -> BeginValue(p, b)
         [] p.m = "first" -> IF b = RBRACKET THEN CloseTop(p) ELSE BeginValue(p, b)
         [] p.m \in {"key1", "key"} ->
              IF b = QUOTE THEN [p EXCEPT !.m = "str", !.tok = <<>>, !.iskey = TRUE]
              ELSE IF b = RBRACE /\ p.m = "key1" THEN CloseTop(p) ELSE Bad(p)
         [] p.m = "colon" -> IF b = COLON THEN [p EXCEPT !.m = "val"] ELSE Bad(p)
         [] p.m = "post" ->
              LET k == p.stk[Len(p.stk)].k IN
              IF b = COMMA THEN [p EXCEPT !.m = IF k = "obj" THEN "key" ELSE "val"]
              ELSE IF b = (IF k = "obj" THEN RBRACE ELSE RBRACKET) THEN CloseTop(p)
              ELSE Bad(p)
         [] OTHER -> Bad(p)

\* The state of a number after byte b; "" if b is not part of it.
NumNext(m, b) ==
  CASE m = "neg" /\ b = ZERO -> "zero"
    [] m = "neg" /\ b \in 49..57 -> "int"
    [] m = "int" /\ b \in Digits -> "int"
    [] m \in {"zero", "int"} /\ b = DOT -> "dot"
    [] m \in {"zero", "int", "frac"} /\ b \in {69, 101} -> "exp"
    [] m \in {"dot", "frac"} /\ b \in Digits -> "frac"
    [] m = "exp" /\ b \in {PLUS, MINUS} -> "sign"
    [] m \in {"exp", "sign", "pow"} /\ b \in Digits -> "pow"
    [] OTHER -> ""
NumModes == {"neg", "zero", "int", "dot", "frac", "exp", "sign", "pow"}
NumDone == {"zero", "int", "frac", "pow"}

Step(p, b) ==
  CASE p.m = "bad" -> p
    [] p.m = "str" ->
         IF b = QUOTE THEN StringDone(p)
         ELSE IF b = BACKSLASH THEN [p EXCEPT !.m = "esc"]
         ELSE [p EXCEPT !.tok = Append(@, b)]
    [] p.m = "esc" ->
         LET one == CASE b = 110 -> 10 [] b = 116 -> 9 [] b = 114 -> 13 [] b = 98 -> 8
                      [] b = 102 -> 12 [] b \in {QUOTE, BACKSLASH, SLASH} -> b [] OTHER -> 256
         IN IF b = 117 THEN [p EXCEPT !.m = "hex", !.hex = <<>>]
            ELSE IF one = 256 THEN Bad(p)
            ELSE [p EXCEPT !.m = "str", !.tok = Append(@, one)]
    [] p.m = "hex" ->
         IF ~IsHex(b) THEN Bad(p)
         ELSE IF Len(p.hex) < 3 THEN [p EXCEPT !.hex = Append(@, HexD(b))]
         ELSE LET h == p.hex
                  c == ((h[1] * 16 + h[2]) * 16 + h[3]) * 16 + HexD(b)
              IN [p EXCEPT !.m = "str", !.hex = <<>>, !.tok = @ \o Utf8(c)]
    [] p.m = "word" ->
         LET w == Append(p.tok, b) IN
         IF w \in {TrueW, FalseW, NullW} THEN Put(p, WordNode(w))
         ELSE IF \E x \in {TrueW, FalseW, NullW} : Len(w) < Len(x) /\ SubSeq(x, 1, Len(w)) = w
              THEN [p EXCEPT !.tok = w]
         ELSE Bad(p)
    [] p.m \in NumModes ->
         LET nx == NumNext(p.m, b) IN
         IF nx # "" THEN [p EXCEPT !.m = nx, !.tok = Append(@, b)]
         ELSE IF p.m \in NumDone /\ b \in White \cup {COMMA, RBRACKET, RBRACE}
              THEN Structural(Put(p, Node("num", p.tok, <<>>)), b)
         ELSE Bad(p)
    [] OTHER -> Structural(p, b)

Feed(p, bytes) == FoldLeft(Step, p, bytes)

(* The end of the text: a number can be complete now; anything else that is  *)
(* not complete never will be.                                               *)
AtEnd(p) ==
  LET q == IF p.m \in NumDone THEN Put(p, Node("num", p.tok, <<>>)) ELSE p
  IN IF q.m = "end" THEN q ELSE Bad(q)

(* The part of the document that has been read: the completed values, in the *)
(* containers that are still open. <<>> if nothing of the root is known yet. *)
RECURSIVE Unwind(_, _, _)
Unwind(stk, d, acc) ==
  IF d = 0 THEN acc
  ELSE LET t == stk[d] IN
       Unwind(stk, d - 1,
              <<Child(t.n, Node(t.k, <<>>, t.c \o acc))>>)
Partial(p) ==
  IF HasRoot(p) THEN p.root
  ELSE LET u == Unwind(p.stk, Len(p.stk), <<>>)
       IN IF u = <<>> THEN <<>> ELSE <<u[1].v>>

(* A whole text: <<document>>, or <<>> if it is none.                        *)
Document(bytes) == LET p == AtEnd(Feed(JInit, bytes)) IN IF IsBad(p) THEN <<>> ELSE p.root

(* What is missing: some continuation that makes a document of any text that *)
(* is not bad, which shows that "bad" is not declared too late.              *)
RECURSIVE Closers(_, _)
Closers(stk, d) ==
  IF d = 0 THEN <<>>
  ELSE <<IF stk[d].k = "obj" THEN RBRACE ELSE RBRACKET>> \o Closers(stk, d - 1)
Completion(p) ==
  LET c == Closers(p.stk, Len(p.stk))
      v == <<ZERO>>
      keyed == <<COLON, ZERO>>
      q == <<QUOTE>>
      strEnd == q \o (IF p.iskey THEN keyed ELSE <<>>)
      rest(w) == SubSeq(w, Len(p.tok) + 1, Len(w))
  IN CASE p.m = "end" -> <<>>
       [] p.m = "post" -> c
       [] p.m \in {"val", "neg", "dot", "exp", "sign"} -> v \o c
       [] p.m \in {"first", "zero", "int", "frac", "pow", "key1"} -> c
       [] p.m = "key" -> q \o q \o keyed \o c
       [] p.m = "colon" -> keyed \o c
       [] p.m = "str" -> strEnd \o c
       [] p.m = "esc" -> <<110>> \o strEnd \o c
       [] p.m = "hex" -> [i \in 1..(4 - Len(p.hex)) |-> ZERO] \o strEnd \o c
       [] p.m = "word" -> rest(IF p.tok[1] = 116 THEN TrueW ELSE IF p.tok[1] = 102 THEN FalseW ELSE NullW) \o c

(***************************************************************************)
(* The grammar, declaratively: printing. Every document prints to a text     *)
(* that reads back as itself.                                                *)
(***************************************************************************)
PrintStr(b) ==
  <<QUOTE>> \o FoldLeft(LAMBDA a, x :
      a \o (IF x \in {QUOTE, BACKSLASH} THEN <<BACKSLASH, x>>
            ELSE IF x < 32 THEN <<BACKSLASH, 117, 48, 48, 48 + (x \div 16),
                                 LET l == x % 16 IN IF l < 10 THEN 48 + l ELSE 87 + l>>
            ELSE <<x>>), <<>>, b) \o <<QUOTE>>
RECURSIVE Text(_)
Text(v) ==
  CASE v.k = "num" -> v.b
    [] v.k = "str" -> PrintStr(v.b)
    [] v.k = "true" -> TrueW
    [] v.k = "false" -> FalseW
    [] v.k = "null" -> NullW
    [] v.k = "arr" -> <<LBRACKET>> \o Join([i \in 1..Len(v.c) |-> Text(v.c[i].v)], COMMA) \o <<RBRACKET>>
    [] v.k = "obj" -> <<LBRACE>> \o Join([i \in 1..Len(v.c) |->
                                            PrintStr(v.c[i].n) \o <<COLON>> \o Text(v.c[i].v)], COMMA) \o <<RBRACE>>

(***************************************************************************)
(* The same grammar by recursive descent: the position behind the value that *)
(* begins at position i of t (white space skipped), or 0 if there is none.   *)
(***************************************************************************)
SkipWhite(t, i) == CHOOSE j \in i..(Len(t) + 1) :
  (j = Len(t) + 1 \/ t[j] \notin White) /\ \A k \in i..(j - 1) : t[k] \in White
At(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i] ELSE 256
RECURSIVE StrEnd(_, _)
StrEnd(t, i) ==
  CASE At(t, i) = QUOTE -> i + 1
    [] At(t, i) = 256 -> 0
    [] At(t, i) = BACKSLASH ->
         IF At(t, i + 1) \in {QUOTE, BACKSLASH, SLASH, 98, 102, 110, 114, 116} THEN StrEnd(t, i + 2)
         ELSE IF At(t, i + 1) = 117 /\ \A k \in 2..5 : IsHex(At(t, i + k)) THEN StrEnd(t, i + 6)
         ELSE 0
    [] OTHER -> StrEnd(t, i + 1)
DigitsEnd(t, i) == CHOOSE j \in i..(Len(t) + 1) :
  At(t, j) \notin Digits /\ \A k \in i..(j - 1) : t[k] \in Digits
NumEnd(t, i) ==
  LET a == IF At(t, i) = MINUS THEN i + 1 ELSE i
      b == IF At(t, a) = ZERO THEN a + 1 ELSE DigitsEnd(t, a)
      c == IF At(t, b) = DOT THEN (IF DigitsEnd(t, b + 1) > b + 1 THEN DigitsEnd(t, b + 1) ELSE 0) ELSE b
      d == IF c > 0 /\ At(t, c) \in {69, 101}
           THEN LET e == IF At(t, c + 1) \in {PLUS, MINUS} THEN c + 2 ELSE c + 1
                IN IF DigitsEnd(t, e) > e THEN DigitsEnd(t, e) ELSE 0
           ELSE c
  IN IF b > a THEN d ELSE 0
WordAt(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
RECURSIVE ValEnd(_, _), ItemsEnd(_, _, _)
ValEnd(t, i0) ==
  LET i == SkipWhite(t, i0) x == At(t, i) IN
  CASE x = QUOTE -> StrEnd(t, i + 1)
    [] x = LBRACE \/ x = LBRACKET ->
         LET close == IF x = LBRACE THEN RBRACE ELSE RBRACKET
             j == SkipWhite(t, i + 1)
         IN IF At(t, j) = close THEN j + 1 ELSE ItemsEnd(t, j, close)
    [] x = MINUS \/ x \in Digits -> NumEnd(t, i)
    [] WordAt(t, i, TrueW) \/ WordAt(t, i, NullW) -> i + 4
    [] WordAt(t, i, FalseW) -> i + 5
    [] OTHER -> 0
ItemsEnd(t, i, close) ==
  LET k == IF close = RBRACKET THEN i
           ELSE LET j == SkipWhite(t, i)
                    e == IF At(t, j) = QUOTE THEN StrEnd(t, j + 1) ELSE 0
                    q == IF e = 0 THEN 0 ELSE SkipWhite(t, e)
                IN IF q # 0 /\ At(t, q) = COLON THEN q + 1 ELSE 0
      v == IF k = 0 THEN 0 ELSE ValEnd(t, k)
      z == IF v = 0 THEN 0 ELSE SkipWhite(t, v)
  IN IF z = 0 THEN 0
     ELSE IF At(t, z) = COMMA THEN ItemsEnd(t, z + 1, close)
     ELSE IF At(t, z) = close THEN z + 1 ELSE 0
IsDocument(t) == LET e == ValEnd(t, 1) IN e # 0 /\ SkipWhite(t, e) = Len(t) + 1
=============================================================================
