------------------------------- MODULE Routes -------------------------------
(* Which of the keys of a table a request selects: declaratively, and by the *)
(* search of a trie (path_matcher_node.h). A key is [segs, method, verb];    *)
(* what a table holds for a key does not matter here.                        *)
EXTENDS HttpTemplate, TLC

AnyMethod == <<STAR>>

(***************************************************************************)
(* Which templates match, and which of them wins. Declarative.               *)
(***************************************************************************)
SegParam == <<SLASH, DOT>>   \* "any one segment", but never from a template
SegFits(seg, part) == seg = SegStar \/ seg = SegParam \/ seg = part

(* "*" stands for exactly one segment. A "**" stands for any number of       *)
(* them, but for at least one where more of the template follows.            *)
Fits(segs, parts) ==
  LET w == Wildcard(segs)
      n == Len(segs)
      m == Len(parts)
  IN IF w = 0
     THEN n = m /\ \A i \in 1..n : SegFits(segs[i], parts[i])
     ELSE /\ IF w = n THEN m >= n - 1 ELSE m >= n
          /\ \A i \in 1..(w - 1) : SegFits(segs[i], parts[i])
          /\ \A i \in (w + 1)..n : SegFits(segs[i], parts[m - n + i])

Rank(seg) == IF seg = SegStars THEN 3 ELSE IF seg = SegStar THEN 2
             ELSE IF seg = SegParam THEN 1 ELSE 0

(* Of two different templates that fit the same request, the more specific   *)
(* one: at the first segment where they differ, a literal goes before "*"    *)
(* and "*" before "**", and an ended template before a "**" that stands for  *)
(* nothing; behind a common "**", the longer constant suffix goes first.     *)
MoreSpecific(a, b) ==
  LET both == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..both : a[i] # b[i]}
      d == IF D = {} THEN both + 1 ELSE CHOOSE i \in D : \A j \in D : i <= j
      behind == Wildcard(a) # 0 /\ Wildcard(a) < d /\ Wildcard(b) = Wildcard(a)
  IN IF behind THEN Len(a) > Len(b)
     ELSE IF d > both THEN Len(a) < Len(b)
     ELSE Rank(a[d]) < Rank(b[d])

Candidates(tab, method, req) ==
  {k \in DOMAIN tab : /\ k.verb = req.verb
                      /\ k.method = method \/ k.method = AnyMethod
                      /\ Fits(k.segs, req.parts)}

Before(k, l, method) ==
  \/ k.segs # l.segs /\ MoreSpecific(k.segs, l.segs)
  \/ k.segs = l.segs /\ k.method = method /\ l.method # method

NoKey == [segs |-> <<>>, method |-> <<>>, verb |-> <<0>>]
Winner(tab, method, req) ==
  LET C == Candidates(tab, method, req)
  IN IF C = {} THEN NoKey
     ELSE CHOOSE k \in C : \A l \in C \ {k} : Before(k, l, method)

(***************************************************************************)
(* The same by the search the code performs: a trie, searched depth first.   *)
(* A node is a sequence of segments that begins some template.               *)
(***************************************************************************)
Children(tab, node) ==
  {k.segs[Len(node) + 1] : k \in {k \in DOMAIN tab :
      Len(k.segs) > Len(node) /\ SubSeq(k.segs, 1, Len(node)) = node}}
AtNode(tab, node, method, verb) ==
  LET ex == [segs |-> node, method |-> method, verb |-> verb]
      an == [segs |-> node, method |-> AnyMethod, verb |-> verb]
  IN IF ex \in DOMAIN tab THEN ex ELSE IF an \in DOMAIN tab THEN an ELSE NoKey

RECURSIVE Search(_, _, _, _, _)
Search(tab, node, parts, method, verb) ==
  LET Child(seg) == IF Len(parts) > 0 /\ seg \in Children(tab, node)
                    THEN Search(tab, Append(node, seg), Tail(parts), method, verb)
                    ELSE NoKey
      isWild == node # <<>> /\ node[Len(node)] = SegStars
  IN IF parts = <<>>
     THEN LET here == AtNode(tab, node, method, verb) IN
          IF here # NoKey THEN here
          ELSE AtNode(tab, Append(node, SegStars), method, verb)
     ELSE LET lit == IF IsWild(Head(parts)) THEN NoKey ELSE Child(Head(parts))
          IN IF lit # NoKey THEN lit
             ELSE IF isWild THEN Search(tab, node, Tail(parts), method, verb)
             ELSE IF Child(SegParam) # NoKey THEN Child(SegParam)
             ELSE IF Child(SegStar) # NoKey THEN Child(SegStar)
             ELSE Child(SegStars)
=============================================================================
