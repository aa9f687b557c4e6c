------------------------------ MODULE MC_Json ------------------------------
(* Every text over a small alphabet up to a length, byte by byte. "t" and    *)
(* "n" stand for whole words so that words do not need long texts.           *)
EXTENDS JsonText, TLC, Json
CONSTANTS MaxLen, Export
VARIABLES text, p

\* The letters of the alphabet are pieces of text.
Pieces == {<<LBRACE>>, <<RBRACE>>, <<LBRACKET>>, <<RBRACKET>>, <<QUOTE>>, <<COLON>>, <<COMMA>>,
           <<48>>, <<49>>, <<MINUS>>, <<DOT>>, <<101>>, TrueW, <<SPACE>>, <<BACKSLASH>>, <<97>>}
Init == text = <<>> /\ p = JInit
Next == /\ Len(text) < MaxLen /\ ~IsBad(p)
        /\ \E s \in Pieces : text' = text \o s /\ p' = Feed(p, s)
Spec == Init /\ [][Next]_<<text, p>>

(* Whatever is not bad can be completed, and only that: a bad text stays bad.*)
Completable == ~IsBad(p) => LET q == AtEnd(Feed(p, Completion(p))) IN ~IsBad(q)
(* A document prints to a text that reads back as itself.                    *)
Reads == LET q == AtEnd(p) IN ~IsBad(q) => Document(Text(q.root[1])) = q.root
(* The recursive-descent grammar agrees.                                     *)
Grammar == (~IsBad(AtEnd(p))) = IsDocument(text)
Exported == Export => PrintT(ToJson([t |-> text,
                                     s |-> IF IsBad(p) THEN "bad" ELSE IF HasRoot(p) THEN "root" ELSE "part",
                                     e |-> IF IsBad(AtEnd(p)) THEN "bad" ELSE "ok"]))
=============================================================================
