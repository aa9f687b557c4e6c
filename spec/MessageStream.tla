---------------------------- MODULE MessageStream ----------------------------
(* The byte-stream view of a stream of messages (message_stream.h), as its   *)
(* user sees it: the concatenation of the messages pushed so far. Which      *)
(* message a byte belongs to is not visible, nor is how many bytes a call    *)
(* gives. Byte p of the concatenation reads p mod 251.                       *)
EXTENDS Integers

VARIABLES
  tot,     \* bytes in the messages pushed so far
  closed,  \* there will be no more messages
  rp,      \* bytes read
  last,    \* how many bytes may be backed up
  ended    \* the end of the data has been reported

svars == <<tot, closed, rp, last, ended>>

SInit == tot = 0 /\ closed = FALSE /\ rp = 0 /\ last = 0 /\ ended = FALSE

Push(n) == ~closed /\ tot' = tot + n /\ UNCHANGED <<closed, rp, last, ended>>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED <<tot, rp, last, ended>>

Next(ok, n) ==
  /\ IF n > 0 THEN ok /\ n <= tot - rp /\ UNCHANGED ended
     ELSE n = 0 /\ rp = tot /\ ok = ~closed /\ ended' = ~ok
  /\ rp' = rp + n /\ last' = n
  /\ UNCHANGED <<tot, closed>>

BackUp(n) == n >= 0 /\ n <= last /\ rp' = rp - n /\ last' = 0
             /\ ended' = (ended /\ n = 0) /\ UNCHANGED <<tot, closed>>

Available(n) == /\ (n > 0) = (rp < tot) /\ n <= tot - rp /\ n >= 0
                /\ last' = 0 /\ UNCHANGED <<tot, closed, rp, ended>>

Finished(r) == (r => closed) /\ (ended => r) /\ last' = 0 /\ UNCHANGED <<tot, closed, rp, ended>>

CONSTANT Sizes   \* for checking the refinement only
SNext == \/ \E n \in Sizes : Push(n) \/ BackUp(n) \/ Available(n)
         \/ Close
         \/ \E ok \in BOOLEAN, n \in Sizes : Next(ok, n)
         \/ \E r \in BOOLEAN : Finished(r)
SSpec == SInit /\ [][SNext]_svars
=============================================================================
