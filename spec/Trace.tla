------------------------------- MODULE Trace -------------------------------
(* What all trace specifications share: the recorded events, one JSON object *)
(* per line, in the file named by the environment variable TRACE. A trace    *)
(* specification consumes one event per step with an action of the           *)
(* specification it is about; Consumed reports how many it could explain.    *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
=============================================================================
