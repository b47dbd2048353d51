------------------------------ MODULE TraceIO -------------------------------
(* Input of recorded runs and output of verdicts, shared by every trace      *)
(* specification.                                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
Graphs == IF "GRAPHS" \in DOMAIN IOEnv /\ IOEnv.GRAPHS # "" THEN ndJsonDeserialize(IOEnv.GRAPHS) ELSE <<>>

(* One verdict per run: its id and the reasons it is not a behaviour of the  *)
(* specification, none if it is.                                             *)
Verdict(id, reasons) == PrintT(<<"V", id, reasons>>)
When(c, why) == IF c THEN {why} ELSE {}
=============================================================================
