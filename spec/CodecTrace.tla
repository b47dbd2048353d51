---------------------------- MODULE CodecTrace -----------------------------
(* Recorded encodings, decodings and ranks.                                   *)
EXTENDS TraceIO, Codec, FiniteSets
VARIABLES r, done
R == Runs[r]
Init == r \in 1..Len(Runs) /\ done = FALSE
Bad(e) == CASE e.o = "b64"  -> When(e.enc # B64Enc(e.data), "b64-encode") \cup When(e.dec # e.data, "b64-decode")
            [] e.o = "rl"   -> When(~RlWell(e.enc) \/ RlDec(e.enc) # e.data, "rl-encode") \cup When(e.dec # e.data, "rl-decode")
            [] e.o = "rld"  -> When(e.dec # RlDec(e.enc), "rl-decode")
            [] e.o = "a85"  -> When(e.enc # A85Enc(e.data), "a85-encode")
            [] e.o = "rank" -> When(\E i \in 1..Len(e.ps) : e.rs[i] # Rank(e.n, e.ps[i]), "rank")
            [] e.o = "place" -> When(Cardinality({e.rs[i] : i \in 1..Len(e.rs)}) # Cardinality({e.ps[i] : i \in 1..Len(e.ps)}), "place-shared") \cup
                                When(\E i \in 1..Len(e.rs) : e.rs[i] < 0 \/ e.rs[i] >= (IF e.compact = 1 THEN Arrangements(e.n, e.k) ELSE e.n ^ e.k), "place-outside") \cup
                                When(e.entries # Arrangements(e.n, e.k), "place-count")
Finish == /\ ~done /\ done' = TRUE /\ Verdict(R.id, UNION {Bad(R.ev[i]) : i \in 1..Len(R.ev)}) /\ UNCHANGED r
Spec == Init /\ [][Finish]_<<r, done>>
=============================================================================
