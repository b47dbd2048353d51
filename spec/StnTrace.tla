------------------------------ MODULE StnTrace ------------------------------
(* Validates recorded histories of the temporal network against Stn.         *)
EXTENDS TraceIO, Stn
VARIABLES r, l, viol, n, cs, done
R == Runs[r]
Ev == R.ev
Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ viol = {} /\ done = FALSE
        /\ n = Runs[r].n + 1 /\ cs = <<>>
BadObs(e, N, C) ==
  IF e.n # N \/ Len(e.lo) # N \/ Len(e.up) # N THEN {"stn-size"}
  ELSE LET Lo == Lower(N, C)
           Up == Upper(N, C)
       IN When(\E v \in 0..N-1 : e.lo[v+1] # Lo[v], "stn-lower") \cup
          When(\E v \in 0..N-1 : e.up[v+1] # Up[v], "stn-upper")
Step ==
  /\ l <= Len(Ev) /\ l' = l + 1
  /\ LET e == Ev[l]
         c == <<e.i, e.j, e.a, e.b>>
         fine == e.o = 1 /\ Consistent(n, Append(cs, c))
     IN /\ CASE e.o = 1 -> cs' = (IF fine THEN Append(cs, c) ELSE cs) /\ UNCHANGED n
             [] e.o = 2 -> cs' = SubSeq(cs, 1, Len(cs)-1) /\ UNCHANGED n
             [] e.o = 3 -> n' = n + e.i /\ UNCHANGED cs
             [] OTHER   -> UNCHANGED <<n, cs>>
        /\ viol' = viol \cup
             (IF e.o = 5 THEN When(e.r # (e.lo = e.up), "stn-eq")
              ELSE IF e.o = 1 /\ e.r # fine THEN {IF fine THEN "stn-reject" ELSE "stn-accept"}
              ELSE BadObs(e, n', cs')) \cup
             When(e.o = 4 /\ ~e.r, "stn-eq")
  /\ UNCHANGED <<r, done>>
Finish == /\ ~done /\ l > Len(Ev) /\ done' = TRUE
          /\ Verdict(R.id, viol)
          /\ UNCHANGED <<r, l, viol, n, cs>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<r, l, viol, n, cs, done>>
=============================================================================
