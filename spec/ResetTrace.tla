----------------------------- MODULE ResetTrace -----------------------------
(* A search object alternates searching and being reset.  Being reset takes  *)
(* it back to its initial state, so what a search after a reset shows is     *)
(* what the same search by a new object shows.                               *)
(*   state  "new" (equivalently: just reset) or "used"                       *)
EXTENDS TraceIO, Graphs
VARIABLES r, state, viol
NR == Len(Runs)
R == Runs[r]
A == R.again
F == R.fresh
G == Graphs[R.gid]
Init == r \in 1..NR /\ state = "used" /\ viol = {}
Reset == state = "used" /\ state' = "new" /\ UNCHANGED <<r, viol>>
Cost(x) == IF IsWalk(G, x.path, x.ops) THEN WalkCost(G, x.path, x.ops) ELSE -1
Bad == When((A.path = <<>>) # (F.path = <<>>), "reset-result") \cup
       When(Cost(A) # Cost(F), "reset-cost") \cup
       When(A.runaway # F.runaway, "reset-runaway") \cup
       When(A.path # F.path \/ A.ops # F.ops, "reset-path") \cup
       When(<<A.expd, A.gend, A.dups, A.reopn>> # <<F.expd, F.gend, F.dups, F.reopn>>, "reset-stats") \cup
       When(A.rep # F.rep \/ A.rows # F.rows \/ A.steps # F.steps, "reset-report")
Search == /\ state = "new" /\ state' = "done"
          /\ viol' = Bad /\ Verdict(R.id, Bad)
          /\ UNCHANGED r
Next == Reset \/ Search
Spec == Init /\ [][Next]_<<r, state, viol>>
=============================================================================
