----------------------------- MODULE MCIDAstar ------------------------------
(* IDAstar over every small problem with positive costs. *)
EXTENDS SmallGraphs
CONSTANTS Lims
VARIABLES pid, stack, pend, bound, oob, cnt, rows, status
vars == <<pid, stack, pend, bound, oob, cnt, rows, status>>
Ident(p) == p
M == INSTANCE IDAstar WITH Problem <- Ident
Init == \E fn \in ArcFns, he \in HFns, le \in Lims, lg \in Lims :
          LET gr == GraphOf(fn, he) IN
          /\ Admissible(gr, DistToGoal(gr))
          /\ DistToGoal(gr)[1] < INF \/ le > 0
          /\ M!InitProblem([G |-> gr, limE |-> le, limG |-> lg, limT |-> 0])
Next == M!Next
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)
Optimal == M!Optimal
BoundSound == M!BoundSound
FoundOrNone == M!FoundOrNone
Limits == M!Limits
Ends == <>(status = "done")
=============================================================================
