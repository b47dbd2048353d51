----------------------------- MODULE MCARAstar ------------------------------
(* ARAstar over every small problem with a consistent heuristic. *)
EXTENDS SmallGraphs
CONSTANTS W0s, DWs, Lims, Stops
VARIABLES pid, nodes, open, incons, closed, w, cost, found, best, cur, todo, cnt, rows, status
vars == <<pid, nodes, open, incons, closed, w, cost, found, best, cur, todo, cnt, rows, status>>
Ident(p) == p
M == INSTANCE ARAstar WITH Problem <- Ident
Init == \E fn \in ArcFns, he \in HFns, w0 \in W0s, dw \in DWs, le \in Lims, st \in Stops :
          LET gr == GraphOf(fn, he) IN
          /\ Consistent(gr)
          /\ M!InitProblem([G |-> gr, w0 |-> w0, dw |-> dw, limE |-> le, limG |-> 0, limT |-> 0, mayStop |-> FALSE, stopLo |-> st, stopHi |-> 1000])
Next == M!Next
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)
RowsImprove == M!RowsImprove
RowSound == M!RowSound
BoundSound == M!BoundSound
ConvergedOptimal == M!ConvergedOptimal
AraLimits == M!AraLimits
(* the stopping rule is heeded at once *)
Heeded == M!StopDue /\ status = "search" => \A n \in open : M!BadExpand(n) # {}
Ends == <>(status = "done")
=============================================================================
