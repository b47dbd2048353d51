------------------------------- MODULE MCLSS --------------------------------
(* LSS over every small problem in which every state can reach the goal and  *)
(* the heuristic is consistent.                                              *)
EXTENDS SmallGraphs
CONSTANTS Looks, OneSteps, Completes, Ws, Lims
VARIABLES pid, agent, h, expd, g, f, par, open, closed, pops, goal, now, todo, moves, lens, cnt, status
vars == <<pid, agent, h, expd, g, f, par, open, closed, pops, goal, now, todo, moves, lens, cnt, status>>
Ident(p) == p
M == INSTANCE LSS WITH Problem <- Ident
Init == \E fn \in ArcFns, he \in HFns, lk \in Looks, os \in OneSteps, cm \in Completes, w2 \in Ws, le \in Lims :
          LET gr == GraphOf(fn, he) IN
          /\ Consistent(gr) /\ \A i \in Nodes(gr) : DistToGoal(gr)[i] < INF
          /\ M!InitProblem([G |-> gr, look |-> lk, onestep |-> os, complete |-> cm, w2 |-> w2, limE |-> le, limG |-> 0, limT |-> 0])
Next == M!Next
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)
LearnAdmissible == M!LearnAdmissible
LearnGrows == M!LearnGrows
MovesOK == M!MovesOK
NoReopen == M!NoReopen
LookBound == M!LookBound
StopsAtGoal == M!StopsAtGoal
Reaches == M!Reaches
=============================================================================
