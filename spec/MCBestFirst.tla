---------------------------- MODULE MCBestFirst -----------------------------
(* BestFirst over every small problem. *)
EXTENDS SmallGraphs
CONSTANTS Algs, Ws, Drops, Lims
VARIABLES pid, open, g, hv, par, cur, todo, cnt, sol, status
vars == <<pid, open, g, hv, par, cur, todo, cnt, sol, status>>

Ident(p) == p
BF == INSTANCE BestFirst WITH Problem <- Ident

Init ==
  \E fn \in ArcFns, he \in HFns, a \in Algs, w \in Ws, dr \in Drops, le \in Lims :
     LET gr == GraphOf(fn, he) IN
     /\ a \in {"greedy", "speedy"} \/ Admissible(gr, DistToGoal(gr))
     /\ CASE a = "wastar" -> w >= 2 [] a = "bugsy" -> w \in {0, 2} [] OTHER -> w = 2
     /\ a # "astar" \/ dr = FALSE
     /\ BF!InitProblem([G |-> gr, alg |-> a, w2 |-> w, drop |-> dr, limE |-> le, limG |-> 0, limT |-> 0])

Next == BF!Next
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

TypeOK == BF!TypeOK
Chains == BF!Chains
GSound == BF!GSound
OptimalA == BF!OptimalA
BoundW == BF!BoundW
Complete == BF!Complete
Correct == BF!Correct
NoReopen == BF!NoReopen
Limits == BF!Limits
Progress == BF!Progress
=============================================================================
