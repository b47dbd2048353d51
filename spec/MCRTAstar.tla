----------------------------- MODULE MCRTAstar ------------------------------
(* RTAstar over every small undirected problem with a consistent heuristic:  *)
(* the agent arrives, whatever it does where ways tie.                        *)
EXTENDS SmallGraphs
CONSTANTS Looks
VARIABLES pid, agent, mem, status
vars == <<pid, agent, mem, status>>
Ident(p) == p
M == INSTANCE RTAstar WITH Problem <- Ident
Both == [a \in ArcIx |-> <<a[2], a[1]>>]
Undirected(fn) == \A a \in ArcIx : a[2] # N => fn[a] = fn[Both[a]]
Init == \E fn \in {x \in ArcFns : Undirected(x)}, he \in HFns, lk \in Looks :
          LET gr == GraphOf(fn, he) IN
          /\ Consistent(gr) /\ \A i \in Nodes(gr) : DistToGoal(gr)[i] < INF
          /\ M!InitProblem([G |-> gr, look |-> lk])
Next == M!Next
FairSpec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == M!Finished
Reaches == M!Reaches
=============================================================================
