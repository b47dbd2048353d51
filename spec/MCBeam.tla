------------------------------ MODULE MCBeam --------------------------------
(* Beam over every small problem. *)
EXTENDS SmallGraphs
CONSTANTS Widths, Drops, Lims
VARIABLES pid, front, slots, fkey, next, g, par, cur, todo, cnt, status
vars == <<pid, front, slots, fkey, next, g, par, cur, todo, cnt, status>>
Ident(p) == p
M == INSTANCE Beam WITH Problem <- Ident
Init == \E fn \in ArcFns, he \in HFns, wd \in Widths, dr \in Drops, le \in Lims :
          M!InitProblem([G |-> GraphOf(fn, he), width |-> wd, drop |-> dr, limE |-> le, limG |-> 0, limT |-> 0])
Next == M!Next
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)
WidthOK == M!WidthOK
WideComplete == M!WideComplete
BeamLimits == M!BeamLimits
Ends == <>(status = "done")
=============================================================================
