---------------------------- MODULE RTAstarTrace ----------------------------
(* Validates recorded runs of RTA* against RTAstar: every move of the path   *)
(* it reports goes where the specification may go, up to a number of moves   *)
(* after which a run is taken on trust.  What it expands and generates is    *)
(* LSSTrace's business.                                                      *)
EXTENDS TraceIO, Graphs
VARIABLES viol, k
VARIABLES pid, agent, mem, status
mvars == <<pid, agent, mem, status>>
NR == Len(Runs)
MOST == 60
RG(r) == Graphs[Runs[r].gid]
TheProblem(r) == [G |-> RG(r), look |-> Runs[r].look]
M == INSTANCE RTAstar WITH Problem <- TheProblem
R == Runs[pid]
G == RG(pid)
Fits == TLCEval([r \in 1..NR |-> /\ Consistent(RG(r)) /\ PositiveCosts(RG(r))
                                 /\ IsSolution(RG(r), Runs[r].path, Runs[r].ops)])
Limited == \/ R.limE > 0 /\ R.expd >= R.limE
           \/ R.limG > 0 /\ R.gend >= R.limG
           \/ R.limT > 0 /\ R.expd + R.gend >= R.limT
(* a limit that cuts a look ahead short leaves the last move open *)
ToCheck == IF ~Fits[pid] THEN 0 ELSE Min2(MOST, Len(R.ops) - IF Limited THEN 1 ELSE 0)

Init == viol = {} /\ k = 1 /\ \E r \in 1..NR : M!InitProblem(r)
Move == /\ status = "search" /\ k <= ToCheck
        /\ LET o == R.ops[k] IN
           IF M!Arrived THEN /\ viol' = viol \cup {"rt-walkedon"} /\ M!DoStop("done") /\ UNCHANGED k
           ELSE /\ M!DoMove(o) /\ k' = k + 1
                /\ viol' = viol \cup When(~M!CanMove(o), "rt-choice")
Stop == /\ status = "search" /\ k > ToCheck /\ M!DoStop("done") /\ UNCHANGED <<viol, k>>
Judge == /\ status = "done" /\ Verdict(R.id, viol) /\ M!DoStop("verdict") /\ UNCHANGED <<viol, k>>
Next == Move \/ Stop \/ Judge
Spec == Init /\ [][Next]_<<viol, k, mvars>>
=============================================================================
