---------------------------- MODULE IDAstarTrace ----------------------------
(* Validates recorded IDA* runs against IDAstar.                             *)
EXTENDS TraceIO, Graphs
VARIABLES l, viol
VARIABLES pid, stack, pend, bound, oob, cnt, rows, status
NR == Len(Runs)
RG(r) == Graphs[Runs[r].gid]
TheProblem(r) == [G |-> RG(r), limE |-> Runs[r].limE, limG |-> Runs[r].limG, limT |-> Runs[r].limT]
IDA == INSTANCE IDAstar WITH Problem <- TheProblem
ToGoal == TLCEval([i \in {Runs[r].gid : r \in 1..NR} |-> DistToGoal(Graphs[i])])
R == Runs[pid]
G == RG(pid)
Opt == ToGoal[R.gid][G.start]
Adm == Admissible(G, ToGoal[R.gid])

Init == /\ l = 1 /\ viol = {} /\ \E r \in 1..NR : IDA!InitProblem(r)

(* Rejecting a successor and starting an iteration leave no event of their   *)
(* own; they are taken as soon as they are due.                              *)
SilentDue == \/ IDA!Reject
             \/ IDA!NextIteration /\ (IF l <= Len(R.ev) THEN R.ev[l][1] = 1 ELSE R.path # <<>> /\ ~R.runaway)
Silent == IF IDA!Reject THEN IDA!DoReject ELSE IDA!DoNextIteration

Step ==
  /\ status = "search"
  /\ IF SilentDue THEN Silent /\ UNCHANGED <<l, viol>>
     ELSE /\ l <= Len(R.ev)
          /\ l' = l + 1
          /\ LET e == R.ev[l] IN
             /\ viol' = viol \cup (IF e[1] = 1 THEN IDA!BadExpand(e[2]) ELSE IDA!BadGenerate(e[2], e[3]))
                             \cup When(Adm /\ bound > Opt, "ida-overbound")
             /\ IF e[1] = 1 THEN IDA!DoExpand(e[2]) ELSE IDA!DoGenerate(e[2], e[3])

Chain == [i \in 1..Len(stack) |-> stack[i].s] \o <<pend.s>>
RCost == IF IsWalk(G, R.path, R.ops) THEN WalkCost(G, R.path, R.ops) ELSE -1
RowsExpected == IF R.path # <<>> THEN rows ELSE Append(rows, <<Len(rows), bound, cnt.expd, cnt.gend>>)

BadResult ==
  IF R.runaway THEN {}
  ELSE
  (IF R.path = <<>> THEN When(~IDA!LimitReached /\ Opt < INF, "missed-solution")
   ELSE IF ~IsWalk(G, R.path, R.ops) THEN {"path-broken"}
   ELSE When(R.path[1] # G.start, "path-start") \cup
        When(~Goal(G, R.path[Len(R.path)]), "path-goal") \cup
        When(R.path # Chain, "path-cost") \cup
        When(Opt >= INF, "phantom-solution") \cup
        When(Adm /\ RCost # Opt, "not-optimal")) \cup
  IDA!BadStop(R.path # <<>>) \cup
  When(R.rows # RowsExpected, "ida-rows") \cup
  When(R.expd # cnt.expd, "stat-expd") \cup
  When(R.gend # cnt.gend, "stat-gend") \cup
  When(R.rep # <<R.expd, R.gend, R.dups, R.reopn, Len(R.path)>>, "stat-report")

Finish ==
  /\ status = "search" /\ l > Len(R.ev) /\ ~SilentDue
  /\ LET v == viol \cup BadResult IN viol' = v /\ Verdict(R.id, v)
  /\ IDA!DoStop
  /\ UNCHANGED l

Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l, viol, pid, stack, pend, bound, oob, cnt, rows, status>>
=============================================================================
