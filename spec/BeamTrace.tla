------------------------------ MODULE BeamTrace -----------------------------
(* Validates recorded beam searches against Beam.                            *)
EXTENDS TraceIO, Graphs
VARIABLES l, viol
VARIABLES pid, front, slots, fkey, next, g, par, cur, todo, cnt, status
NR == Len(Runs)
RG(r) == Graphs[Runs[r].gid]
TheProblem(r) == [G |-> RG(r), width |-> Runs[r].width, drop |-> Runs[r].drop, limE |-> Runs[r].limE, limG |-> Runs[r].limG, limT |-> Runs[r].limT]
BM == INSTANCE Beam WITH Problem <- TheProblem
ToGoal == TLCEval([i \in {Runs[r].gid : r \in 1..NR} |-> DistToGoal(Graphs[i])])
R == Runs[pid]
G == RG(pid)
Opt == ToGoal[R.gid][G.start]
Init == /\ l = 1 /\ viol = {} /\ \E r \in 1..NR : BM!InitProblem(r)

Stopped == l > Len(R.ev)
LayerDue == ~BM!Unfinished /\ BM!NextLayer /\ (Stopped \/ R.ev[l][1] = 1) /\ (Stopped => R.path # <<>>)
Step ==
  /\ status = "search"
  /\ IF LayerDue THEN BM!DoNextLayer /\ UNCHANGED <<l, viol>>
     ELSE /\ ~Stopped
          /\ l' = l + 1
          /\ LET e == R.ev[l] IN
             IF e[1] = 1 THEN viol' = viol \cup BM!BadExpand(e[2]) /\ BM!DoExpand(e[2])
             ELSE viol' = viol \cup BM!BadGenerate(e[2], e[3]) /\ BM!DoGenerate(e[2], e[3])

RGoal == IF R.path = <<>> \/ R.path[Len(R.path)] \notin Nodes(G) THEN 0 ELSE R.path[Len(R.path)]
RCost == IF IsWalk(G, R.path, R.ops) THEN WalkCost(G, R.path, R.ops) ELSE -1
BadResult ==
  When(R.runaway, "runaway") \cup
  (IF R.path = <<>> THEN When(~R.runaway /\ ~BM!LimitReached /\ Opt < INF /\ R.width >= G.n /\ ~R.drop, "missed-solution")
   ELSE IF ~IsWalk(G, R.path, R.ops) THEN {"path-broken"}
   ELSE When(R.path[1] # G.start, "path-start") \cup When(~Goal(G, RGoal), "path-goal") \cup
        When(g[RGoal] >= 0 /\ RCost > g[RGoal], "path-cost") \cup
        When(Opt >= INF, "phantom-solution")) \cup
  When(~R.runaway /\ R.expd # cnt.expd, "stat-expd") \cup
  When(~R.runaway /\ R.gend # cnt.gend, "stat-gend") \cup
  When(~R.runaway /\ R.dups # cnt.dups, "stat-dups") \cup
  When(~R.runaway /\ R.reopn # cnt.reopn, "stat-reopn") \cup
  When(~R.runaway /\ R.rep # <<R.expd, R.gend, R.dups, R.reopn, Len(R.path)>>, "stat-report")
Finish ==
  /\ status = "search" /\ Stopped /\ ~LayerDue
  /\ LET v == viol \cup BM!BadStop(RGoal) \cup BadResult IN viol' = v /\ Verdict(R.id, v)
  /\ BM!DoStop
  /\ UNCHANGED l
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l, viol, pid, front, slots, fkey, next, g, par, cur, todo, cnt, status>>
=============================================================================
