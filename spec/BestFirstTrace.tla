--------------------------- MODULE BestFirstTrace ---------------------------
(* Validates recorded runs of the best-first algorithms against BestFirst.   *)
EXTENDS TraceIO, Graphs

VARIABLES l, viol
VARIABLES pid, open, g, hv, par, cur, todo, cnt, sol, status

NR == Len(Runs)
RG(r) == Graphs[Runs[r].gid]
TheProblem(r) == [G |-> RG(r), alg |-> Runs[r].alg, w2 |-> Runs[r].w2, drop |-> Runs[r].drop,
                  limE |-> Runs[r].limE, limG |-> Runs[r].limG, limT |-> Runs[r].limT]

BF == INSTANCE BestFirst WITH Problem <- TheProblem

(* Facts about each graph, computed once by fixpoint.                        *)
Used == {Runs[r].gid : r \in 1..NR}
ToGoal == TLCEval([i \in Used |-> DistToGoal(Graphs[i])])

R == Runs[pid]
G == RG(pid)
Ev == R.ev
Opt == ToGoal[R.gid][G.start]

Init == /\ l = 1 /\ viol = {}
        /\ \E r \in 1..NR : BF!InitProblem(r)

(* [1, s, ..]: s is expanded;  [2, s, o, k]: operator o applied to s gives k *)
Step ==
  /\ status = "search" /\ l <= Len(Ev)
  /\ l' = l + 1
  /\ LET e == Ev[l] IN
     CASE e[1] = 1 -> /\ viol' = viol \cup BF!BadExpand(e[2]) \cup When(~BF!TypeOK \/ (G.n <= 20 /\ ~BF!Chains), "design-invariant")
                      /\ BF!DoExpand(e[2])
       [] e[1] = 2 -> /\ viol' = viol \cup BF!BadGenerate(e[2], e[3])
                      /\ BF!DoGenerate(e[2], e[3])

RGoal == IF R.path = <<>> \/ R.path[Len(R.path)] \notin Nodes(G) THEN 0 ELSE R.path[Len(R.path)]
RCost == IF IsWalk(G, R.path, R.ops) THEN WalkCost(G, R.path, R.ops) ELSE -1

(* The reported result against the final state.                              *)
BadResult ==
  When(R.runaway, "runaway") \cup
  (IF R.path = <<>> THEN When(~BF!LimitReached /\ ~R.runaway /\ Opt < INF, "missed-solution")
   ELSE IF ~IsWalk(G, R.path, R.ops) THEN {"path-broken"}
   ELSE When(R.path[1] # G.start, "path-start") \cup
        When(~Goal(G, RGoal), "path-goal") \cup
        When(g[RGoal] >= 0 /\ RCost > g[RGoal], "path-cost") \cup
        When(Opt >= INF, "phantom-solution") \cup
        When((R.alg = "astar" \/ (R.alg = "bugsy" /\ R.w2 > 0 /\ ~R.drop)) /\ Admissible(G, ToGoal[R.gid]) /\ RCost # Opt, "not-optimal") \cup
        When(R.alg = "wastar" /\ Admissible(G, ToGoal[R.gid]) /\ ~R.drop /\ 2 * RCost > R.w2 * Opt,
             "bound-exceeded")) \cup
  When(~R.runaway /\ R.expd # cnt.expd, "stat-expd") \cup
  When(~R.runaway /\ R.gend # cnt.gend, "stat-gend") \cup
  When(~R.runaway /\ R.dups # cnt.dups, "stat-dups") \cup
  When(~R.runaway /\ R.reopn # cnt.reopn, "stat-reopn") \cup
  When(~R.runaway /\ R.rep # <<R.expd, R.gend, R.dups, R.reopn, Len(R.path)>>, "stat-report")

Finish ==
  /\ status = "search" /\ l > Len(Ev)
  /\ LET v == viol \cup BF!BadStop(RGoal) \cup BadResult
     IN viol' = v /\ Verdict(R.id, v)
  /\ BF!DoStop(RGoal)
  /\ UNCHANGED l

Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l, viol, pid, open, g, hv, par, cur, todo, cnt, sol, status>>

=============================================================================
