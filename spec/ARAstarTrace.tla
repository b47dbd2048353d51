---------------------------- MODULE ARAstarTrace ----------------------------
(* Validates recorded runs of ARA* and its variants against ARAstar.         *)
EXTENDS TraceIO, Graphs
VARIABLES l, viol
VARIABLES pid, nodes, open, incons, closed, w, cost, found, best, cur, todo, cnt, rows, status
NR == Len(Runs)
RG(r) == Graphs[Runs[r].gid]
TheProblem(r) == [G |-> RG(r), w0 |-> Runs[r].w0, dw |-> Runs[r].dw, limE |-> Runs[r].limE,
                  limG |-> Runs[r].limG, limT |-> Runs[r].limT, mayStop |-> Runs[r].mayStop,
                  stopLo |-> Runs[r].stop[1], stopHi |-> Runs[r].stop[2]]
ARA == INSTANCE ARAstar WITH Problem <- TheProblem
ToGoal == TLCEval([i \in {Runs[r].gid : r \in 1..NR} |-> DistToGoal(Graphs[i])])
R == Runs[pid]
G == RG(pid)
C == ToGoal[R.gid][G.start]

Init == /\ l = 1 /\ viol = {} /\ \E r \in 1..NR : ARA!InitProblem(r)

Stopped == l > Len(R.ev)
(* rounds end silently; the last ones when the run is over are forced unless *)
(* the search was stopped                                                    *)
RoundDue == /\ ~ARA!Unfinished /\ ARA!NextRound
            /\ IF Stopped THEN ~R.mayStop /\ ~R.runaway ELSE R.ev[l][1] = 1

Step ==
  /\ status = "search"
  /\ IF RoundDue THEN ARA!DoNextRound /\ UNCHANGED <<l, viol>>
     ELSE /\ ~Stopped
          /\ l' = l + 1
          /\ LET e == R.ev[l] IN
             IF e[1] = 1
             THEN \E n \in ARA!CandOf(e[2]) :
                    /\ viol' = viol \cup ARA!BadExpand(n)
                    /\ ARA!DoExpand(n)
             ELSE /\ viol' = viol \cup ARA!BadGenerate(e[2], e[3])
                  /\ ARA!DoGenerate(e[2], e[3])

RCost == IF IsWalk(G, R.path, R.ops) THEN WalkCost(G, R.path, R.ops) ELSE -1
IsCons == Consistent(G)
(* reported rows: <<number, expd, gend, 4 * weight, cost, 10000 * bound>>    *)
(* the bound is min(weight, cost / MinF), up to printing precision; 1 if nothing *)
(* can improve the incumbent (mf = -1)                                       *)
BoundOK(r, mf) ==
  LET e == IF mf = -1 THEN 10000 ELSE IF mf = 0 \/ 10000 * r[5] >= 2500 * r[4] * mf THEN 2500 * r[4] ELSE (10000 * r[5]) \div mf
  IN r[6] >= e - 1 - e \div 50000 /\ r[6] <= e + 2 + e \div 50000
RowsFound == [i \in 1..Len(R.rows) |-> SubSeq(R.rows[i], 1, 5)]
BadRow(i) ==
  LET r == R.rows[i] IN
  When(i > 1 /\ r[5] >= R.rows[i-1][5], "ara-noimprove") \cup
  When(i > 1 /\ r[4] >= R.rows[i-1][4], "ara-weight") \cup
  When(r[6] > 2500 * r[4] + 1 \/ r[6] < 9999, "ara-boundrange") \cup
  When(IsCons /\ r[5] * 10000 > r[6] * C + C, "ara-bound") \cup
  When(IsCons /\ 4 * r[5] > r[4] * C, "ara-weightbound")

BadResult ==
  When(R.runaway, "runaway") \cup
  (IF R.runaway THEN {} ELSE
  (IF R.path = <<>>
   THEN When(cost # -1 \/ Len(R.rows) > 0, "ara-nopath") \cup
        When(~ARA!LimitReached /\ C < INF, "missed-solution")
   ELSE IF ~IsWalk(G, R.path, R.ops) THEN {"path-broken"}
   ELSE When(R.path[1] # G.start, "path-start") \cup
        When(~Goal(G, R.path[Len(R.path)]), "path-goal") \cup
        When(RCost > cost, "path-cost") \cup
        When(Len(R.rows) = 0, "ara-norow") \cup
        When(Len(R.rows) > 0 /\ RCost > R.rows[Len(R.rows)][5], "ara-rowcost") \cup
        When(C >= INF, "phantom-solution") \cup
        When(IsCons /\ ~ARA!LimitReached /\ ~R.mayStop /\ ~ARA!StopDue /\ RCost # C, "not-optimal")) \cup
  When(R.conv \notin {"yes", "no"}, "ara-convline") \cup
  When(IsCons /\ R.conv = "yes" /\ (IF R.path = <<>> THEN C < INF ELSE RCost # C), "ara-converged") \cup
  When(R.conv = "no" /\ ARA!Done /\ w = 4 /\ ~R.mayStop, "ara-notconverged") \cup
  UNION {BadRow(i) : i \in 1..Len(R.rows)} \cup
  LET want == ARA!NewRows IN
  When(RowsFound # [i \in 1..Len(want) |-> SubSeq(want[i], 1, 5)], "ara-rows") \cup
  When(\E i \in 1..Len(want) : i <= Len(R.rows) /\ R.rows[i][5] = want[i][5] /\ ~BoundOK(R.rows[i], want[i][6]), "ara-boundvalue") \cup
  (ARA!BadStop \cup
  When(R.expd # cnt.expd, "stat-expd") \cup
  When(R.gend # cnt.gend, "stat-gend") \cup
  When(R.dups # cnt.dups, "stat-dups") \cup
  When(R.rep # <<R.expd, R.gend, R.dups, R.reopn, Len(R.path)>>, "stat-report")))

Finish ==
  /\ status = "search" /\ Stopped /\ ~RoundDue
  /\ LET v == viol \cup BadResult IN viol' = v /\ Verdict(R.id, v)
  /\ ARA!DoStop
  /\ UNCHANGED l

Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l, viol, pid, nodes, open, incons, closed, w, cost, found, best, cur, todo, cnt, rows, status>>
=============================================================================
