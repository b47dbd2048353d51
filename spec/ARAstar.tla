------------------------------ MODULE ARAstar -------------------------------
(* Anytime repairing A*: weighted A* under a decreasing weight, keeping the  *)
(* open list between iterations.  Search nodes are separate from states: the *)
(* closed list is forgotten between iterations, so a state can own several   *)
(* nodes.                                                                    *)
(*   nodes   all nodes made so far, [s, g, par]                              *)
(*   open, incons  sets of nodes; closed  state -> node of this iteration    *)
(*   w       four times the weight (weights are multiples of 1/4)            *)
(*   cost    cost of the incumbent, -1: none; found: improved in this round  *)
(*   rows    incumbents reported: <<number, expd, gend, w, cost>>            *)
EXTENDS Graphs
(* A stopping rule ends the search as soon as there is an incumbent whose     *)
(* cost is between P.stopLo and P.stopHi; P.mayStop: it may, at any cost.     *)
CONSTANT Problem(_)   \* [G, w0, dw, limE, limG, limT, mayStop, stopLo, stopHi]
VARIABLES pid, nodes, open, incons, closed, w, cost, found, best, cur, todo, cnt, rows, status
vars == <<pid, nodes, open, incons, closed, w, cost, found, best, cur, todo, cnt, rows, status>>

P == Problem(pid)
Gr == P.G
LimitReached == \/ P.limE > 0 /\ cnt.expd >= P.limE
                \/ P.limG > 0 /\ cnt.gend >= P.limG
                \/ P.limT > 0 /\ cnt.expd + cnt.gend >= P.limT

StopDue == cost # -1 /\ P.stopLo <= cost /\ cost <= P.stopHi

FP(n) == 4 * nodes[n].g + w * Gr.h[nodes[n].s]
BestOf(S) == {n \in S : \A m \in S : FP(n) <= FP(m)}
MinFP == FP(CHOOSE n \in BestOf(open) : TRUE)
Good == open # {} /\ (cost = -1 \/ 4 * cost > MinFP)

InitProblem(p) ==
  LET G0 == Problem(p).G IN
  /\ pid = p
  /\ nodes = <<[s |-> G0.start, g |-> 0, par |-> 0]>>
  /\ open = {1} /\ incons = {}
  /\ closed = [i \in Nodes(G0) |-> IF i = G0.start THEN 1 ELSE 0]
  /\ w = Problem(p).w0 /\ cost = -1 /\ found = FALSE /\ best = 0
  /\ cur = 0 /\ todo = {}
  /\ cnt = [expd |-> 0, gend |-> 0, dups |-> 0]
  /\ rows = <<>> /\ status = "search"

Unfinished == /\ cur # 0
              /\ \E o \in todo : nodes[cur].par = 0 \/ Dst(Gr, nodes[cur].s, o) # nodes[nodes[cur].par].s

(* an open or inconsistent node that cannot improve the incumbent is dropped *)
Keep(S) == IF found THEN {n \in S : nodes[n].g + Gr.h[nodes[n].s] < cost} ELSE S
(* the least estimate among the states that may still improve the incumbent, *)
(* consistent or not: cost / MinF bounds the incumbent's suboptimality       *)
MinF == LET S == Keep(open \cup incons) IN
        IF S = {} THEN cost ELSE MinSet({nodes[n].g + Gr.h[nodes[n].s] : n \in S})
NewRows == IF found THEN Append(rows, <<Len(rows)+1, cnt.expd, cnt.gend, w, cost, IF w = 4 \/ Keep(open \cup incons) = {} THEN -1 ELSE MinF>>) ELSE rows

NextRound == ~Good /\ w > 4 /\ ~LimitReached /\ ~StopDue /\ Keep(open \cup incons) # {}
DoNextRound ==
  /\ rows' = NewRows
  /\ w' = Max2(4, w - P.dw)
  /\ open' = Keep(open \cup incons) /\ incons' = {}
  /\ closed' = [i \in Nodes(Gr) |-> 0]
  /\ found' = FALSE
  /\ cur' = 0 /\ todo' = {}
  /\ UNCHANGED <<pid, nodes, cost, best, cnt, status>>

(* the nodes an expansion of state s may be about *)
CandOf(s) == LET C == {n \in open : nodes[n].s = s} IN
             IF C = {} THEN {0} ELSE BestOf(C)
BadExpand(n) ==
  (IF Unfinished THEN {"gen-missing"} ELSE {}) \cup
  (IF n = 0 THEN {"expand-notopen"} ELSE
     (IF n \notin BestOf(open) THEN {"order"} ELSE {}) \cup
     (IF ~Good THEN {"ara-overexpand"} ELSE {})) \cup
  (IF LimitReached THEN {"limit-overrun"} ELSE {}) \cup
  (IF StopDue THEN {"ara-overstay"} ELSE {})
DoExpand(n) ==
  IF n = 0 THEN UNCHANGED vars
  ELSE LET goal == Goal(Gr, nodes[n].s) IN
       /\ open' = open \ {n}
       /\ cur' = n /\ todo' = OpsOf(Gr, nodes[n].s)
       /\ cost' = IF goal THEN nodes[n].g ELSE cost
       /\ found' = (found \/ goal)
       /\ best' = IF goal THEN n ELSE best
       /\ cnt' = [cnt EXCEPT !.expd = @ + 1]
       /\ UNCHANGED <<pid, nodes, incons, closed, w, rows, status>>

BadGenerate(s, o) ==
  (IF cur = 0 THEN {"gen-stray"} ELSE IF nodes[cur].s # s THEN {"gen-stray"} ELSE {}) \cup
  (IF o \notin todo THEN {"gen-dup"} ELSE {})
DoGenerate(s, o) ==
  IF cur = 0 THEN UNCHANGED vars
  ELSE
  LET k == Dst(Gr, s, o)
      c == nodes[cur].g + Cst(Gr, s, o)
      m == closed[k]
      new == Len(nodes) + 1
  IN /\ todo' = todo \ {o}
     /\ cnt' = [cnt EXCEPT !.gend = @ + 1, !.dups = IF m # 0 THEN @ + 1 ELSE @]
     /\ IF m = 0
        THEN /\ nodes' = Append(nodes, [s |-> k, g |-> c, par |-> cur])
             /\ open' = open \cup {new}
             /\ closed' = [closed EXCEPT ![k] = new]
             /\ UNCHANGED incons
        ELSE IF c < nodes[m].g
        THEN /\ nodes' = [nodes EXCEPT ![m].g = c, ![m].par = cur]
             /\ incons' = IF m \in open THEN incons ELSE incons \cup {m}
             /\ UNCHANGED <<open, closed>>
        ELSE UNCHANGED <<nodes, open, closed, incons>>
     /\ UNCHANGED <<pid, w, cost, found, best, cur, rows, status>>

(* The search stops at a limit, when its stopping rule says so once there is *)
(* an incumbent, when the last round is over or when nothing is left.        *)
Done == ~Good /\ (w = 4 \/ Keep(open \cup incons) = {})
BadStop ==
  (IF Unfinished THEN {"gen-missing"} ELSE {}) \cup
  (IF LimitReached \/ Done \/ StopDue \/ (P.mayStop /\ cost # -1) THEN {} ELSE {"gave-up"})
DoStop == /\ status' = "done" /\ rows' = NewRows
          /\ UNCHANGED <<pid, nodes, open, incons, closed, w, cost, found, best, cur, todo, cnt>>

Next == /\ status = "search"
        /\ \/ \E n \in open : BadExpand(n) = {} /\ DoExpand(n)
           \/ \E o \in todo : DoGenerate(nodes[cur].s, o)
           \/ ~Unfinished /\ NextRound /\ DoNextRound
           \/ BadStop = {} /\ DoStop

-----------------------------------------------------------------------------
Opt == DistToGoal(Gr)[Gr.start]
(* incumbents strictly improve under strictly decreasing weights *)
RowsImprove == \A i \in 1..Len(rows)-1 : rows[i+1][5] < rows[i][5] /\ rows[i+1][4] < rows[i][4]
(* each incumbent is within its weight of optimal, and its computed bound    *)
(* cost / min f over open and incons is sound                                *)
RowSound == Consistent(Gr) => \A i \in 1..Len(rows) : 4 * rows[i][5] <= rows[i][4] * Opt
BoundSound == Consistent(Gr) /\ cur = 0 /\ found => MinF <= Opt
ConvergedOptimal == Consistent(Gr) /\ status = "done" /\ Done => (IF cost = -1 THEN Opt >= INF ELSE cost = Opt)
AraLimits == P.limE > 0 => cnt.expd <= P.limE
=============================================================================
