-------------------------------- MODULE LSS ---------------------------------
(* Real-time search with a local search space (LSS-LRTA* and its one-step,   *)
(* complete-layer and weighted-update variants).  A step of the agent:       *)
(*   lookahead  a bounded A* from the current state (at most `look' pops)    *)
(*   learning   the estimates of the states popped become the cost of the    *)
(*              cheapest way to the frontier plus its estimate               *)
(*   move       to the cheapest goal generated, else to the best frontier    *)
(*              node (or, complete-layer, the best of the last full layer)   *)
(* States expanded once are remembered: expanding them again asks the domain *)
(* nothing.                                                                  *)
(*   h, expd   learned estimates and the states expanded so far              *)
(*   g, f, par, open, closed, pops, goal   of the current lookahead          *)
(*   now, todo the node being expanded and its operators not yet applied     *)
(*   moves, lens  the states passed through and the lengths of the steps     *)
EXTENDS Graphs
CONSTANT Problem(_)  \* [G, look, onestep, complete, w2, limE, limG, limT]
VARIABLES pid, agent, h, expd, g, f, par, open, closed, pops, goal, now, todo, moves, lens, cnt, status
vars == <<pid, agent, h, expd, g, f, par, open, closed, pops, goal, now, todo, moves, lens, cnt, status>>
P == Problem(pid)
Gr == P.G
LimitReached == \/ P.limE > 0 /\ cnt.expd >= P.limE
                \/ P.limG > 0 /\ cnt.gend >= P.limG
                \/ P.limT > 0 /\ cnt.expd + cnt.gend >= P.limT

InitProblem(p) ==
  LET G0 == Problem(p).G  none == [i \in Nodes(G0) |-> -1] IN
  /\ pid = p /\ agent = G0.start /\ h = G0.h /\ expd = {}
  /\ g = [none EXCEPT ![G0.start] = 0]
  /\ f = [none EXCEPT ![G0.start] = G0.h[G0.start]]
  /\ par = [i \in Nodes(G0) |-> 0]
  /\ open = {G0.start} /\ closed = {} /\ pops = 0 /\ goal = 0
  /\ now = 0 /\ todo = {}
  /\ moves = <<G0.start>> /\ lens = <<>>
  /\ cnt = [expd |-> 0, gend |-> 0, dups |-> 0]
  /\ status = "search"

(* ---- lookahead ---- *)
Before(a, b) == f[a] < f[b] \/ (f[a] = f[b] /\ g[a] > g[b])
BestOf(S) == {n \in S : \A m \in S : ~Before(m, n)}
Popped == now # 0
GoalPopped == goal # 0 /\ goal \in closed /\ goal \in open
Searching == status = "search" /\ ~Popped /\ ~Goal(Gr, agent) /\ ~LimitReached
             /\ open # {} /\ pops < P.look /\ ~GoalPopped

CanPop(n) == Searching /\ n \in BestOf(open)
DoPop(n) ==
  /\ open' = open \ {n} /\ closed' = closed \cup {n} /\ pops' = pops + 1
  /\ now' = n
  /\ IF n \in expd THEN todo' = {} /\ UNCHANGED <<cnt, expd>>
     ELSE todo' = OpsOf(Gr, n) /\ cnt' = [cnt EXCEPT !.expd = @ + 1] /\ expd' = expd \cup {n}
  /\ UNCHANGED <<pid, agent, h, g, f, par, goal, moves, lens, status>>

(* a successor generated for the first time: its estimate is raised so that  *)
(* the estimates along the edge are consistent                               *)
DoGenerate(o) ==
  LET k == Dst(Gr, now, o) IN
  /\ todo' = todo \ {o}
  /\ h' = [h EXCEPT ![k] = Max2(@, h[now] - Cst(Gr, now, o))]
  /\ cnt' = [cnt EXCEPT !.gend = @ + 1]
  /\ UNCHANGED <<pid, agent, expd, g, f, par, open, closed, pops, goal, now, moves, lens, status>>

CanRelax == Popped /\ todo = {}
Kids == {Dst(Gr, now, o) : o \in OpsOf(Gr, now)} \ {par[now]}
EdgeCost(k) == MinSet({Cst(Gr, now, o) : o \in {x \in OpsOf(Gr, now) : Dst(Gr, now, x) = k}})
Better(k) == g[k] = -1 \/ g[k] > g[now] + EdgeCost(k)
NewG(k) == IF k \in Kids /\ Better(k) THEN g[now] + EdgeCost(k) ELSE g[k]
(* the goals that may be remembered after this relaxation *)
GoalsAfter ==
  IF Goal(Gr, now) THEN {now}
  ELSE LET GK == {k \in Kids : Goal(Gr, k)} IN
       IF GK = {} THEN {goal}
       ELSE LET m == MinSet({NewG(k) : k \in GK}) IN
            IF goal # 0 /\ NewG(goal) <= m THEN {goal} ELSE {k \in GK : NewG(k) = m}
DoRelax(gl) ==
  LET imp == {k \in Kids : Better(k)} IN
  /\ g' = [i \in Nodes(Gr) |-> NewG(i)]
  /\ f' = [i \in Nodes(Gr) |-> IF i \in imp THEN NewG(i) + h[i] ELSE f[i]]
  /\ par' = [i \in Nodes(Gr) |-> IF i \in imp THEN now ELSE par[i]]
  /\ open' = open \cup imp \cup (IF Goal(Gr, now) THEN {now} ELSE {})
  /\ cnt' = [cnt EXCEPT !.dups = @ + Cardinality({k \in imp : par[k] # 0})]
  /\ goal' = gl /\ now' = 0
  /\ UNCHANGED <<pid, agent, h, expd, closed, pops, todo, moves, lens, status>>

(* ---- learning ---- *)
LookaheadOver == status = "search" /\ ~Popped /\ ~Goal(Gr, agent) /\ ~LimitReached
                 /\ (open = {} \/ pops >= P.look \/ GoalPopped)
DeadEnd == LookaheadOver /\ open = {} /\ goal = 0
(* learning is only specified when no popped state is back on the frontier,  *)
(* which consistent estimates guarantee                                      *)
Ambiguous == closed \cap open # {}
RECURSIVE Backup(_)
Backup(v) ==
  LET u == TLCEval([s \in Nodes(Gr) |->
             IF s \notin closed THEN v[s]
             ELSE FoldLeft(LAMBDA acc, a : Min2(acc, Plus((P.w2 * a[2]) \div 2, v[a[1]])), v[s], Gr.succ[s])])
  IN IF u = v THEN v ELSE Backup(u)
Learned ==
  LET b == Backup([s \in Nodes(Gr) |-> IF s \in open THEN h[s] ELSE INF]) IN
  [s \in Nodes(Gr) |-> IF s \in closed /\ b[s] < INF THEN Max2(b[s], Gr.h[s]) ELSE h[s]]

(* ---- moving ---- *)
MinF == MinSet({f[n] : n \in open})
Layer == {n \in closed \ {agent} : f[n] # MinF}
Dests == IF goal # 0 THEN {goal}
         ELSE IF P.complete /\ Layer # {} THEN
           LET m == MaxSet({f[n] : n \in Layer}) IN BestOf({n \in Layer : f[n] = m})
         ELSE BestOf(open \ {agent})
RECURSIVE ChainTo(_)
ChainTo(n) == IF n = agent THEN <<>> ELSE Append(ChainTo(par[n]), n)
StepTo(n) == IF P.onestep THEN <<ChainTo(n)[1]>> ELSE ChainTo(n)

CanMove(n) == LookaheadOver /\ ~DeadEnd /\ n \in Dests
DoMove(n) ==
  LET st == StepTo(n)  to == st[Len(st)]
      h2 == IF goal = 0 THEN Learned ELSE h IN
  /\ h' = h2
  /\ agent' = to /\ moves' = moves \o st /\ lens' = Append(lens, Len(st))
  /\ g' = [i \in Nodes(Gr) |-> IF i = to THEN 0 ELSE -1]
  /\ f' = [i \in Nodes(Gr) |-> IF i = to THEN h2[to] ELSE -1]
  /\ par' = [i \in Nodes(Gr) |-> 0]
  /\ open' = {to} /\ closed' = {} /\ pops' = 0 /\ goal' = 0 /\ now' = 0 /\ todo' = {}
  /\ UNCHANGED <<pid, expd, cnt, status>>

(* ---- the end ---- *)
Arrived == status = "search" /\ Goal(Gr, agent)
Over == Arrived \/ DeadEnd \/ (status = "search" /\ ~Popped /\ LimitReached)
DoStop(s) == status' = s /\ UNCHANGED <<pid, agent, h, expd, g, f, par, open, closed, pops, goal, now, todo, moves, lens, cnt>>

Next == \/ \E n \in open : CanPop(n) /\ DoPop(n)
        \/ \E o \in todo : Popped /\ DoGenerate(o)
        \/ CanRelax /\ \E gl \in GoalsAfter : DoRelax(gl)
        \/ LookaheadOver /\ (goal # 0 \/ ~Ambiguous) /\ \E n \in Dests : CanMove(n) /\ DoMove(n)
        \/ Over /\ DoStop("done")
-----------------------------------------------------------------------------
ToGo == DistToGoal(Gr)
AllReach == \A i \in Nodes(Gr) : ToGo[i] < INF
(* learned estimates of a consistent heuristic stay admissible and never     *)
(* drop, and the agent's walk is a walk                                      *)
LearnAdmissible == Consistent(Gr) /\ P.w2 = 2 => \A i \in Nodes(Gr) : h[i] <= ToGo[i]
LearnGrows == \A i \in Nodes(Gr) : h[i] >= Gr.h[i]
MovesOK == \A i \in 1..Len(moves)-1 : \E o \in OpsOf(Gr, moves[i]) : Dst(Gr, moves[i], o) = moves[i+1]
NoReopen == Consistent(Gr) /\ P.w2 = 2 /\ PositiveCosts(Gr) /\ goal = 0 => closed \cap open = {}
LookBound == pops <= P.look
(* a goal is reached from everywhere if every state can reach one *)
Reaches == <>(status = "done")
StopsAtGoal == status = "done" /\ ~LimitReached /\ AllReach => Goal(Gr, agent)
=============================================================================
