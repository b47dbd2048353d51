------------------------------- MODULE Graphs -------------------------------
(* Finite search problems.  A graph G is a record                            *)
(*   n     number of states, named 1..n                                      *)
(*   start initial state                                                     *)
(*   goal  goal[i] = 1 iff i is a goal                                       *)
(*   h, d  heuristic estimates of cost-to-go and of steps-to-go              *)
(*   succ  succ[i][o] = <<successor, cost, reverse>> of the o-th operator at *)
(*         i; reverse is the operator at the successor that leads straight   *)
(*         back, 0 if there is none                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

INF == 100000000

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Plus(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y

Nodes(G) == 1..G.n
Goal(G, i) == G.goal[i] = 1
OpsOf(G, i) == 1..Len(G.succ[i])
Dst(G, i, o) == G.succ[i][o][1]
Cst(G, i, o) == G.succ[i][o][2]
Rev(G, i, o) == G.succ[i][o][3]

-----------------------------------------------------------------------------
(* Shortest distances as fixpoints of the relaxation equations.              *)
RECURSIVE FixTo(_, _)
FixTo(G, D) ==
  LET E == TLCEval([i \in Nodes(G) |->
             FoldLeft(LAMBDA acc, a : Min2(acc, Plus(a[2], D[a[1]])), D[i], G.succ[i])])
  IN  IF E = D THEN D ELSE FixTo(G, E)

(* the cost of a cheapest path from each state to a goal (INF: none) *)
DistToGoal(G) == FixTo(G, TLCEval([i \in Nodes(G) |-> IF Goal(G, i) THEN 0 ELSE INF]))

RECURSIVE FixFrom(_, _)
FixFrom(G, D) ==
  LET Better(E, i) == FoldLeft(LAMBDA F, a :
                         IF Plus(D[i], a[2]) < F[a[1]] THEN [F EXCEPT ![a[1]] = Plus(D[i], a[2])] ELSE F,
                         E, G.succ[i])
      E == TLCEval(FoldLeft(LAMBDA F, i : Better(F, i), D, [i \in 1..G.n |-> i]))
  IN  IF E = D THEN D ELSE FixFrom(G, E)

(* the cost of a cheapest path from s to each state *)
DistFrom(G, s) == FixFrom(G, TLCEval([i \in Nodes(G) |-> IF i = s THEN 0 ELSE INF]))

Reachable(G, s) == {i \in Nodes(G) : DistFrom(G, s)[i] < INF}

-----------------------------------------------------------------------------
Admissible(G, D) == \A i \in Nodes(G) : G.h[i] <= D[i]
Consistent(G) == /\ \A i \in Nodes(G) : Goal(G, i) => G.h[i] = 0
                 /\ \A i \in Nodes(G) : \A o \in OpsOf(G, i) : G.h[i] <= Cst(G, i, o) + G.h[Dst(G, i, o)]
PositiveCosts(G) == \A i \in Nodes(G) : \A o \in OpsOf(G, i) : Cst(G, i, o) > 0

-----------------------------------------------------------------------------
(* A solution is a path <<s1, ..., sk>> together with operators              *)
(* <<o1, ..., o(k-1)>>.                                                      *)
IsWalk(G, path, ops) ==
  /\ Len(path) >= 1
  /\ Len(ops) = Len(path) - 1
  /\ \A i \in 1..Len(path) : path[i] \in Nodes(G)
  /\ \A i \in 1..Len(ops) : /\ ops[i] \in OpsOf(G, path[i])
                            /\ Dst(G, path[i], ops[i]) = path[i+1]

IsSolution(G, path, ops) ==
  /\ IsWalk(G, path, ops)
  /\ path[1] = G.start
  /\ Goal(G, path[Len(path)])

WalkCost(G, path, ops) ==
  FoldLeft(LAMBDA acc, i : acc + Cst(G, path[i], ops[i]), 0, [i \in 1..Len(ops) |-> i])
=============================================================================
