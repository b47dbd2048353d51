---------------------------- MODULE SmallGraphs -----------------------------
(* Small search problems enumerated exhaustively for the design models:      *)
(* every graph over N states whose arcs have a cost from Costs or are        *)
(* absent, start state 1, goal state N, every heuristic with values from Hs  *)
(* (0 at the goal).  Arcs out of the goal are left out.                      *)
EXTENDS Graphs
CONSTANTS N, Costs, Hs
NONE == -1
ArcIx == {<<i, j>> \in (1..N-1) \X (1..N) : i # j}
(* the operator leading straight back, numbered as it will be at j *)
SuccOf(fn, i) ==
  LET Has(a, b) == a # N /\ b # a /\ fn[<<a, b>>] # NONE
      Ix(a, b) == Cardinality({x \in 1..b : Has(a, x)})
  IN SelectSeq([j \in 1..N |-> IF j # i /\ i # N /\ fn[<<i, j>>] # NONE
                               THEN <<j, fn[<<i, j>>], IF Has(j, i) THEN Ix(j, i) ELSE 0>> ELSE <<0, 0, 0>>],
               LAMBDA a : a[1] # 0)
GraphOf(fn, hv) == [n |-> N, start |-> 1, goal |-> [i \in 1..N |-> IF i = N THEN 1 ELSE 0],
                    h |-> [i \in 1..N |-> IF i = N THEN 0 ELSE hv[i]],
                    d |-> [i \in 1..N |-> IF i = N THEN 0 ELSE hv[i]],
                    succ |-> [i \in 1..N |-> SuccOf(fn, i)]]
ArcFns == [ArcIx -> Costs \cup {NONE}]
HFns == [1..N-1 -> Hs]
=============================================================================
