------------------------------ MODULE MCTiles -------------------------------
(* Which sliding-tile puzzles can be solved: on small boards the states      *)
(* reached from the goal are those TilesSolvable accepts, half of them all,  *)
(* and the Manhattan distance never overestimates.                           *)
EXTENDS Tiles, TLC
CONSTANTS Small, Big   \* boards, width and height as two digits
VARIABLES dims, s, steps
Board(k) == <<k \div 10, k % 10>>
Boards == {Board(k) : k \in Small}
BigBoards == {Board(k) : k \in Big}
Inst(d) == [w |-> d[1], tall |-> d[2], goalpos |-> [i \in 1..(d[1] * d[2]) |-> i - 1]]
Solved(d) == [p \in 1..(d[1] * d[2]) |-> p - 1]
RECURSIVE Closure(_, _, _)
Closure(I, seen, new) ==
  IF new = {} THEN seen
  ELSE LET far == TLCEval({t[1] : t \in UNION {TilesSucc(I, x) : x \in new}} \ seen) IN Closure(I, seen \cup far, far)
Perms(d) == {f \in [1..(d[1] * d[2]) -> 0..(d[1] * d[2] - 1)] : \A i, j \in 1..(d[1] * d[2]) : i # j => f[i] # f[j]}
ASSUME \A d \in Boards : Closure(Inst(d), {Solved(d)}, {Solved(d)}) = {f \in Perms(d) : TilesSolvable(Inst(d), f)}
(* the states of bigger boards, breadth first to a depth *)
Init == dims \in BigBoards /\ s = Solved(dims) /\ steps = 0
Next == steps < 12 /\ steps' = steps + 1 /\ UNCHANGED dims /\ \E t \in TilesSucc(Inst(dims), s) : s' = t[1]
Spec == Init /\ [][Next]_<<dims, s, steps>>
Solvable == TilesSolvable(Inst(dims), s)
Estimate == TilesManhattan(Inst(dims), s) <= steps
=============================================================================
