------------------------------- MODULE Tiles -------------------------------
(* The sliding-tile puzzle.  A state gives the tile in every place, row by   *)
(* row, 0 being the empty place.  I.goalpos[t+1] is the place of tile t in   *)
(* the goal, counted from 0.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Col(I, p) == (p - 1) % I.w
LOCAL Row(I, p) == (p - 1) \div I.w
LOCAL Dif(a, b) == IF a >= b THEN a - b ELSE b - a
TilesAdjacent(I, p, q) == Dif(Col(I, p), Col(I, q)) + Dif(Row(I, p), Row(I, q)) = 1
TilesBlank(s) == CHOOSE p \in 1..Len(s) : s[p] = 0
TilesSucc(I, s) ==
  LET b == TilesBlank(s) IN
  {<<[s EXCEPT ![b] = s[p], ![p] = 0], <<1, 0>>>> : p \in {q \in 1..Len(s) : TilesAdjacent(I, b, q)}}
TilesGoal(I, s) == \A p \in 1..Len(s) : s[p] # 0 => I.goalpos[s[p] + 1] = p - 1
TilesState(I, s) == Len(s) = I.w * I.tall /\ {s[p] : p \in 1..Len(s)} = 0..(I.w * I.tall - 1)

(* A puzzle can be solved exactly when the parity of its order is that of    *)
(* the goal (see MCTiles): a move up or down on a board of even width passes *)
(* an odd number of tiles, and the empty place changes its row.              *)
LOCAL Parity(I, s) ==
  (Cardinality({<<p, q>> \in (1..Len(s)) \X (1..Len(s)) : p < q /\ s[p] > s[q] /\ s[q] # 0})
   + (IF I.w % 2 = 0 THEN Row(I, TilesBlank(s)) ELSE 0)) % 2
TilesSolvable(I, s) == Parity(I, s) = Parity(I, [p \in 1..Len(s) |-> (CHOOSE t \in 1..Len(s) : I.goalpos[t] = p - 1) - 1])

(* Manhattan distance, an admissible estimate (see MCTiles) *)
RECURSIVE TilesSum(_, _, _)
TilesSum(I, s, p) ==
  IF p = 0 THEN 0
  ELSE TilesSum(I, s, p - 1) +
       IF s[p] = 0 THEN 0
       ELSE LET g == I.goalpos[s[p] + 1] + 1 IN Dif(Col(I, p), Col(I, g)) + Dif(Row(I, p), Row(I, g))
TilesManhattan(I, s) == TilesSum(I, s, Len(s))
=============================================================================
