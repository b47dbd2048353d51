-------------------------------- MODULE Grid -------------------------------
(* Path finding on grids.  Cells are <<x, y>> with x in 1..w and y in        *)
(* 1..tall; I.cell[y][x] is 0 blocked, 1 ground, 2 swamp, 3 water.  I.mode   *)
(* is 4 (four-way), 8 (eight-way: diagonals are free) or 9 (octile:          *)
(* diagonals need both neighbouring cells).  On life grids a move costs the  *)
(* number of rows below the cell it leaves, times sqrt(2) for diagonals.     *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL In(I, c) == c[1] \in 1..I.w /\ c[2] \in 1..I.tall
LOCAL Terrain(I, c) == IF In(I, c) THEN I.cell[c[2]][c[1]] ELSE 0
(* whether one can get from terrain a to terrain b: those in water stay there *)
LOCAL Passes(a, b) == IF a = 3 THEN b = 3 ELSE b \in {1, 2}
LOCAL Free(I, c, e) == Passes(Terrain(I, c), Terrain(I, e))
GridDirs(I) == {d \in {-1, 0, 1} \X {-1, 0, 1} : d # <<0, 0>> /\ (I.mode = 4 => (d[1] = 0 \/ d[2] = 0))}
LOCAL Diag(d) == d[1] # 0 /\ d[2] # 0
GridSteps(I, c) ==
  {d \in GridDirs(I) :
     /\ Free(I, c, <<c[1] + d[1], c[2] + d[2]>>)
     /\ (Diag(d) /\ I.mode = 9) => Free(I, c, <<c[1] + d[1], c[2]>>) /\ Free(I, c, <<c[1], c[2] + d[2]>>)}
GridWeight(I, c) == IF I.life THEN I.tall - c[2] ELSE 1
GridSucc(I, c) ==
  {<< <<c[1] + d[1], c[2] + d[2]>>, IF Diag(d) THEN <<0, GridWeight(I, c)>> ELSE <<GridWeight(I, c), 0>> >> : d \in GridSteps(I, c)}
GridGoal(I, c) == c = I.fin
GridState(I, c) == In(I, c)
=============================================================================
