------------------------------- MODULE Vacuum ------------------------------
(* A robot cleaning a grid.  A state is <<x, y, number of dirty cells,       *)
(* flag of dirt 1, ...>>; dirt k lies at I.dirt[k].  A state's robot moves   *)
(* to free neighbouring cells or sucks up dirt under it, each at cost 1.     *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Free(I, x, y) == x \in 1..I.w /\ y \in 1..I.tall /\ I.cell[y][x] = 1
VacuumSucc(I, s) ==
  {<< [s EXCEPT ![1] = s[1] + d[1], ![2] = s[2] + d[2]], <<1, 0>> >> :
      d \in {e \in {<<0, 1>>, <<0, -1>>, <<1, 0>>, <<-1, 0>>} : Free(I, s[1] + e[1], s[2] + e[2])}}
  \cup
  {<< [s EXCEPT ![3] = s[3] - 1, ![3 + k] = 0], <<1, 0>> >> : k \in {j \in 1..Len(I.dirt) : I.dirt[j] = <<s[1], s[2]>> /\ s[3 + j] = 1}}
VacuumGoal(I, s) == \A k \in 1..Len(I.dirt) : s[3 + k] = 0
VacuumInit(I) == <<I.start[1], I.start[2], Len(I.dirt)>> \o [k \in 1..Len(I.dirt) |-> 1]
VacuumState(I, s) == /\ Len(s) = 3 + Len(I.dirt) /\ Free(I, s[1], s[2])
                     /\ s[3] = Cardinality({k \in 1..Len(I.dirt) : s[3 + k] = 1})
                     /\ \A k \in 1..Len(I.dirt) : s[3 + k] \in {0, 1}
=============================================================================
