------------------------------ MODULE Pancake ------------------------------
(* A stack of pancakes of sizes 0..n-1, top first.  A move turns over any    *)
(* two or more of the topmost ones.                                          *)
EXTENDS Integers, Sequences, FiniteSets
Turn(s, k) == [i \in 1..Len(s) |-> IF i <= k THEN s[k + 1 - i] ELSE s[i]]
PancakeSucc(I, s) == {<<Turn(s, k), <<1, 0>>>> : k \in 2..Len(s)}
PancakeGoal(I, s) == \A i \in 1..Len(s) : s[i] = i - 1
PancakeState(I, s) == Len(s) = I.cakes /\ {s[i] : i \in 1..Len(s)} = 0..(I.cakes - 1)
(* gaps between neighbours, the plate included: an admissible estimate *)
PancakeGaps(s) ==
  Cardinality({i \in 1..Len(s) : IF i = Len(s) THEN s[i] # Len(s) - 1 ELSE s[i] - s[i+1] \notin {1, -1}})
=============================================================================
