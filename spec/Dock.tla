-------------------------------- MODULE Dock -------------------------------
(* Dockworker robots.  A state is                                            *)
(*   <<place of the robot, then for every box its place (-1: on the robot),  *)
(*     the bottom box of its pile (-1: not in a pile), its height in it>>.   *)
(* Places and boxes are numbered from 0.  Costs are in hundredths: 1 to load *)
(* or unload, 5 for every box of the pile, once after and once before, to    *)
(* push or pop.                                                              *)
EXTENDS Integers, Sequences, FiniteSets
Boxes(I) == 0..(I.boxes - 1)
At(s, b) == s[2 + 3 * b]
Bot(s, b) == s[3 + 3 * b]
Ht(s, b) == s[4 + 3 * b]
Put(s, b, l, bot, ht) == [s EXCEPT ![2 + 3 * b] = l, ![3 + 3 * b] = bot, ![4 + 3 * b] = ht]
OnCrane(I, s, l) == {b \in Boxes(I) : At(s, b) = l /\ Bot(s, b) = -1}
PilesAt(I, s, l) == {Bot(s, b) : b \in {c \in Boxes(I) : At(s, c) = l /\ Bot(s, c) # -1}}
Pile(I, s, bot) == {b \in Boxes(I) : Bot(s, b) = bot}
Robot(I, s) == {b \in Boxes(I) : At(s, b) = -1}
DockSucc(I, s) ==
  LET l == s[1]
      cr == OnCrane(I, s, l)
      free == Cardinality(cr) < I.cranes[l + 1]
      ps == PilesAt(I, s, l)
      push == {<<Put(s, b, l, p, Cardinality(Pile(I, s, p))), <<5 * (Cardinality(Pile(I, s, p)) + 1), 0>>>> : b \in cr, p \in ps}
      new == IF Cardinality(ps) < I.piles[l + 1] THEN {<<Put(s, b, l, b, 0), <<5, 0>>>> : b \in cr} ELSE {}
      top(p) == CHOOSE b \in Pile(I, s, p) : Ht(s, b) = Cardinality(Pile(I, s, p)) - 1
      pop == IF free THEN {<<Put(s, top(p), l, -1, 0), <<5 * (Cardinality(Pile(I, s, p)) + 1), 0>>>> : p \in ps} ELSE {}
      load == IF Robot(I, s) = {} THEN {<<Put(s, b, -1, -1, 0), <<1, 0>>>> : b \in cr} ELSE {}
      unload == IF free THEN {<<Put(s, b, l, -1, 0), <<1, 0>>>> : b \in Robot(I, s)} ELSE {}
      move == {<<[s EXCEPT ![1] = k], <<I.adj[l + 1][k + 1], 0>>>> : k \in (0..(I.locs - 1)) \ {l}}
  IN  push \cup new \cup pop \cup load \cup unload \cup move
DockPlace(s, b) == IF At(s, b) = -1 THEN s[1] ELSE At(s, b)
DockGoal(I, s) == \A b \in Boxes(I) : I.fin[b + 1] >= 0 => DockPlace(s, b) = I.fin[b + 1]
(* every box is in one place and piles are stacked without holes *)
DockState(I, s) ==
  /\ Len(s) = 1 + 3 * I.boxes /\ s[1] \in 0..(I.locs - 1)
  /\ Cardinality(Robot(I, s)) <= 1
  /\ \A b \in Boxes(I) : /\ At(s, b) \in -1..(I.locs - 1)
                         /\ Bot(s, b) # -1 => /\ Bot(s, b) \in Boxes(I) /\ At(s, b) = At(s, Bot(s, b))
                                              /\ {Ht(s, c) : c \in Pile(I, s, Bot(s, b))} = 0..(Cardinality(Pile(I, s, Bot(s, b))) - 1)
                                              /\ Ht(s, Bot(s, b)) = 0
  /\ \A l \in 0..(I.locs - 1) : /\ Cardinality(OnCrane(I, s, l)) <= I.cranes[l + 1]
                                /\ Cardinality(PilesAt(I, s, l)) <= I.piles[l + 1]
=============================================================================
