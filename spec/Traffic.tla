------------------------------ MODULE Traffic ------------------------------
(* Crossing a grid among moving obstacles.  A state is <<x, y, time>>, cells *)
(* counted from 0.  Obstacle <<x, y, dx, dy>> moves dx and dy cells a step   *)
(* and bounces off the walls.  Stepping into a cell where an obstacle        *)
(* arrives at the same time sends one back to the start, at time 0; changing *)
(* places with an obstacle is impossible.                                    *)
EXTENDS Integers, Sequences, FiniteSets
(* where a point bouncing between 0 and n is after having moved by k *)
LOCAL Bounce(p, k, n) == LET q == (p + k) % (2 * n) IN IF q <= n THEN q ELSE 2 * n - q
TrafficObs(I, o, t) == <<Bounce(o[1], o[3] * t, I.w - 1), Bounce(o[2], o[4] * t, I.tall - 1)>>
TrafficHit(I, c, t) == \E k \in 1..Len(I.obs) : TrafficObs(I, I.obs[k], t) = c
LOCAL Swap(I, c, e, t) == \E k \in 1..Len(I.obs) : TrafficObs(I, I.obs[k], t) = e /\ TrafficObs(I, I.obs[k], t + 1) = c
(* staying where an obstacle remains counts as changing places with it *)
TrafficSucc(I, s) ==
  {LET e == <<s[1] + d[1], s[2] + d[2]>> IN
     << IF TrafficHit(I, e, s[3] + 1) THEN <<I.start[1], I.start[2], 0>> ELSE <<e[1], e[2], s[3] + 1>>, <<1, 0>> >> :
   d \in {f \in {<<0, 1>>, <<0, -1>>, <<1, 0>>, <<-1, 0>>, <<0, 0>>} :
            /\ s[1] + f[1] \in 0..(I.w - 1) /\ s[2] + f[2] \in 0..(I.tall - 1)
            /\ ~Swap(I, <<s[1], s[2]>>, <<s[1] + f[1], s[2] + f[2]>>, s[3])}}
TrafficGoal(I, s) == <<s[1], s[2]>> = I.fin
TrafficState(I, s) == s[1] \in 0..(I.w - 1) /\ s[2] \in 0..(I.tall - 1) /\ s[3] >= 0
=============================================================================
