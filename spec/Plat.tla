------------------------------- MODULE Plat --------------------------------
(* The platform game.  Lengths are in fortieths of a pixel, the player is 21  *)
(* by 29 pixels, the tiles are 32 by 32; y grows downward.  A state is        *)
(* <<x, y, dy, frames, falling, twin>>: the player's corner, its downward     *)
(* speed, for how many frames holding the jump matters, whether it falls.     *)
(* (twins are states that differ by rounding only).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL W == 840
LOCAL H == 1160
LOCAL T == 1280
LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
LOCAL Max2(a, b) == IF a > b THEN a ELSE b
LOCAL Sgn(a) == IF a > 0 THEN 1 ELSE -1
LOCAL Cell(I, cx, cy) == I.cell[cy + 1][cx + 1]
LOCAL Solid(I, cx, cy) == cx < 0 \/ cy < 0 \/ cx >= I.w \/ cy >= I.tall \/ Cell(I, cx, cy) \in {"#"}
LOCAL Watery(c) == c \in {"w", "U", "D"}
LOCAL MidX(x) == (x + W \div 2) \div T
LOCAL MidY(y) == (y + H \div 2) \div T
LOCAL Wet(I, x, y) == Watery(Cell(I, MidX(x), MidY(y)))

(* how far [a, a+len] reaches into [t, t+T] *)
LOCAL Reach(a, len, t) == IF t <= a + len /\ a + len <= t + T THEN a + len - t ELSE t + T - a
LOCAL Cols(x) == (x \div T)..((x + W - 1) \div T)
LOCAL Rows(y) == (y \div T)..((y + H - 1) \div T)
LOCAL Hit(I, x, y) == {<<cx, cy>> \in Cols(x) \X Rows(y) : Solid(I, cx, cy)}
LOCAL MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : m >= k
LOCAL ReachX(I, x, y) == MaxOf({Reach(x, W, c[1] * T) : c \in Hit(I, x, y)})
LOCAL ReachY(I, x, y) == MaxOf({Reach(y, H, c[2] * T) : c \in Hit(I, x, y)})

(* one small step: to the next whole pixel, or what is left of the way *)
LOCAL Till(loc, v) == LET m == loc % 40
                          d == IF v = 0 THEN 0 ELSE IF v > 0 THEN IF m = 0 THEN 40 ELSE 40 - m ELSE IF m = 0 THEN -40 ELSE -m
                      IN  IF Abs(d) > Abs(v) THEN v ELSE d
(* standing exactly at the edge of a column of tiles, where rounding decides *)
LOCAL Edge(I, x) == I.wet = 1 /\ (x % T = 0 \/ (x + W) % T = 0)
LOCAL Middle(I, x) == I.wet = 1 /\ (x + W \div 2) % T = 0
RECURSIVE Travel(_, _, _)
(* m: x, y, the rest of the motion, the way left, direction signs, the last *)
(* vertical contact, whether rounding may have mattered *)
LOCAL Travel(I, m, n) ==
  IF (m.lx <= 0 /\ m.ly <= 0) \/ n = 0 THEN m
  ELSE LET ex == Till(m.x, m.vx)
           ey == Till(m.y, m.vy)
           sy == IF ey = 0 THEN 0 ELSE ReachY(I, m.x, m.y + ey)
           sx == IF ex = 0 THEN 0 ELSE ReachX(I, m.x + ex, m.y + ey + (IF ey < 0 THEN sy ELSE -sy))
           fx == ex - m.sx * sx
           fy == ey - m.sy * sy
       IN  Travel(I, TLCEval([m EXCEPT !.x = @ + fx, !.y = @ + fy, !.vx = @ - fx, !.vy = @ - fy, !.lx = @ - Abs(ex), !.ly = @ - Abs(ey),
                     !.hit = IF sy # 0 THEN sy ELSE @, !.amb = @ \/ Edge(I, m.x + fx)]), n - 1)

(* what the keys do: -1, 0, 1 for left, none, right; jump held or not *)
PlatAct(I, s, dir, jump) ==
  LET fall == s[5] = 1
      dy0 == IF ~jump /\ fall THEN IF s[3] < 0 THEN LET u == s[3] + 40 * (8 - s[4]) IN IF u > 0 THEN 0 ELSE u ELSE s[3]
             ELSE IF jump /\ ~fall THEN -320 ELSE s[3]
      jf0 == IF ~jump /\ fall THEN 0 ELSE IF jump /\ ~fall THEN 8 ELSE s[4]
      fall0 == fall \/ jump
      vx == dir * (IF Wet(I, s[1], s[2]) THEN 91 ELSE 130)
      m == Travel(I, [x |-> s[1], y |-> s[2], vx |-> vx, vy |-> dy0, lx |-> Abs(vx), ly |-> Abs(dy0), sx |-> Sgn(vx), sy |-> Sgn(dy0),
                      hit |-> 0, amb |-> Edge(I, s[1]) \/ Middle(I, s[1])], 40)
      landed == dy0 > 0 /\ m.hit > 0 /\ fall0
      bumped == ~landed /\ dy0 < 0 /\ m.hit > 0
      dy1 == IF bumped THEN 0 ELSE dy0
      fall1 == IF landed THEN FALSE ELSE IF bumped THEN TRUE ELSE fall0
      drop == m.hit = 0 /\ ~fall1
      dy2 == IF drop THEN 0 ELSE dy1
      fall2 == fall1 \/ drop
      dy3 == IF fall2 /\ dy2 < 480 THEN dy2 + (IF Wet(I, m.x, m.y) THEN 10 ELSE 20) ELSE dy2
  IN  [to |-> <<m.x, m.y, dy3, IF jf0 > 0 THEN jf0 - 1 ELSE 0, IF fall2 THEN 1 ELSE 0>>, amb |-> m.amb \/ Middle(I, m.x)]

LOCAL CanJump(s) == s[5] = 0 \/ (s[4] = 0 /\ s[3] <= 0) \/ s[4] > 0
LOCAL Keys(s) == {<<-1, FALSE>>, <<1, FALSE>>, <<0, TRUE>>} \cup (IF CanJump(s) THEN {<<-1, TRUE>>, <<1, TRUE>>} ELSE {})
LOCAL Results(I, s) == {PlatAct(I, s, k[1], k[2]) : k \in Keys(s)}
PlatMust(I, s) == {<<a.to, <<1, 0>>>> : a \in {a \in Results(I, s) : ~a.amb}}
PlatMay(I, s) == {<<a.to, <<1, 0>>>> : a \in Results(I, s)}
(* where rounding decides, any small motion *)
PlatLoose(I, s, t) == (\E a \in Results(I, s) : a.amb) /\ Abs(t[1] - s[1]) <= 131 /\ Abs(t[2] - s[2]) <= 520
PlatSeen(s) == SubSeq(s, 1, 5)
PlatGoal(I, s) == MidX(s[1]) = I.goal[1] /\ MidY(s[2]) = I.goal[2]
PlatStart(I, s) == PlatSeen(s) = <<I.start[1] * T + 280, I.start[2] * T + 80, 0, 0, 0>>
PlatState(I, s) ==
  /\ Len(s) = 6 /\ s[4] \in 0..8 /\ s[5] \in {0, 1} /\ s[1] >= 0 /\ s[2] >= 0 /\ s[1] + W <= I.w * T /\ s[2] + H <= I.tall * T
  /\ Hit(I, s[1], s[2]) = {}
=============================================================================
