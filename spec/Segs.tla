-------------------------------- MODULE Segs -------------------------------
(* Line segments moved one at a time by a gripper on a plane.  A state is    *)
(* <<gripper x, gripper y, number of segments off their goals, then for each *)
(* segment x, y, rotation, and its two ends in thousandths>>.  I.segs[k] is  *)
(* <<radius in halves, start x, y, rotation, goal x, y, rotation>>.          *)
(* With two or four rotations everything is exact: lengths are in halves.    *)
(* With others I.dirs has the directions in ten thousandths, ends are        *)
(* known to a thousandth, and what is too close to tell may be allowed or    *)
(* not, as may sweeps that merely touch something.                           *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL N(I) == Len(I.segs)
LOCAL Pose(s, k) == <<s[7*k-3], s[7*k-2], s[7*k-1]>>
LOCAL Ends(s, k) == <<s[7*k], s[7*k+1], s[7*k+2], s[7*k+3]>>
LOCAL Goal(I, k) == <<I.segs[k][5], I.segs[k][6], I.segs[k][7]>>
LOCAL Off(I, ps) == Cardinality({k \in 1..N(I) : ps[k] # Goal(I, k)})
LOCAL Exact(I) == I.angles \in {2, 4}
(* the direction of rotation r *)
LOCAL Dir(I, r) == LET q == (r * 4) \div I.angles IN <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>[q + 1]
(* ends of a segment in halves *)
LOCAL EndA(I, k, p) == <<2*p[1] + I.segs[k][1] * Dir(I, p[3])[1], 2*p[2] + I.segs[k][1] * Dir(I, p[3])[2]>>
LOCAL EndB(I, k, p) == <<2*p[1] - I.segs[k][1] * Dir(I, p[3])[1], 2*p[2] - I.segs[k][1] * Dir(I, p[3])[2]>>
LOCAL Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
LOCAL Plus(p, q) == <<p[1] + q[1], p[2] + q[2]>>
LOCAL Dot(p, q) == p[1] * q[1] + p[2] * q[2]
LOCAL Turn(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
LOCAL Btw(a, b, x) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
LOCAL OnSeg(a, b, p) == Turn(a, b, p) = 0 /\ Btw(a[1], b[1], p[1]) /\ Btw(a[2], b[2], p[2])
LOCAL Opp(x, y) == (x > 0 /\ y < 0) \/ (x < 0 /\ y > 0)
LOCAL Crosses(p, q, a, b) == Opp(Turn(p, q, a), Turn(p, q, b)) /\ Opp(Turn(a, b, p), Turn(a, b, q))
LOCAL Touches(p, q, a, b) == Crosses(p, q, a, b) \/ OnSeg(p, q, a) \/ OnSeg(p, q, b) \/ OnSeg(a, b, p) \/ OnSeg(a, b, q)
LOCAL Lo(a, b) == IF a < b THEN a ELSE b
LOCAL Hi(a, b) == IF a > b THEN a ELSE b
LOCAL Pos(a) == Hi(a, 0)
(* the nearest distance, squared, of an axis-parallel segment to the origin's first quadrant part, if any *)
LOCAL QuadIn(u, v, a, b, r, strict) ==
  LET lu == Lo(Dot(a, u), Dot(b, u))  hu == Hi(Dot(a, u), Dot(b, u))
      lv == Lo(Dot(a, v), Dot(b, v))  hv == Hi(Dot(a, v), Dot(b, v))
      d2 == Pos(lu) * Pos(lu) + Pos(lv) * Pos(lv)
  IN  IF strict THEN hu > 0 /\ hv > 0 /\ d2 < r * r ELSE hu >= 0 /\ hv >= 0 /\ d2 <= r * r
LOCAL Neg(u) == <<-u[1], -u[2]>>
LOCAL Rot(p, e, n) == <<p[1], p[2], (p[3] + e) % n>>
(* turning segment k meets the segment from a to b *)
LOCAL TurnMeets(I, k, p, e, a, b, strict) ==
  LET c == <<2*p[1], 2*p[2]>>
      x == Sub(a, c)  y == Sub(b, c)
      u == Dir(I, p[3])
      v == IF I.angles = 4 THEN Dir(I, Rot(p, e, 4)[3]) ELSE <<0, 1>>
      r == I.segs[k][1]
  IN  QuadIn(u, v, x, y, r, strict) \/ QuadIn(Neg(u), Neg(v), x, y, r, strict)
      \/ (I.angles = 2 /\ (QuadIn(u, Neg(v), x, y, r, strict) \/ QuadIn(Neg(u), v, x, y, r, strict)))
(* shifting segment k by d meets the segment from a to b *)
LOCAL ShiftMeets(I, k, p, d, a, b, strict) ==
  LET p0 == EndA(I, k, p)  p1 == EndB(I, k, p)
      q0 == Plus(p0, <<2*d[1], 2*d[2]>>)  q1 == Plus(p1, <<2*d[1], 2*d[2]>>)
      t == <<Turn(p0, q0, a), Turn(q0, q1, a), Turn(q1, p1, a), Turn(p1, p0, a)>>
  IN  IF strict THEN Crosses(p0, q0, a, b) \/ Crosses(p1, q1, a, b) \/ Crosses(q0, q1, a, b)
                     \/ (\A j \in 1..4 : t[j] > 0) \/ (\A j \in 1..4 : t[j] < 0)
      ELSE Touches(p0, q0, a, b) \/ Touches(p1, q1, a, b) \/ Touches(q0, q1, a, b)
           \/ (\A j \in 1..4 : t[j] >= 0) \/ (\A j \in 1..4 : t[j] <= 0)
(* leaving the plane's bounds *)
LOCAL OutPt(I, p, strict) == IF strict THEN p[1] < 0 \/ p[2] < 0 \/ p[1] > 2*I.w \/ p[2] > 2*I.tall
                             ELSE p[1] <= 0 \/ p[2] <= 0 \/ p[1] >= 2*I.w \/ p[2] >= 2*I.tall
LOCAL Leaves(I, k, q, strict) == OutPt(I, EndA(I, k, q), strict) \/ OutPt(I, EndB(I, k, q), strict)
LOCAL LeavesDisc(I, k, q, strict) == OutPt(I, <<2*q[1] - I.segs[k][1], 2*q[2] - I.segs[k][1]>>, strict) \/ OutPt(I, <<2*q[1] + I.segs[k][1], 2*q[2] + I.segs[k][1]>>, strict)

(* the moves: <<segment, new pose, is a diagonal, forbidden, certainly allowed>> *)
LOCAL Turns(I) == {-1, 1}
LOCAL Shifts == {d \in {-1, 0, 1} \X {-1, 0, 1} : d # <<0, 0>>}
LOCAL Others(I, k) == 1..N(I) \ {k}
(* ---- other numbers of rotations: lengths are in thousandths              *)
LOCAL Far(x) == IF x > 20000 THEN 1 ELSE IF x < -20000 THEN -1 ELSE 0
LOCAL Collide(e, f) ==
  LET a == <<e[1], e[2]>>  b == <<e[3], e[4]>>  c == <<f[1], f[2]>>  d == <<f[3], f[4]>>
  IN  Far(Turn(a, b, c)) * Far(Turn(a, b, d)) = -1 /\ Far(Turn(c, d, a)) * Far(Turn(c, d, b)) = -1
(* the point at the end of a segment with pose p; side is 1 or -1 *)
LOCAL Tip(I, k, p, side) ==
  LET v == I.dirs[p[3] + 1] IN <<1000 * p[1] + side * ((I.segs[k][1] * v[1]) \div 20), 1000 * p[2] + side * ((I.segs[k][1] * v[2]) \div 20)>>
LOCAL Bar(I, k, p) == LET a == Tip(I, k, p, 1)  b == Tip(I, k, p, -1) IN <<a[1], a[2], b[1], b[2]>>
LOCAL Quad(a, b) == <<a[1], a[2], b[1], b[2]>>
(* a convex polygon clearly meets the segment e: a side is crossed or an end is inside *)
LOCAL Cyc(poly, j) == poly[(j % Len(poly)) + 1]
LOCAL Sure(poly, e) ==
  LET n == Len(poly)  a == <<e[1], e[2]>>  b == <<e[3], e[4]>> IN
  \/ \E j \in 1..n : Collide(Quad(poly[j], Cyc(poly, j)), e)
  \/ \E x \in {a, b} : \E sg \in {1, -1} : \A j \in 1..n : Far(Turn(poly[j], Cyc(poly, j), x)) = sg
(* some side, or the segment, clearly separates the two *)
LOCAL Clear(poly, e) ==
  LET n == Len(poly)  a == <<e[1], e[2]>>  b == <<e[3], e[4]>> IN
  \/ \E j \in 1..n : \E sg \in {1, -1} :
       /\ Far(Turn(poly[j], Cyc(poly, j), a)) = sg /\ Far(Turn(poly[j], Cyc(poly, j), b)) = sg
       /\ \A i \in 1..n : sg * Turn(poly[j], Cyc(poly, j), poly[i]) <= 0
  \/ \E sg \in {1, -1} : \A i \in 1..n : Far(Turn(a, b, poly[i])) = sg
(* the parallelogram a shift sweeps *)
LOCAL Slab(I, k, p, d) ==
  LET a == Tip(I, k, p, 1)  b == Tip(I, k, p, -1)  v == <<1000 * d[1], 1000 * d[2]>> IN <<a, Plus(a, v), Plus(b, v), b>>
(* for one side of a turn: a triangle in the sector swept, and a quadrilateral around it *)
LOCAL Centre(p) == <<1000 * p[1], 1000 * p[2]>>
LOCAL Within3(I, k, p, e, side) == <<Centre(p), Tip(I, k, p, side), Tip(I, k, Rot(p, e, I.angles), side)>>
LOCAL Around(I, k, p, e, side) ==
  LET c == Centre(p)  a == Tip(I, k, p, side)  b == Tip(I, k, Rot(p, e, I.angles), side)
      (* tangents meet at c + (a-c + b-c) / (1 + cos) ; cos of one step in ten thousandths is I.dirs[2][1] *)
      m == <<a[1] + b[1] - 2*c[1], a[2] + b[2] - 2*c[2]>>
      q == 10000 + I.dirs[2][1]
  IN  <<c, a, <<c[1] + ((m[1] * 10000) \div q), c[2] + ((m[2] * 10000) \div q)>>, b>>
(* turning passes the vertical or the horizontal direction between two rotations *)
LOCAL Peak(I, k, p, e) ==
  LET u == I.dirs[p[3] + 1]  v == I.dirs[Rot(p, e, I.angles)[3] + 1]  r == 500 * I.segs[k][1] IN
  <<IF Opp(u[2], v[2]) THEN r ELSE 0, IF Opp(u[1], v[1]) THEN r ELSE 0>>
LOCAL OutBy(I, x, slack) == x[1] < -slack \/ x[2] < -slack \/ x[1] > 1000*I.w + slack \/ x[2] > 1000*I.tall + slack
LOCAL Spread(x, z) == {<<x[1] + z[1], x[2] + z[2]>>, <<x[1] - z[1], x[2] - z[2]>>}
LOCAL TurnsOut(I, k, p, e, slack) ==
  \E side \in {1, -1} : \/ OutBy(I, Tip(I, k, Rot(p, e, I.angles), side), slack)
                         \/ \E x \in Spread(Centre(p), Peak(I, k, p, e)) : OutBy(I, x, slack)
LOCAL ShiftsOut(I, k, q, slack) == \E side \in {1, -1} : OutBy(I, Tip(I, k, q, side), slack)

SegMoves(I, s) ==
  LET E(j) == <<EndA(I, j, Pose(s, j)), EndB(I, j, Pose(s, j))>> IN
  UNION {
    {<<k, Rot(Pose(s, k), e, I.angles), FALSE,
       IF Exact(I) THEN (\E j \in Others(I, k) : TurnMeets(I, k, Pose(s, k), e, E(j)[1], E(j)[2], TRUE))
                        \/ (IF I.angles = 2 THEN LeavesDisc(I, k, Pose(s, k), TRUE) ELSE Leaves(I, k, Rot(Pose(s, k), e, 4), TRUE))
                   ELSE (\E j \in Others(I, k) : \E side \in {1, -1} : Sure(Within3(I, k, Pose(s, k), e, side), Bar(I, j, Pose(s, j))))
                        \/ TurnsOut(I, k, Pose(s, k), e, 2),
       IF Exact(I) THEN (\A j \in Others(I, k) : ~TurnMeets(I, k, Pose(s, k), e, E(j)[1], E(j)[2], FALSE))
                        /\ ~(IF I.angles = 2 THEN LeavesDisc(I, k, Pose(s, k), FALSE) ELSE Leaves(I, k, Rot(Pose(s, k), e, 4), FALSE))
                   ELSE (\A j \in Others(I, k) : \A side \in {1, -1} : Clear(Around(I, k, Pose(s, k), e, side), Bar(I, j, Pose(s, j))))
                        /\ ~TurnsOut(I, k, Pose(s, k), e, -2)>> : e \in Turns(I)} \cup
    {LET p == Pose(s, k)  q == <<p[1] + d[1], p[2] + d[2], p[3]>> IN
     <<k, q, d[1] # 0 /\ d[2] # 0,
       IF Exact(I) THEN (\E j \in Others(I, k) : ShiftMeets(I, k, p, d, E(j)[1], E(j)[2], TRUE)) \/ Leaves(I, k, q, TRUE)
                   ELSE (\E j \in Others(I, k) : Sure(Slab(I, k, p, d), Bar(I, j, Pose(s, j)))) \/ ShiftsOut(I, k, q, 2),
       IF Exact(I) THEN (\A j \in Others(I, k) : ~ShiftMeets(I, k, p, d, E(j)[1], E(j)[2], FALSE)) /\ ~Leaves(I, k, q, FALSE)
                   ELSE (\A j \in Others(I, k) : Clear(Slab(I, k, p, d), Bar(I, j, Pose(s, j)))) /\ ~ShiftsOut(I, k, q, -2)>> : d \in Shifts}
    : k \in 1..N(I)}
LOCAL Line(I, k, q) == <<500 * EndA(I, k, q)[1], 500 * EndA(I, k, q)[2], 500 * EndB(I, k, q)[1], 500 * EndB(I, k, q)[2]>>
(* what can be compared of a state: everything, except ends that are not exact *)
SegSeen(I, s) == <<s[1], s[2], s[3], [k \in 1..N(I) |-> Pose(s, k)], IF Exact(I) THEN [k \in 1..N(I) |-> Ends(s, k)] ELSE <<>> >>
LOCAL After(I, s, m) ==
  LET ps == [[k \in 1..N(I) |-> Pose(s, k)] EXCEPT ![m[1]] = m[2]]
  IN  <<m[2][1], m[2][2], Off(I, ps), ps, IF Exact(I) THEN [k \in 1..N(I) |-> Line(I, k, ps[k])] ELSE <<>> >>
(* costs are <<squared distance of the gripper, 1 if diagonal>> *)
LOCAL Price(s, m) == LET p == Pose(s, m[1]) IN <<(s[1] - p[1]) * (s[1] - p[1]) + (s[2] - p[2]) * (s[2] - p[2]), IF m[3] THEN 1 ELSE 0>>
SegMust(I, s) == {<<After(I, s, m), Price(s, m)>> : m \in {m \in SegMoves(I, s) : m[5]}}
SegMay(I, s) == {<<After(I, s, m), Price(s, m)>> : m \in {m \in SegMoves(I, s) : ~m[4]}}
SegCost(got, want) ==
  LET x == got[1] - (IF want[2] = 1 THEN 1414 ELSE 1000)
  IN  /\ got[2] = 0 /\ x \in -3..40000
      /\ (x + 2) * (x + 2) >= 1000000 * want[1]
      /\ (x <= 2 \/ (x - 2) * (x - 2) <= 1000000 * want[1])
      /\ (want[1] = 0 => x \in -1..1)
LOCAL Within(I, e) == e[1] \in -1..(1000*I.w + 1) /\ e[3] \in -1..(1000*I.w + 1) /\ e[2] \in -1..(1000*I.tall + 1) /\ e[4] \in -1..(1000*I.tall + 1)
SegState(I, s) ==
  /\ Len(s) = 3 + 7 * N(I)
  /\ \A k \in 1..N(I) : Pose(s, k)[1] \in 0..I.w /\ Pose(s, k)[2] \in 0..I.tall /\ Pose(s, k)[3] \in 0..(I.angles - 1)
  /\ s[3] = Off(I, [k \in 1..N(I) |-> Pose(s, k)])
  /\ \A k \in 1..N(I) : (IF Exact(I) THEN Ends(s, k) = Line(I, k, Pose(s, k)) ELSE \A j \in 1..4 : Ends(s, k)[j] - Bar(I, k, Pose(s, k))[j] \in -3..3) /\ Within(I, Ends(s, k))
  /\ \A k \in 1..N(I) : \A j \in 1..(k-1) : ~Collide(Ends(s, k), Ends(s, j))
SegStart(I, s) == s[1] = 0 /\ s[2] = 0 /\ \A k \in 1..N(I) : Pose(s, k) = <<I.segs[k][2], I.segs[k][3], I.segs[k][4]>>
SegGoal(I, s) == \A k \in 1..N(I) : Pose(s, k) = Goal(I, k)
(* taking a move back leaves the gripper where the segment is *)
SegBack(I, s, t) == \A k \in 1..N(I) : Pose(s, k) = Pose(t, k)
=============================================================================
