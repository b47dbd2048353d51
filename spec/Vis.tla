-------------------------------- MODULE Vis --------------------------------
(* Path finding among obstacles.  Obstacles are polygons given clockwise     *)
(* (kind 0), or blocked cells two units wide (kind 1).  The places are the   *)
(* start, the goal and the obstacles' outward corners; moves join places     *)
(* that see each other.  Lines of sight that graze an obstacle may count     *)
(* either way, those that enter one may not, and those that touch none do.   *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
LOCAL Cross(u, v) == u[1] * v[2] - u[2] * v[1]
LOCAL Turn(a, b, c) == Cross(Sub(b, a), Sub(c, a))
LOCAL Nx(P, i) == IF i = Len(P) THEN P[1] ELSE P[i+1]
LOCAL Pv(P, i) == IF i = 1 THEN P[Len(P)] ELSE P[i-1]
LOCAL Btw(a, b, x) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
(* p lies on the closed segment from a to b *)
LOCAL OnSeg(a, b, p) == Turn(a, b, p) = 0 /\ Btw(a[1], b[1], p[1]) /\ Btw(a[2], b[2], p[2])
LOCAL Opp(x, y) == (x > 0 /\ y < 0) \/ (x < 0 /\ y > 0)
LOCAL Crosses(p, q, a, b) == Opp(Turn(p, q, a), Turn(p, q, b)) /\ Opp(Turn(a, b, p), Turn(a, b, q))
LOCAL Touches(p, q, a, b) == Crosses(p, q, a, b) \/ OnSeg(p, q, a) \/ OnSeg(p, q, b) \/ OnSeg(a, b, p) \/ OnSeg(a, b, q)

(* the corners of a polygon, without the points along straight sides *)
LOCAL CornerIxs(P) == {i \in 1..Len(P) : Turn(Pv(P, i), P[i], Nx(P, i)) # 0}
LOCAL ConvexIxs(P) == {i \in 1..Len(P) : Turn(Pv(P, i), P[i], Nx(P, i)) < 0}
LOCAL Sides(P) == {<<P[i], Nx(P, i)>> : i \in 1..Len(P)}
(* whether direction d at an outward corner leads into, or along, the polygon *)
LOCAL Into(P, i, d) == Cross(Sub(P[i], Pv(P, i)), d) < 0 /\ Cross(Sub(Nx(P, i), P[i]), d) < 0
LOCAL IntoOrAlong(P, i, d) == Cross(Sub(P[i], Pv(P, i)), d) <= 0 /\ Cross(Sub(Nx(P, i), P[i]), d) <= 0
LOCAL IxOf(P, p) == {i \in ConvexIxs(P) : P[i] = p}

(* adjacent corners of one polygon see each other along its side *)
LOCAL Adjacent(P, p, q) ==
  \E i \in IxOf(P, p), j \in IxOf(P, q) : i # j /\
     LET between(a, b) == \A k \in CornerIxs(P) : ~IF a < b THEN a < k /\ k < b ELSE k > a \/ k < b
     IN  between(i, j) \/ between(j, i)

PolyBlocks(P, p, q) ==
  (\E s \in Sides(P) : Crosses(p, q, s[1], s[2])) \/ (\E i \in IxOf(P, p) : Into(P, i, Sub(q, p))) \/ (\E i \in IxOf(P, q) : Into(P, i, Sub(p, q)))
PolyClear(P, p, q) ==
  /\ \A s \in Sides(P) : Touches(p, q, s[1], s[2]) => p \in {s[1], s[2]} \/ q \in {s[1], s[2]}
  /\ \A i \in IxOf(P, p) : ~IntoOrAlong(P, i, Sub(q, p)) /\ ~OnSeg(p, q, Pv(P, i)) /\ ~OnSeg(p, q, Nx(P, i))
  /\ \A i \in IxOf(P, q) : ~IntoOrAlong(P, i, Sub(p, q)) /\ ~OnSeg(p, q, Pv(P, i)) /\ ~OnSeg(p, q, Nx(P, i))
  /\ \A s \in Sides(P) : ~(p \in {s[1], s[2]} /\ IxOf(P, p) = {}) /\ ~(q \in {s[1], s[2]} /\ IxOf(P, q) = {})

(* cells <<x, y>>, each covering 2x-2..2x by 2y-2..2y *)
LOCAL Cells(I) == {c \in (1..I.w) \X (1..I.tall) : I.cell[c[2]][c[1]] = 0}
LOCAL Box(c) == {<<x, y>> : x \in {2*c[1]-2, 2*c[1]}, y \in {2*c[2]-2, 2*c[2]}}
LOCAL Min2(a, b) == IF a < b THEN a ELSE b
LOCAL Max2(a, b) == IF a > b THEN a ELSE b
LOCAL Enters(c, p, q) ==
  /\ Max2(p[1], q[1]) > 2*c[1]-2 /\ Min2(p[1], q[1]) < 2*c[1]
  /\ Max2(p[2], q[2]) > 2*c[2]-2 /\ Min2(p[2], q[2]) < 2*c[2]
  /\ \E k \in Box(c) : Turn(p, q, k) > 0
  /\ \E k \in Box(c) : Turn(p, q, k) < 0
LOCAL Meets(c, p, q) ==
  /\ Max2(p[1], q[1]) >= 2*c[1]-2 /\ Min2(p[1], q[1]) <= 2*c[1]
  /\ Max2(p[2], q[2]) >= 2*c[2]-2 /\ Min2(p[2], q[2]) <= 2*c[2]
  /\ \E k \in Box(c) : Turn(p, q, k) >= 0
  /\ \E k \in Box(c) : Turn(p, q, k) <= 0
(* from a corner p of the cell, q's direction leaves it at once *)
LOCAL Away(c, p, q) == p \in Box(c) /\ LET sx == 2*c[1]-1 - p[1]
                                           sy == 2*c[2]-1 - p[2] IN ~(sx * (q[1] - p[1]) >= 0 /\ sy * (q[2] - p[2]) >= 0)
LOCAL Cell(I, x, y) == IF x \in 1..I.w /\ y \in 1..I.tall THEN I.cell[y][x] ELSE 1
LOCAL Around(I, p) == {<<x, y>> \in ({p[1] \div 2, p[1] \div 2 + 1} \X {p[2] \div 2, p[2] \div 2 + 1}) : Cell(I, x, y) = 0}
LOCAL Inside(I) == {<<2*x, 2*y>> : x \in 1..(I.w - 1), y \in 1..(I.tall - 1)}

VisCorners(I) == IF I.kind = 0 THEN UNION {{P[i] : i \in ConvexIxs(P)} : P \in {I.polys[k] : k \in 1..Len(I.polys)}}
                 ELSE {p \in Inside(I) : Cardinality(Around(I, p)) = 1}
VisPlaces(I) == VisCorners(I) \cup {I.start, I.fin}
Blocked(I, p, q) == IF I.kind = 0 THEN \E k \in 1..Len(I.polys) : PolyBlocks(I.polys[k], p, q) /\ ~Adjacent(I.polys[k], p, q)
                    ELSE \E c \in Cells(I) : Enters(c, p, q)
Clear(I, p, q) == IF I.kind = 0 THEN (\E k \in 1..Len(I.polys) : Adjacent(I.polys[k], p, q)) \/ (\A k \in 1..Len(I.polys) : PolyClear(I.polys[k], p, q))
                  ELSE \A c \in Cells(I) : ~Meets(c, p, q) \/ Away(c, p, q) \/ Away(c, q, p)
LOCAL D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
VisMust(I, s) == {<<t, <<D2(s, t), 0>> >> : t \in {t \in VisPlaces(I) \ {s} : Clear(I, s, t)}}
VisMay(I, s) == {<<t, <<D2(s, t), 0>> >> : t \in {t \in VisPlaces(I) \ {s} : ~Blocked(I, s, t)}}
(* a thousandth's rounding of a distance *)
VisCost(got, want) == got[2] = 0 /\ got[1] \in 0..40000 /\ (got[1] + 1) * (got[1] + 1) >= 1000000 * want[1]
                      /\ (got[1] = 0 \/ (got[1] - 1) * (got[1] - 1) <= 1000000 * want[1])
VisState(I, s) == s \in VisPlaces(I)
VisGoal(I, s) == s = I.fin

(* probes of the map: <<x, y, 1 if obstructed>>; boundaries may count either way *)
LOCAL OnEdge(P, p) == \E s \in Sides(P) : OnSeg(s[1], s[2], p)
LOCAL InPoly(P, p) ==
  Cardinality({i \in 1..Len(P) : LET a == P[i] b == Nx(P, i) IN
      (a[2] > p[2]) # (b[2] > p[2]) /\ (IF b[2] > a[2] THEN Turn(a, b, p) > 0 ELSE Turn(a, b, p) < 0)}) % 2 = 1
BadProbes(I) == \E k \in 1..Len(I.probes) : LET p == I.probes[k] IN
   IF I.kind = 0
   THEN /\ \A j \in 1..Len(I.polys) : ~OnEdge(I.polys[j], p)
        /\ (p[3] = 1) # (\E j \in 1..Len(I.polys) : InPoly(I.polys[j], p))
   ELSE p[1] % 2 = 1 /\ p[2] % 2 = 1 /\ (p[3] = 1) # (Cell(I, (p[1] + 1) \div 2, (p[2] + 1) \div 2) = 0)
LOCAL Xs(I) == UNION {{I.polys[j][k] : k \in 1..Len(I.polys[j])} : j \in 1..Len(I.polys)}
BadBox(I) == I.kind = 0 /\ Len(I.polys) > 0 /\
  ~(/\ \A p \in Xs(I) : p[1] \in I.box[1]..I.box[3] /\ p[2] \in I.box[2]..I.box[4]
    /\ \A k \in 1..4 : \E p \in Xs(I) : p[IF k % 2 = 1 THEN 1 ELSE 2] = I.box[k])
=============================================================================
