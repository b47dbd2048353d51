------------------------------- MODULE Geom --------------------------------
(* Exact plane geometry on points with whole coordinates: segments, lines,   *)
(* boxes, arcs whose ends lie at multiples of an eighth of a turn, polygons  *)
(* and convex hulls.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Turn(a, b, c) == Cross(Sub(b, a), Sub(c, a))
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Btw(a, b, x) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)

(* ------------------------------------------------- segments <<a, b>>, closed *)
OnSeg(a, b, p) == Turn(a, b, p) = 0 /\ Btw(a[1], b[1], p[1]) /\ Btw(a[2], b[2], p[2])
Opp(x, y) == (x > 0 /\ y < 0) \/ (x < 0 /\ y > 0)
Crosses(a, b, c, d) == Opp(Turn(a, b, c), Turn(a, b, d)) /\ Opp(Turn(c, d, a), Turn(c, d, b))
Touch(a, b, c, d) == Crosses(a, b, c, d) \/ OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b)
Parallel(a, b, c, d) == Cross(Sub(b, a), Sub(d, c)) = 0

(* Points found by the code are given in thousandths.                        *)
K == 1000
NearLine(a, b, P) == Abs(Cross(Sub(b, a), <<P[1] - K * a[1], P[2] - K * a[2]>>)) <= Abs(b[1] - a[1]) + Abs(b[2] - a[2])
Within1(x, y, z) == Min2(x, y) * K - 1 <= z /\ z <= Max2(x, y) * K + 1
NearSeg(a, b, P) == NearLine(a, b, P) /\ Within1(a[1], b[1], P[1]) /\ Within1(a[2], b[2], P[2])

(* ------------------------------------------ boxes <<x0, y0, x1, y1>>, closed *)
Box(a, b) == <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[1], b[1]), Max2(a[2], b[2])>>
InBox(B, p) == B[1] <= p[1] /\ p[1] <= B[3] /\ B[2] <= p[2] /\ p[2] <= B[4]
BoxesMeet(A, B) == Max2(A[1], B[1]) <= Min2(A[3], B[3]) /\ Max2(A[2], B[2]) <= Min2(A[4], B[4])
RECURSIVE BoxOf(_)
BoxOf(ps) == IF Len(ps) = 1 THEN Box(ps[1], ps[1])
             ELSE LET B == BoxOf(Tail(ps)) IN <<Min2(B[1], ps[1][1]), Min2(B[2], ps[1][2]), Max2(B[3], ps[1][1]), Max2(B[4], ps[1][2])>>

(* ----------------------------------------------------------------- polygons *)
Nx(P, i) == IF i = Len(P) THEN P[1] ELSE P[i+1]
Pv(P, i) == IF i = 1 THEN P[Len(P)] ELSE P[i-1]
OnBorder(P, p) == \E i \in 1..Len(P) : OnSeg(P[i], Nx(P, i), p)
(* a point off the border is inside when a ray upward crosses it oddly often  *)
Inside(P, p) ==
  Cardinality({i \in 1..Len(P) : LET a == P[i]
                                     b == Nx(P, i)
                                     left == IF a[1] < b[1] THEN a ELSE b
                                     right == IF a[1] < b[1] THEN b ELSE a
                                 IN  left[1] <= p[1] /\ p[1] < right[1] /\ Turn(left, right, p) < 0}) % 2 = 1
(* the corner at i goes straight on                                          *)
Straight(P, i) == LET u == Sub(P[i], Pv(P, i))
                      v == Sub(Nx(P, i), P[i]) IN Cross(u, v) = 0 /\ Dot(u, v) >= 0
Spike(P, i) == LET u == Sub(P[i], Pv(P, i))
                   v == Sub(Nx(P, i), P[i]) IN Cross(u, v) = 0 /\ Dot(u, v) < 0
RECURSIVE SubSeq2(_, _)
SubSeq2(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                 ELSE IF s[1] = t[1] THEN SubSeq2(Tail(s), Tail(t)) ELSE SubSeq2(s, Tail(t))
(* V is W without the corners at which nothing turns                         *)
Corners(W, V) == SubSeq2(V, W) /\ (\A i \in 1..Len(V) : ~Straight(V, i)) /\ \A i \in 1..Len(W) : OnBorder(V, W[i])
Touched(P, a, b) == {i \in 1..Len(P) : Touch(a, b, P[i], Nx(P, i))}
(* the crossing of a-b with the line c-d, as a fraction of the way from a     *)
Frac(a, b, c, d) == LET den == Cross(Sub(b, a), Sub(d, c))
                        num == Cross(Sub(c, a), Sub(d, c))
                    IN  IF den < 0 THEN <<-num, -den>> ELSE <<num, den>>

(* -------------------------------------------------------------------- hulls *)
GeneralPosition(Q) == \A p, q, s \in Q : Cardinality({p, q, s}) = 3 => Turn(p, q, s) # 0
(* V goes clockwise around the points of Q                                    *)
HullOf(Q, V) ==
  /\ Len(V) >= 3 /\ \A i \in 1..Len(V) : V[i] \in Q
  /\ \A i \in 1..Len(V) : Turn(Pv(V, i), V[i], Nx(V, i)) < 0
  /\ \A i \in 1..Len(V), q \in Q : Turn(V[i], Nx(V, i), q) <= 0
  /\ Cardinality({V[i] : i \in 1..Len(V)}) = Len(V)

(* ---- arcs: centre, radius, start and sweep, the latter in eighths of a turn *)
(* Directions have ranks 0..15: even ones are multiples of an eighth, odd     *)
(* ones lie between.                                                          *)
Rank(sx, sy, sd) ==   \* signs of x, of y and of |x|-|y|
  CASE sx > 0 /\ sy = 0 -> 0
    [] sx > 0 /\ sy > 0 -> IF sd > 0 THEN 1 ELSE IF sd = 0 THEN 2 ELSE 3
    [] sx = 0 /\ sy > 0 -> 4
    [] sx < 0 /\ sy > 0 -> IF sd < 0 THEN 5 ELSE IF sd = 0 THEN 6 ELSE 7
    [] sx < 0 /\ sy = 0 -> 8
    [] sx < 0 /\ sy < 0 -> IF sd > 0 THEN 9 ELSE IF sd = 0 THEN 10 ELSE 11
    [] sx = 0 /\ sy < 0 -> 12
    [] sx > 0 /\ sy < 0 -> IF sd < 0 THEN 13 ELSE IF sd = 0 THEN 14 ELSE 15
    [] OTHER -> 0
RankOf(v) == Rank(Sgn(v[1]), Sgn(v[2]), Sgn(Abs(v[1]) - Abs(v[2])))
Sweeps(A, k) == LET t0 == 2 * A.t0
                    d == IF A.dt < 0 THEN (t0 - k) % 16 ELSE (k - t0) % 16
                IN  d <= 2 * Abs(A.dt)
(* sign of x + y*sqrt(d), for d >= 0 *)
SgnRoot(x, y, d) == IF y = 0 \/ d = 0 THEN Sgn(x)
                    ELSE IF x = 0 THEN Sgn(y)
                    ELSE IF Sgn(x) = Sgn(y) THEN Sgn(x)
                    ELSE LET c == Sgn(x * x - y * y * d) IN Sgn(x) * c
(* the hits of segment a-b on the arc: signs s for the two roots of the       *)
(* quadratic whose point lies on the segment and is swept                     *)
Disc(A, a, b) == LET v == Sub(b, a)
                     w == Sub(a, A.c)
                 IN  Dot(v, w) * Dot(v, w) - Dot(v, v) * (Dot(w, w) - A.r * A.r)
ArcHit(A, a, b, s) ==   \* the point a + u v, u = (-v.w + s sqrt(D)) / v.v
  LET v == Sub(b, a)
      w == Sub(a, A.c)
      L == Dot(v, v)
      D == Disc(A, a, b)
      p == -Dot(v, w)
      (* the point relative to the centre, times L: w L + v (p + s sqrt D) *)
      X == <<w[1] * L + v[1] * p, w[2] * L + v[2] * p>>
      sx == SgnRoot(X[1], s * v[1], D)
      sy == SgnRoot(X[2], s * v[2], D)
      (* |x| - |y| has the sign of x sx - y sy *)
      sd == SgnRoot(X[1] * (IF sx < 0 THEN -1 ELSE 1) - X[2] * (IF sy < 0 THEN -1 ELSE 1),
                    s * (v[1] * (IF sx < 0 THEN -1 ELSE 1) - v[2] * (IF sy < 0 THEN -1 ELSE 1)), D)
  IN  SgnRoot(p, s, D) >= 0 /\ SgnRoot(p - L, s, D) <= 0 /\ Sweeps(A, Rank(sx, sy, sd))
ArcHits(A, a, b) == LET D == Disc(A, a, b) IN
  IF D < 0 THEN 0
  ELSE IF D = 0 THEN (IF ArcHit(A, a, b, 1) THEN 1 ELSE 0)
  ELSE Cardinality({s \in {1, -1} : ArcHit(A, a, b, s)})
NearCircle(A, P) == LET x == P[1] - K * A.c[1]
                        y == P[2] - K * A.c[2]
                    IN  Abs(x * x + y * y - K * K * A.r * A.r) <= 4 * K * (A.r + 1)
=============================================================================
