------------------------------ MODULE MCGeom -------------------------------
(* The algorithms of the geometric primitives, in exact arithmetic, against   *)
(* what they are for, over every input on a small grid: two segments met by   *)
(* their slopes, points told inside or outside a polygon by a ray, corners    *)
(* dropped one after another, a hull wrapped around points.                   *)
EXTENDS Geom, TLC
CONSTANTS N, Size, Kind
VARIABLES job, out
P == (0..N) \X (0..N)
Tuples(k) == [1..k -> P]

(* ------------------------------------------------ segments, by their slopes *)
Vert(s) == s[1][1] = s[2][1]
SameSlope(s, o) == (s[2][2] - s[1][2]) * (o[2][1] - o[1][1]) = (o[2][2] - o[1][2]) * (s[2][1] - s[1][1])
(* the coordinate in which the segment is longer decides                      *)
InSeg(s, p, d) ==   \* point p / d
  LET B == Box(s[1], s[2])
  IN  IF B[3] - B[1] > B[4] - B[2] THEN B[1] * d <= p[1] /\ p[1] <= B[3] * d ELSE B[2] * d <= p[2] /\ p[2] <= B[4] * d
OnLine(s, p) == Turn(s[1], s[2], p) = 0
AnEndIn(s, o) == InSeg(s, o[1], 1) \/ InSeg(s, o[2], 1) \/ InSeg(o, s[1], 1)
SlopeHit(s, o) ==
  IF Vert(s) /\ Vert(o) THEN s[1][1] = o[1][1] /\ AnEndIn(s, o)
  ELSE IF ~Vert(s) /\ ~Vert(o) /\ SameSlope(s, o) THEN (OnLine(s, o[1]) \/ OnLine(s, o[2])) /\ AnEndIn(s, o)
  ELSE LET f == Frac(s[1], s[2], o[1], o[2])
           dx == s[2][1] - s[1][1]
           dy == s[2][2] - s[1][2]
           p == IF Vert(o) THEN <<<<o[1][1] * dx, s[1][2] * dx + dy * (o[1][1] - s[1][1])>>, dx>>
                ELSE IF Vert(s) THEN LET ox == o[2][1] - o[1][1]
                                         oy == o[2][2] - o[1][2] IN <<<<s[1][1] * ox, o[1][2] * ox + oy * (s[1][1] - o[1][1])>>, ox>>
                ELSE <<<<s[1][1] * f[2] + f[1] * dx, s[1][2] * f[2] + f[1] * dy>>, f[2]>>
           q == IF p[2] < 0 THEN <<<<-p[1][1], -p[1][2]>>, -p[2]>> ELSE p
       IN  InSeg(s, q[1], q[2]) /\ InSeg(o, q[1], q[2])
AxisParallel(s) == Vert(s) \/ s[1][2] = s[2][2]
Meets(s, o) == IF AxisParallel(s) \/ AxisParallel(o) THEN SlopeHit(s, o)
               ELSE BoxesMeet(Box(s[1], s[2]), Box(o[1], o[2])) /\ SlopeHit(s, o)

(* --------------------------------------------- a ray to the right, half open *)
RayInside(V, p) ==
  Cardinality({i \in 1..Len(V) : LET a == V[i]
                                     b == Nx(V, i)
                                     d == b[2] - a[2]
                                     x == a[1] * d + (p[2] - a[2]) * (b[1] - a[1])     \* times d
                                 IN  (a[2] > p[2]) # (b[2] > p[2]) /\ (IF d > 0 THEN x > p[1] * d ELSE x < p[1] * d)}) % 2 = 1
RECURSIVE Drop(_, _)
Drop(V, i) == IF i > Len(V) THEN V
              ELSE IF Straight(V, i) THEN Drop(SubSeq(V, 1, i-1) \o SubSeq(V, i+1, Len(V)), i) ELSE Drop(V, i+1)
Flat(V) == \A i \in 1..Len(V) : \A j \in 1..Len(V) : Turn(V[1], V[i], V[j]) = 0
Twice(V) == \E i \in 1..Len(V) : V[i] = Nx(V, i)

(* ------------------------------------------------------------ gift wrapping *)
(* The hull is walked from a leftmost point, first upward, each time to the   *)
(* point most to the left of the direction in which one came.                 *)
Leftmost(Q) == CHOOSE q \in Q : \A p \in Q : q[1] <= p[1]
(* u comes before v when turning right from direction d, starting behind left *)
Half(d, u) == IF Cross(d, u) > 0 THEN 0 ELSE IF Cross(d, u) = 0 /\ Dot(d, u) > 0 THEN 1 ELSE IF Cross(d, u) < 0 THEN 2 ELSE 3
(* by the turn from d, leftmost first: left of d the one turned most, right of d the one turned least *)
Before(d, u, v) == LET hu == Half(d, u)
                       hv == Half(d, v)
                   IN  IF hu # hv THEN hu < hv ELSE Cross(u, v) < 0
Wrapped(Q, cur, prev, d) == CHOOSE q \in Q \ {cur, prev} : \A p \in Q \ {cur, prev, q} : Before(d, Sub(q, cur), Sub(p, cur))

Pairs == {s \in Tuples(4) : TRUE}
Init ==
  \/ Kind = "segs" /\ job \in Tuples(4) /\ out = <<>>
  \/ Kind = "poly" /\ job \in {V \in Tuples(Size) : ~Flat(V) /\ ~Twice(V)} /\ out = <<>>
  \/ Kind = "hull" /\ \E Q \in {S \in SUBSET P : Cardinality(S) \in 3..Size /\ GeneralPosition(S)} :
                        job = [Q |-> Q, min |-> Leftmost(Q), cur |-> Leftmost(Q), prev |-> <<-1, -1>>, d |-> <<0, 1>>, done |-> FALSE] /\ out = <<>>
Wrap == /\ Kind = "hull" /\ ~job.done
        /\ LET n == Wrapped(job.Q, job.cur, job.prev, job.d)
           IN  /\ out' = Append(out, n)
               /\ job' = [job EXCEPT !.prev = job.cur, !.cur = n, !.d = Sub(n, job.cur), !.done = n = job.min]
Next == Wrap
Spec == Init /\ [][Next]_<<job, out>> /\ WF_<<job, out>>(Wrap)

SegmentsMeet == Kind = "segs" => (Meets(<<job[1], job[2]>>, <<job[3], job[4]>>) = Touch(job[1], job[2], job[3], job[4]))
PointsInside == Kind = "poly" => \A p \in P : ~OnBorder(job, p) => RayInside(job, p) = Inside(job, p)
CornersKept == Kind = "poly" => Corners(job, Drop(job, 1))
BorderSame == Kind = "poly" => LET V == Drop(job, 1) IN \A p \in P : OnBorder(job, p) = OnBorder(V, p)
Bounded == Kind = "hull" => Len(out) <= Cardinality(job.Q)
Hulls == Kind = "hull" /\ job.done => HullOf(job.Q, out)
Ends == Kind = "hull" => <>(job.done)
=============================================================================
