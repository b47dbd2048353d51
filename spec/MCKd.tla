-------------------------------- MODULE MCKd --------------------------------
(* The k-d tree's insertion and pruned search, over every sequence of small  *)
(* points: the search returns a nearest point.                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Max, Coord, Query
VARIABLES pts, kids     \* kids[n] = <<left, right>>
vars == <<pts, kids>>
P == Coord \X Coord
INF == 1000000
Sq(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])
RECURSIVE Place(_, _, _)      \* the node and side where p hangs below n
Place(n, d, p) == LET s == IF p[(d % 2) + 1] < pts[n][(d % 2) + 1] THEN 1 ELSE 2
                  IN IF kids[n][s] = 0 THEN <<n, s>> ELSE Place(kids[n][s], d+1, p)
Init == pts = <<>> /\ kids = <<>>
Insert(p) == /\ Len(pts) < Max /\ pts' = Append(pts, p)
             /\ IF pts = <<>> THEN kids' = <<<<0, 0>>>>
                ELSE LET w == Place(1, 0, p) IN kids' = Append([kids EXCEPT ![w[1]][w[2]] = Len(pts)+1], <<0, 0>>)
Next == \E p \in P : Insert(p)
Spec == Init /\ [][Next]_vars
RECURSIVE Search(_, _, _, _)   \* <<best node, squared range>>
Search(n, d, x, best) ==
  IF n = 0 THEN best
  ELSE LET df == x[(d % 2) + 1] - pts[n][(d % 2) + 1]
           s == IF df < 0 THEN 1 ELSE 2
           b1 == Search(kids[n][s], d+1, x, best)
           b2 == IF Sq(pts[n], x) <= b1[2] THEN <<n, Sq(pts[n], x)>> ELSE b1
       IN IF df*df > b1[2] THEN b1 ELSE Search(kids[n][3-s], d+1, x, b2)
Nearest(x) == Search(1, 0, x, <<0, INF>>)[1]
NearestRight == pts # <<>> => \A x \in Query \X Query : LET i == Nearest(x) IN i # 0 /\ \A j \in 1..Len(pts) : Sq(pts[i], x) <= Sq(pts[j], x)
=============================================================================
