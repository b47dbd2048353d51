------------------------------- MODULE KdTrace ------------------------------
(* A set of points that answers nearest-neighbour queries, and recorded      *)
(* histories of the k-d tree against it.  Coordinates are integers, so       *)
(* squared distances are exact.                                              *)
EXTENDS TraceIO, FiniteSets
VARIABLES r, l, viol, pts, done
R == Runs[r]
Ev == R.ev
Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ viol = {} /\ pts = <<>> /\ done = FALSE
RECURSIVE SqTo(_, _, _)
SqTo(p, x, k) == IF k = 0 THEN 0 ELSE (p[k] - x[k]) * (p[k] - x[k]) + SqTo(p, x, k-1)
Sq(p, x) == SqTo(p, x, R.dim)
BadNearest(x, i, p) ==
  IF i = 0 THEN When(Len(pts) > 0, "kd-none")
  ELSE IF i \notin 1..Len(pts) THEN {"kd-ghost"}
  ELSE When(p # pts[i], "kd-data") \cup When(\E j \in 1..Len(pts) : Sq(pts[j], x) < Sq(pts[i], x), "kd-notnearest")
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n-1)
BadSize(sz, dep) ==
  When(sz # Len(pts), "kd-size") \cup
  When(dep > Len(pts) \/ (dep < 20 /\ Pow2(dep) - 1 < Len(pts)), "kd-depth")
Step ==
  /\ l <= Len(Ev) /\ l' = l + 1
  /\ LET e == Ev[l] IN
     CASE e.o = 1 -> pts' = Append(pts, e.p) /\ UNCHANGED viol
       [] e.o = 2 -> UNCHANGED pts /\ viol' = viol \cup BadNearest(e.p, e.r, e.es)
       [] e.o = 3 -> UNCHANGED pts /\ viol' = viol \cup BadSize(e.p[1], e.p[2])
       [] e.o = 4 -> UNCHANGED pts /\ viol' = viol \cup
                       When({e.es[i] : i \in 1..Len(e.es)} # 1..Len(pts) \/ Len(e.es) # Len(pts), "kd-iter")
  /\ UNCHANGED <<r, done>>
Finish == /\ ~done /\ l > Len(Ev) /\ done' = TRUE
          /\ Verdict(R.id, viol)
          /\ UNCHANGED <<r, l, viol, pts>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<r, l, viol, pts, done>>
=============================================================================
