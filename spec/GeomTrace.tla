----------------------------- MODULE GeomTrace -----------------------------
(* Calls of the geometric primitives, each judged by exact geometry.         *)
EXTENDS TraceIO, Geom
VARIABLES r, l, viol, done
R == Runs[r]
Ev == R.ev
Init == r \in 1..Len(Runs) /\ l = 1 /\ viol = {} /\ done = FALSE
None(p) == p = <<>>    \* no point: infinite
SegBad(e) == LET t == Touch(e.a, e.b, e.c, e.d) IN
  When(e.hits # t, "seg-hits") \cup When(None(e.p) = t, "seg-isect")
    \cup (IF None(e.p) THEN {} ELSE When(~(NearSeg(e.a, e.b, e.p) /\ NearSeg(e.c, e.d, e.p)), "seg-point"))
    \cup When(e.len2 # Dot(Sub(e.b, e.a), Sub(e.b, e.a)), "seg-length")
    \cup When(e.mid # <<e.a[1] + e.b[1], e.a[2] + e.b[2]>>, "seg-midpoint")
    \cup When(e.a # e.b /\ \E i \in 1..Len(e.along) : LET k == e.along[i][1]     \* k halves of the way
                                                        P == e.along[i][2] IN
                \E x \in 1..2 : Abs(2 * P[x] - K * (2 * e.a[x] + k * (e.b[x] - e.a[x]))) > 2, "seg-along")
    \cup When(e.box # Box(e.a, e.b), "seg-box")
LineBad(e) ==
  When(None(e.p) # Parallel(e.a, e.b, e.c, e.d), "line-parallel")
    \cup (IF None(e.p) THEN {} ELSE When(~(NearLine(e.a, e.b, e.p) /\ NearLine(e.c, e.d, e.p)), "line-point"))
    \cup When(e.on # (Turn(e.a, e.b, e.q) = 0), "line-contains")
    \cup LET t == IF e.a[1] < e.b[1] THEN Turn(e.a, e.b, e.q) ELSE Turn(e.b, e.a, e.q)
         IN  When(e.a[1] # e.b[1] /\ t # 0 /\ e.above # (t > 0), "line-above")
BoxBad(e) ==
  LET A == Box(e.a, e.b)
      B == Box(e.c, e.d)
  IN  When(e.A # A \/ e.B # B, "box-corners") \cup When(e.hits # BoxesMeet(A, B), "box-hits")
        \cup When(e.has # InBox(A, e.q), "box-contains") \cup When(e.mid # <<A[1] + A[3], A[2] + A[4]>>, "box-center")
        \cup When(e.all # BoxOf(<<e.a, e.b, e.c, e.d, e.q>>), "box-points")
        \cup When(e.moved # <<A[1] + e.d[1], A[2] + e.d[2], A[3] + e.d[1], A[4] + e.d[2]>>, "box-translate")
(* the end of an arc, twice the square of its distances from the centre       *)
AtEnd(A, t, P) == LET x == P[1] - K * A.c[1]
                      y == P[2] - K * A.c[2]
                      k == t % 8
                      axis == k % 2 = 0
                      ux == <<1, 1, 0, -1, -1, -1, 0, 1>>[k + 1]
                      uy == <<0, 1, 1, 1, 0, -1, -1, -1>>[k + 1]
                  IN  IF axis THEN Abs(x - ux * K * A.r) <= 1 /\ Abs(y - uy * K * A.r) <= 1
                      ELSE Sgn(x) = ux /\ Sgn(y) = uy /\ Abs(Abs(x) - Abs(y)) <= 1 /\ NearCircle(A, P)
ArcBad(e) ==
  LET A == e.arc IN
  When(e.n # ArcHits(A, e.a, e.b), "arc-isects") \cup When(e.hits # (ArcHits(A, e.a, e.b) > 0), "arc-hits")
    \cup When(\E i \in 1..Len(e.ps) : ~(NearSeg(e.a, e.b, e.ps[i]) /\ NearCircle(A, e.ps[i])), "arc-point")
    \cup When(\E i \in 1..Len(e.sweeps) : e.sweeps[i][2] # Sweeps(A, RankOf(e.sweeps[i][1])), "arc-sweeps")
    \cup When(~AtEnd(A, A.t0, e.start) \/ ~AtEnd(A, A.t0 + A.dt, e.end), "arc-ends")
    \cup When(e.box # <<A.c[1] - A.r, A.c[2] - A.r, A.c[1] + A.r, A.c[2] + A.r>>, "arc-box")
TurnsBy(k, v) == CASE k % 4 = 0 -> v [] k % 4 = 1 -> <<-v[2], v[1]>> [] k % 4 = 2 -> <<-v[1], -v[2]>> [] OTHER -> <<v[2], -v[1]>>
(* turning an arc about its start by k quarters, then moving it by d          *)
ArcMovedBad(e) ==
  LET k == (e.old.t0 % 8) \div 2
      s == TurnsBy(k, <<e.old.r, 0>>)      \* the start, seen from the centre
      c == <<e.old.c[1] + s[1] + TurnsBy(e.q, <<-s[1], -s[2]>>)[1] + e.by[1],
             e.old.c[2] + s[2] + TurnsBy(e.q, <<-s[1], -s[2]>>)[2] + e.by[2]>>
  IN  When(e.arc.c # c \/ e.arc.t0 # e.old.t0 + 2 * e.q \/ e.arc.r # e.old.r \/ e.arc.dt # e.old.dt, "arc-moved")
PolyBad(e) ==
  LET P == e.p
      n == Len(P)
      T == Touched(P, e.a, e.b)
      order == [k \in 1..Cardinality(T) |-> CHOOSE i \in T : Cardinality({j \in T : j < i}) = k - 1]
      den(f) == f[2]
  IN  When(~Corners(e.given, e.first), "poly-corners")
        \cup When(n # Len(e.first) \/ \E i \in 1..Min2(n, Len(e.first)) : \E x \in 1..2 : P[i][x] # e.first[i][x] * e.scale[x] + e.by[x], "poly-moved")
        \cup When(e.box # BoxOf(P), "poly-box")
        \cup When(e.sides # [i \in 1..n |-> <<P[i], Nx(P, i)>>], "poly-sides")
        \cup When(\E i \in 1..Len(e.has) : ~OnBorder(P, e.has[i][1]) /\ e.has[i][2] # Inside(P, e.has[i][1]), "poly-contains")
        \cup When(e.hits # (T # {}), "poly-hits")
        \cup When(e.archits # (\E i \in 1..n : ArcHits(e.arc, P[i], Nx(P, i)) > 0), "poly-hits-arc")
        \cup (IF Len(e.isects) # Cardinality(T) THEN {"poly-isects"}
              ELSE When(\E k \in 1..Len(order) : ~(NearSeg(e.a, e.b, e.isects[k]) /\ NearSeg(P[order[k]], Nx(P, order[k]), e.isects[k])), "poly-isects"))
        \cup (IF None(e.min) THEN When(T # {}, "poly-first")
              ELSE IF ~NearSeg(e.a, e.b, e.min) \/ ~\E i \in 1..n : NearSeg(P[i], Nx(P, i), e.min) THEN {"poly-first"}
              ELSE When(\E i \in T : ~Parallel(e.a, e.b, P[i], Nx(P, i)) /\
                          LET v == Sub(e.b, e.a)
                              f == Frac(e.a, e.b, P[i], Nx(P, i))
                          IN  Dot(<<e.min[1] - K * e.a[1], e.min[2] - K * e.a[2]>>, v) * f[2] > K * f[1] * Dot(v, v) + (Abs(v[1]) + Abs(v[2])) * f[2], "poly-first"))
        \cup When(\E i \in 1..n : ~Spike(P, i) /\ e.reflex[i] # (Turn(Pv(P, i), P[i], Nx(P, i)) < 0), "poly-reflex")
        \cup When(e.back # P, "poly-file")
HullBad(e) == LET Q == {e.pts[i] : i \in 1..Len(e.pts)} IN
  When(GeneralPosition(Q) /\ ~HullOf(Q, e.hull), "hull")
(* corners drawn at random, in thousandths: sides that cross do so plainly     *)
Plain(x, y) == (x > 8000 /\ y < -8000) \/ (x < -8000 /\ y > 8000)
RandomBad(e) == LET P == e.p IN
  When(Len(P) # e.n, "poly-random-size") \cup When(\E i \in 1..Len(P) : Abs(P[i][1]) > K \/ Abs(P[i][2]) > K, "poly-random-range")
    \cup When(\E i, j \in 1..Len(P) : i < j /\ Plain(Turn(P[i], Nx(P, i), P[j]), Turn(P[i], Nx(P, i), Nx(P, j)))
                                      /\ Plain(Turn(P[j], Nx(P, j), P[i]), Turn(P[j], Nx(P, j), Nx(P, i))), "poly-random-crossed")
Bad(e) == CASE e.o = "seg" -> SegBad(e) [] e.o = "line" -> LineBad(e) [] e.o = "box" -> BoxBad(e) [] e.o = "arc" -> ArcBad(e)
            [] e.o = "arcmove" -> ArcMovedBad(e) [] e.o = "poly" -> PolyBad(e) [] e.o = "hull" -> HullBad(e) [] e.o = "random" -> RandomBad(e)
Step == l <= Len(Ev) /\ l' = l + 1 /\ viol' = viol \cup Bad(Ev[l]) /\ UNCHANGED <<r, done>>
Finish == ~done /\ l > Len(Ev) /\ done' = TRUE /\ Verdict(R.id, viol) /\ UNCHANGED <<r, l, viol>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<r, l, viol, done>>
=============================================================================
