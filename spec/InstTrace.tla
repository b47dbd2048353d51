----------------------------- MODULE InstTrace ------------------------------
(* Judges what the instance generators and the converters of maps wrote      *)
(* against what they were asked for.  The recorded runs hold the numbers of  *)
(* the text; maps of cells are read with the repository's reader.            *)
EXTENDS TraceIO, Geom, FiniteSets
T == INSTANCE Tiles
F == INSTANCE Traffic
D == INSTANCE Grid
VARIABLES pid, done
R == Runs[pid]
Set(s) == {s[i] : i \in 1..Len(s)}

(* ---- sliding tiles: a puzzle of the size asked for, with all its tiles in *)
(* order as the goal, that can be solved                                     *)
TilesBad(r) ==
  LET n == r.w * r.tall
      inst == [w |-> r.w, tall |-> r.tall, goalpos |-> r.goalpos]
  IN  IF \/ r.size # <<r.w, r.tall>> \/ Len(r.pos) # n \/ Set(r.pos) # 0..(n-1) \/ r.goalpos # [i \in 1..n |-> i - 1] THEN {"gen-asked"}
      ELSE LET s == [p \in 1..n |-> (CHOOSE t \in 1..n : r.pos[t] = p - 1) - 1]
           IN  When(~T!TilesSolvable(inst, s), "gen-unsolvable")

(* ---- traffic: obstacles on the map, and a way across; only the time       *)
(* within the common period of the obstacles matters                         *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Period(r) == LET a == 2 * (r.w - 1)  b == 2 * (r.tall - 1) IN (a * b) \div Gcd(a, b)
RECURSIVE Across(_, _, _)
Across(r, seen, new) ==
  IF \E s \in new : <<s[1], s[2]>> = r.fin THEN TRUE
  ELSE IF new = {} THEN FALSE
  ELSE LET far == TLCEval({<<t[1][1], t[1][2], t[1][3] % Period(r)>> : t \in UNION {F!TrafficSucc(r, s) : s \in new}} \ seen)
       IN  Across(r, seen \cup far, far)
TrafficBad(r) ==
  IF \/ r.size # <<r.w, r.tall>> \/ Len(r.obs) # r.n \/ r.start # <<0, 0>> \/ r.fin # <<r.w - 1, r.tall - 1>>
     \/ \E o \in Set(r.obs) : o[1] \notin 0..(r.w-1) \/ o[2] \notin 0..(r.tall-1) \/ o[3] \notin -1..1 \/ o[4] \notin -1..1
  THEN {"gen-asked"}
  ELSE When(~Across(r, {<<0, 0, 0>>}, {<<0, 0, 0>>}), "gen-unsolvable")

(* ---- grids: the map asked for, two free cells on it, and, where solving   *)
(* is part of the bargain, a way between them                                *)
FreeCell(r, c) == c[1] \in 1..r.w /\ c[2] \in 1..r.tall /\ r.cell[c[2]][c[1]] = 1
RECURSIVE Reach(_, _, _)
Reach(r, seen, new) ==
  IF new = {} THEN seen
  ELSE LET far == TLCEval({<<c[1] + d[1], c[2] + d[2]>> : c \in new, d \in D!GridDirs(r)})
           ok == TLCEval({c \in far \ seen : FreeCell(r, c)})
       IN  Reach(r, seen \cup ok, ok)
GridBad(r) ==
  IF <<r.w, r.tall, r.mode>> # r.asked \/ (r.map # <<>> /\ r.cell # r.map) THEN {"gen-asked"}
  ELSE IF ~FreeCell(r, r.start) \/ ~FreeCell(r, r.fin) THEN {"gen-blocked"}
  ELSE When(r.solved /\ r.fin \notin Reach(r, {r.start}, {r.start}), "gen-unsolvable")

(* ---- polygons in the unit square, apart from each other, and two points   *)
(* outside of them; coordinates are in ten thousandths                       *)
PolyBox(P) == BoxOf(P)
Nudged(p) == {p} \cup {<<p[1] + 4, p[2]>>, <<p[1] - 4, p[2]>>, <<p[1], p[2] + 4>>, <<p[1], p[2] - 4>>}
VisBad(r) ==
  When(r.bound # 0 \/ Len(r.polys) # r.n \/ \E P \in Set(r.polys) : Len(P) > r.nv \/ Len(P) < 3, "gen-asked") \cup
  When(\E P \in Set(r.polys) : LET B == PolyBox(P) IN B[1] < -1 \/ B[2] < -1 \/ B[3] > 10001 \/ B[4] > 10001, "gen-outside") \cup
  When(\E i, j \in 1..Len(r.polys) : i < j /\ LET A == PolyBox(r.polys[i])  B == PolyBox(r.polys[j])
                                             IN  Max2(A[1], B[1]) + 4 < Min2(A[3], B[3]) /\ Max2(A[2], B[2]) + 4 < Min2(A[4], B[4]), "gen-overlap") \cup
  When(\E p \in Set(r.pts) : ~InBox(<<0, 0, 10000, 10000>>, p), "gen-outside") \cup
  When(\E p \in Set(r.pts) : \E P \in Set(r.polys) : \A q \in Nudged(p) : Inside(P, q), "gen-blocked") \cup
  When(r.again # r.polys, "conv-map")

(* ---- segments: poses on the plane that do not meet, both at the start and *)
(* at the goals; lengths in thousandths                                      *)
Bar(r, s, x, y, rot, less) ==
  LET v == r.dirs[rot + 1]
      c == <<((s[1] - less) * v[1]) \div 10000, ((s[1] - less) * v[2]) \div 10000>>
  IN  <<<<1000 * x + c[1], 1000 * y + c[2]>>, <<1000 * x - c[1], 1000 * y - c[2]>>>>
StartBar(r, s, less) == Bar(r, s, s[2], s[3], s[4], less)
GoalBar(r, s, less) == Bar(r, s, s[5], s[6], s[7], less)
OffPlane(r, b) == \E p \in Set(b) : p[1] < -2 \/ p[2] < -2 \/ p[1] > 1000 * r.w + 2 \/ p[2] > 1000 * r.tall + 2
SegsBad(r) ==
  IF \/ r.head # <<r.w, r.tall, r.angles, r.n>> \/ Len(r.segs) # r.n
     \/ \E s \in Set(r.segs) : s[1] < r.rad[1] - 1 \/ s[1] > r.rad[2] + 1 \/ s[4] \notin 0..(r.angles-1) \/ s[7] \notin 0..(r.angles-1)
  THEN {"gen-asked"}
  ELSE When(\E s \in Set(r.segs) : OffPlane(r, StartBar(r, s, 0)) \/ OffPlane(r, GoalBar(r, s, 0)), "gen-outside") \cup
       When(\E i, j \in 1..r.n : i < j /\ LET a == StartBar(r, r.segs[i], 4)  b == StartBar(r, r.segs[j], 4)
                                          IN  Crosses(a[1], a[2], b[1], b[2]), "gen-overlap") \cup
       When(\E i, j \in 1..r.n : i < j /\ LET a == GoalBar(r, r.segs[i], 4)  b == GoalBar(r, r.segs[j], 4)
                                          IN  Crosses(a[1], a[2], b[1], b[2]), "gen-overlap")

(* ---- cells to polygons: no blocked cell is free, and where all the free   *)
(* cells form one region, each of them is; coordinates are in halves         *)
Four(r) == [w |-> r.w, tall |-> r.tall, mode |-> 4, cell |-> r.cell]
FreeCells(r) == {c \in (1..r.w) \X (1..r.tall) : r.cell[c[2]][c[1]] = 1}
Centre(c) == <<2 * c[1] - 1, 2 * c[2] - 1>>
Open(r, c) == Len(r.bound) > 0 /\ Inside(r.bound, Centre(c)) /\ \A P \in Set(r.polys) : ~Inside(P, Centre(c))
CellsBad(r) ==
  LET free == FreeCells(r)
      opened == {c \in (1..r.w) \X (1..r.tall) : Open(r, c)}
  IN  When(opened \ free # {}, "conv-through") \cup
      When(opened # free /\ \E c \in free : Reach(Four(r), {c}, {c}) = free, "conv-closed")

(* ---- pictures to maps: white is free                                      *)
PpmBad(r) ==
  When(r.size # <<r.w, r.tall>> \/ Len(r.cell) # r.tall \/ \E y \in 1..Len(r.cell) : Len(r.cell[y]) # r.w, "conv-size") \cup
  When(\E y \in 1..r.tall, x \in 1..r.w : y <= Len(r.cell) /\ x <= Len(r.cell[y])
          /\ (r.cell[y][x] = 1) # (r.px[y][x] = <<r.white, r.white, r.white>>), "conv-map")

(* ---- sets of scenarios on octile maps: each entry is run and solved at    *)
(* its cost, which the file gives; a cost that is wrong is refused.  Costs   *)
(* are in thousandths; entries without a way cost 0 in the file, -1 in rows  *)
OctCost(t) == IF t[2][1] # 0 THEN t[2][1] * 1000000 ELSE 1414214
RECURSIVE Dist(_, _, _, _)
Dist(I, b, dist, new) ==
  IF new = {} THEN IF b \in DOMAIN dist THEN (dist[b] + 500) \div 1000 ELSE -1000
  ELSE LET c == CHOOSE c \in new : \A e \in new : dist[c] <= dist[e]
           kids == TLCEval({t \in D!GridSucc(I, c) : t[1] \notin DOMAIN dist \/ dist[c] + OctCost(t) < dist[t[1]]})
           near == TLCEval([k \in DOMAIN dist \cup {t[1] : t \in kids} |->
                              IF \E t \in kids : t[1] = k THEN LET t == CHOOSE t \in kids : t[1] = k IN dist[c] + OctCost(t) ELSE dist[k]])
       IN  Dist(I, b, near, TLCEval((new \ {c}) \cup {t[1] : t \in kids}))
EntryCost(r, e) == Dist(r.maps[e.m], e.fin, (e.start :> 0), {e.start})
Near(a, b, by) == a - b <= by /\ b - a <= by
Wrong(r, e) == LET d == EntryCost(r, e) IN ~Near(e.milli, IF d < 0 THEN 0 ELSE d, 15)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
ScenBad(r) ==
  LET mine == SelectSeq([k \in 1..Len(r.entries) |-> k], LAMBDA k : r.only < 0 \/ k = r.only + 1)
  IN  IF \E i \in 1..Len(mine) : Wrong(r, r.entries[mine[i]]) THEN When(r.ok, "scen-accepts")
      ELSE IF ~r.ok THEN {"scen-refuses"}
      ELSE IF Len(r.rows) # Len(mine) THEN {"scen-rows"}
      ELSE When(\E i \in 1..Len(mine) : LET e == r.entries[mine[i]]  x == r.rows[i]
                                        IN  <<x.num, x.bucket, x.dims, x.start, x.fin>> # <<mine[i] - 1, e.bucket, <<r.maps[e.m].w, r.maps[e.m].tall>>, e.start, e.fin>>
                                            \/ ~Near(x.opt, e.milli, 2), "scen-rows") \cup
           When(\E i \in 1..Len(mine) : LET e == r.entries[mine[i]]  x == r.rows[i]  c == EntryCost(r, e)
                                        IN  ~Near(x.cost, c, 2) \/ (c < 0) # (x.len = 0) \/ (c = 0) # (x.len = 1), "scen-cost") \cup
           When(r.total # <<Sum([i \in 1..Len(r.rows) |-> r.rows[i].expd]), Sum([i \in 1..Len(r.rows) |-> r.rows[i].gend]), Len(r.entries)>>, "scen-totals")

(* ---- entries filed one by one in a database of results                    *)
Scen2Bad(r) ==
  When(Len(r.files) # Len(r.entries) \/ r.distinct # Len(r.files) \/ r.there # r.distinct, "scen-files") \cup
  When(\E i \in 1..Len(r.files) : i <= Len(r.entries) /\ LET e == r.entries[i]  x == r.files[i]
                                                         IN  <<x.num, x.m, x.opt, x.start, x.fin>> # <<i - 1, e.m, e.opt, e.start, e.fin>>, "scen-files")

(* ---- the weight whose runs have the least average of cost and time        *)
OfWeight(r, w) == SelectSeq(r.runs, LAMBDA x : x[1] = w)
Spent(r, w) == LET s == OfWeight(r, w) IN Sum([i \in 1..Len(s) |-> r.wf * s[i][2] + r.wt * s[i][3]])
BestwtBad(r) ==
  LET ws == {x[1] : x \in Set(r.runs)}
      N(w) == Len(OfWeight(r, w))
  IN  When(r.best \notin ws \/ \E w \in ws : Spent(r, w) * N(r.best) < Spent(r, r.best) * N(w), "best-weight")

Bad(r) == IF r.broken # "" THEN {"gen-broken"}
          ELSE CASE r.kind = "tiles" -> TilesBad(r)
                 [] r.kind = "traffic" -> TrafficBad(r)
                 [] r.kind \in {"grid", "seed"} -> GridBad(r)
                 [] r.kind = "vis" -> VisBad(r)
                 [] r.kind = "segs" -> SegsBad(r)
                 [] r.kind \in {"grid2poly", "pbm2poly", "plat2poly"} -> CellsBad(r)
                 [] r.kind = "ppm2grid" -> PpmBad(r)
                 [] r.kind = "bestwt" -> BestwtBad(r)
                 [] r.kind = "scen" -> ScenBad(r)
                 [] r.kind = "scen2rdb" -> Scen2Bad(r)
Init == pid \in 1..Len(Runs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED pid /\ Verdict(R.id, Bad(R))
Spec == Init /\ [][Next]_<<pid, done>>
=============================================================================
