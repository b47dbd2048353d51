------------------------------ MODULE DomTrace -----------------------------
(* Recorded explorations of the bundled domains, against their rules.        *)
(* proj[i] is what state i looks like; states 1..ex were expanded; ev[i] has *)
(* one entry per operator of state i:                                        *)
(*   <<result, cost, where its declared inverse leads (0: none declared, -1: *)
(*     not on offer), declared cost of the inverse, its cost when applied,   *)
(*     the result after nested moves were undone, the state after this move  *)
(*     was undone>>.                                                         *)
EXTENDS TraceIO, Surd, FiniteSets, SequencesExt, Tiles, Pancake, Grid, Vacuum, Dock, Traffic, Vis, Segs, Plat
VARIABLES r, done
R == Runs[r]
I == R.inst
Init == r \in 1..Len(Runs) /\ done = FALSE

(* the moves that must be there, and those that may *)
MustOf(s) == CASE I.dom = "tiles" -> TilesSucc(I, s) [] I.dom = "pancake" -> PancakeSucc(I, s) [] I.dom = "grid" -> GridSucc(I, s)
               [] I.dom = "vacuum" -> VacuumSucc(I, s) [] I.dom = "dock" -> DockSucc(I, s) [] I.dom = "traffic" -> TrafficSucc(I, s)
               [] I.dom = "vis" -> VisMust(I, s) [] I.dom = "segs" -> SegMust(I, s) [] I.dom = "plat" -> PlatMust(I, s)
MayOf(s) == CASE I.dom = "vis" -> VisMay(I, s) [] I.dom = "segs" -> SegMay(I, s) [] I.dom = "plat" -> PlatMay(I, s) [] OTHER -> MustOf(s)
SameCost(got, want) == CASE I.dom = "vis" -> VisCost(got, want) [] I.dom = "segs" -> SegCost(got, want) [] OTHER -> got = want
GoalAt(s) == CASE I.dom = "tiles" -> TilesGoal(I, s) [] I.dom = "pancake" -> PancakeGoal(I, s) [] I.dom = "grid" -> GridGoal(I, s)
               [] I.dom = "vacuum" -> VacuumGoal(I, s) [] I.dom = "dock" -> DockGoal(I, s) [] I.dom = "traffic" -> TrafficGoal(I, s)
               [] I.dom = "vis" -> VisGoal(I, s) [] I.dom = "segs" -> SegGoal(I, s) [] I.dom = "plat" -> PlatGoal(I, s)
ValidState(s) == CASE I.dom = "tiles" -> TilesState(I, s) [] I.dom = "pancake" -> PancakeState(I, s) [] I.dom = "grid" -> GridState(I, s)
               [] I.dom = "vacuum" -> VacuumState(I, s) [] I.dom = "dock" -> DockState(I, s) [] I.dom = "traffic" -> TrafficState(I, s)
               [] I.dom = "vis" -> VisState(I, s) [] I.dom = "segs" -> SegState(I, s) [] I.dom = "plat" -> PlatState(I, s)
(* what of a state the rules speak about *)
Seen(s) == CASE I.dom = "segs" -> SegSeen(I, s) [] I.dom = "plat" -> PlatSeen(s) [] OTHER -> s
(* rounding decides where moves from s lead, possibly to t *)
Loose(s, t) == I.dom = "plat" /\ PlatLoose(I, s, t)
(* a move and its inverse lead from s to t *)
Back(s, t) == CASE I.dom = "segs" -> SegBack(I, s, t) [] I.dom = "plat" -> PlatSeen(s) = PlatSeen(t) [] OTHER -> s = t
Starts(s) == CASE I.dom = "vacuum" -> s = VacuumInit(I) [] I.dom = "segs" -> SegState(I, s) /\ SegStart(I, s) [] I.dom = "plat" -> PlatStart(I, s) [] OTHER -> s = I.start
(* what rounding may make of estimates that are sums of recorded costs *)
Slack == IF I.dom \in {"vis", "segs"} THEN <<100, 0>> ELSE Zero
BadMap == CASE I.dom = "vis" -> BadProbes(I) \/ BadBox(I) [] OTHER -> FALSE
(* a move that starts the problem over, which estimates do not count on *)
Restart(s) == I.dom = "traffic" /\ Len(s) = 3 /\ s[3] = 0
Restarts(i, t) == Restart(R.proj[t[1]])

Ids == 1..R.n
Exp == 1..R.ex
TS(i) == {R.ev[i][k] : k \in 1..Len(R.ev[i])}

(* VS: the states that are possible at all; GS: the goals among them *)
BadMoves(VS) == UNION {LET must == TLCEval(MustOf(R.proj[i]))
                       got == TLCEval({<<Seen(R.proj[t[1]]), t[2]>> : t \in {t \in TS(i) : t[1] \in VS}})
                       loose == {<<x[1], <<1, 0>>>> : x \in {x \in got : Loose(R.proj[i], x[1])}}
                       may == TLCEval(MayOf(R.proj[i]) \cup loose)
                       costs(d) == {x[2] : x \in {x \in may : x[1] = d}}
                       seen(d) == {x[2] : x \in {x \in got : x[1] = d}}
                   IN When(\E t \in TS(i) : t[1] \notin VS, "move-illegal") \cup
                      When({x[1] : x \in must} \ {x[1] : x \in got} # {}, "move-missing") \cup
                      When({x[1] : x \in got} \ {x[1] : x \in may} # {}, "move-illegal") \cup
                      When(\E d \in {x[1] : x \in got} \cap {x[1] : x \in may} :
                             (\E g \in seen(d) : ~\E w \in costs(d) : SameCost(g, w)) \/
                             (\E w \in costs(d) : <<d, w>> \in must /\ ~\E g \in seen(d) : SameCost(g, w)), "move-cost") : i \in Exp \cap VS}
BadGoals(VS, GS) == UNION {When({R.goal[i][k] : k \in 1..Len(R.goal[i])} \ {IF i \in GS THEN 1 ELSE 0} # {}, "goal-test") : i \in VS}
BadUndo == UNION {UNION {When(t[7] # i, "undo") \cup When(t[6] # t[1], "undo-nested") \cup
                         When(t[3] > 0 /\ ~Back(R.proj[i], R.proj[t[3]]), "reverse-elsewhere") \cup
                         When(t[3] > 0 /\ t[4] # t[5], "reverse-cost") : t \in TS(i)} : i \in Exp}
BadPack == UNION {When(R.unp[i][1] # i \/ R.unp[i][2] # i, "unpack") \cup When(R.unp[i][3] # i \/ R.unp[i][4] = 0, "packed-altered") : i \in Exp}
(* packed forms are equal exactly when they stand for the same state *)
Occ == {R.occ[k] : k \in 1..Len(R.occ)}
BadHash == When(~R.sym, "pack-asymmetric") \cup
           When(Cardinality({o[2] : o \in Occ}) # Cardinality({<<o[1], o[2]>> : o \in Occ}), "pack-confuses") \cup
           When(Cardinality({o[1] : o \in Occ}) # Cardinality({<<o[1], o[2]>> : o \in Occ}), "pack-splits") \cup
           When(Cardinality({o[2] : o \in Occ}) # Cardinality({<<o[2], o[3]>> : o \in Occ}), "hash-differs")

(* estimates depend on the state alone *)
BadSame == UNION {When(Len(R.h[i]) > 1, "h-route") \cup When(Len(R.d[i]) > 1, "d-route") : i \in Ids}
HSet(i) == {R.h[i][k] : k \in 1..Len(R.h[i])}
BadZero(GS) == UNION {When(i \in GS /\ \E h \in HSet(i) : h # Zero, "h-goal") \cup
                  When(\E h \in HSet(i) : ~Leq(Zero, h), "h-negative") : i \in Ids}

(* the least cost of a way to a goal among the explored states, an upper     *)
(* bound of the true one *)
None == <<30000, 30000>>
LesserOf(p, q) == IF Leq(p, q) THEN p ELSE q
RECURSIVE Fix(_)
Fix(D) == LET E == TLCEval([i \in Ids |-> IF i > R.ex THEN D[i] ELSE
                      FoldLeft(LAMBDA acc, t : IF D[t[1]] = None \/ Restarts(i, t) THEN acc
                                               ELSE LET c == Add(t[2], D[t[1]]) IN IF acc = None THEN c ELSE LesserOf(acc, c), D[i], R.ev[i])])
          IN  IF E = D THEN D ELSE Fix(E)
Small(x) == x[1] < 1000000 /\ x[1] > -1000000
BadH(GS) == LET D == Fix(TLCEval([i \in Ids |-> IF i \in GS THEN Zero ELSE None]))
        IN UNION {When(D[i] # None /\ \E h \in HSet(i) : ~Leq(h, Add(D[i], Slack)), "h-overestimates") : i \in Ids}

(* longer ways to a goal: their steps are legal, so their costs are upper    *)
(* bounds along them *)
RECURSIVE AlongFrom(_, _, _)
AlongFrom(P, k, rest) ==
  When(\E j \in 1..Len(P.h[k]) : ~Leq(P.h[k][j], Add(rest, Slack)), "h-overestimates") \cup
  IF k = 1 \/ Restart(P.p[k]) THEN {}
  ELSE IF ~\E w \in MayOf(P.p[k-1]) \cup (IF Loose(P.p[k-1], P.p[k]) THEN {<<Seen(P.p[k]), <<1, 0>>>>} ELSE {}) :
             w[1] = Seen(P.p[k]) /\ SameCost(P.c[k-1], w[2]) THEN {"move-illegal"}
  ELSE AlongFrom(P, k - 1, Add(rest, P.c[k-1]))
BadPaths == UNION {LET P == R.paths[k] IN
                   IF \A j \in 1..Len(P.p) : ValidState(P.p[j])
                   THEN IF GoalAt(P.p[Len(P.p)]) THEN AlongFrom(P, Len(P.p), Zero) ELSE {"goal-test"}
                   ELSE {"state-invalid"} : k \in 1..Len(R.paths)}

Numbers == \A i \in Exp : \A t \in TS(i) : Small(t[2]) /\ Small(t[4]) /\ Small(t[5])
HNumbers == \A i \in Ids : \A h \in HSet(i) : Small(h)

Reasons ==
  LET VS == TLCEval({i \in Ids : ValidState(R.proj[i])})
      GS == TLCEval({i \in VS : GoalAt(R.proj[i])})
  IN  When(VS # Ids, "state-invalid") \cup When(~Starts(R.proj[1]), "start") \cup When(BadMap, "map") \cup
      When(~Numbers, "move-cost") \cup When(~HNumbers, "h-overestimates") \cup
      BadMoves(VS) \cup BadGoals(VS, GS) \cup BadUndo \cup BadPack \cup BadHash \cup BadSame \cup BadZero(GS) \cup
      (IF Numbers /\ HNumbers THEN BadH(GS) \cup BadPaths ELSE {})
Finish == /\ ~done /\ done' = TRUE /\ Verdict(R.id, Reasons) /\ UNCHANGED r
Spec == Init /\ [][Finish]_<<r, done>>
=============================================================================
