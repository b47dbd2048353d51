-------------------------------- MODULE Beam --------------------------------
(* Beam search: layer by layer, the best `width' nodes of the frontier are   *)
(* expanded in order and everything else is dropped.                         *)
(*   front   the frontier this layer is taken from; slots  how many are left *)
(*   fkey    the keys when the layer was taken; next  the next frontier      *)
EXTENDS Graphs
CONSTANT Problem(_)   \* [G, width, drop, limE, limG, limT]
VARIABLES pid, front, slots, fkey, next, g, par, cur, todo, cnt, status
vars == <<pid, front, slots, fkey, next, g, par, cur, todo, cnt, status>>
P == Problem(pid)
Gr == P.G
LimitReached == \/ P.limE > 0 /\ cnt.expd >= P.limE
                \/ P.limG > 0 /\ cnt.gend >= P.limG
                \/ P.limT > 0 /\ cnt.expd + cnt.gend >= P.limT
F(gv, n) == gv[n] + Gr.h[n]

InitProblem(p) ==
  LET G0 == Problem(p).G IN
  /\ pid = p /\ front = {} /\ slots = 0
  /\ fkey = [i \in Nodes(G0) |-> <<0, 0>>]
  /\ next = {G0.start}
  /\ g = [i \in Nodes(G0) |-> IF i = G0.start THEN 0 ELSE -1]
  /\ par = [i \in Nodes(G0) |-> 0]
  /\ cur = 0 /\ todo = {} /\ cnt = [expd |-> 0, gend |-> 0, dups |-> 0, reopn |-> 0]
  /\ status = "search"

Unfinished == cur # 0 /\ \E o \in todo : Dst(Gr, cur, o) # par[cur]

LayerOver == slots = 0 \/ front = {}
NextLayer == LayerOver /\ next # {}
DoNextLayer ==
  /\ front' = next /\ next' = {}
  /\ slots' = Min2(P.width, Cardinality(next))
  /\ fkey' = [i \in Nodes(Gr) |-> <<F(g, i), g[i]>>]
  /\ UNCHANGED <<pid, g, par, cur, todo, cnt, status>>

Before(a, b) == fkey[a][1] < fkey[b][1] \/ (fkey[a][1] = fkey[b][1] /\ fkey[a][2] > fkey[b][2])
BestF(n) == \A m \in front : fkey[n][1] <= fkey[m][1]

BadExpand(n) ==
  (IF Unfinished THEN {"gen-missing"} ELSE {}) \cup
  (IF n \notin front THEN {"expand-notopen"}
   ELSE IF ~BestF(n) THEN {"order"} ELSE {}) \cup
  (IF slots = 0 THEN {"beam-width"} ELSE {}) \cup
  (IF Goal(Gr, n) THEN {"expanded-goal"} ELSE {}) \cup
  (IF LimitReached THEN {"limit-overrun"} ELSE {})
DoExpand(n) ==
  /\ front' = front \ {n}
  /\ slots' = Max2(0, slots - 1)
  /\ cur' = n /\ todo' = OpsOf(Gr, n)
  /\ cnt' = [cnt EXCEPT !.expd = @ + 1]
  /\ UNCHANGED <<pid, fkey, next, g, par, status>>

BadGenerate(n, o) == (IF n # cur THEN {"gen-stray"} ELSE {}) \cup (IF o \notin todo THEN {"gen-dup"} ELSE {})
DoGenerate(n, o) ==
  LET k == Dst(Gr, n, o)
      c == g[n] + Cst(Gr, n, o)
      seen == g[k] # -1
      improves == ~seen \/ (~P.drop /\ c < g[k])
  IN /\ todo' = todo \ {o}
     /\ g' = IF improves THEN [g EXCEPT ![k] = c] ELSE g
     /\ par' = IF improves THEN [par EXCEPT ![k] = n] ELSE par
     /\ next' = IF improves THEN next \cup {k} ELSE next
     /\ cnt' = [cnt EXCEPT !.gend = @ + 1, !.dups = IF seen THEN @ + 1 ELSE @,
                           !.reopn = IF seen /\ improves /\ k \notin next THEN @ + 1 ELSE @]
     /\ UNCHANGED <<pid, front, slots, fkey, cur, status>>

BadStop(s) ==
  (IF Unfinished THEN {"gen-missing"} ELSE {}) \cup
  (IF s = 0 THEN IF ~LimitReached /\ ~(LayerOver /\ next = {}) THEN {"gave-up"} ELSE {}
   ELSE (IF ~Goal(Gr, s) THEN {"sol-notgoal"} ELSE {}) \cup
        (IF s \notin front THEN {"sol-notopen"} ELSE IF ~BestF(s) THEN {"sol-order"} ELSE {}) \cup
        (IF slots = 0 THEN {"beam-width"} ELSE {}))
DoStop == status' = "done" /\ UNCHANGED <<pid, front, slots, fkey, next, g, par, cur, todo, cnt>>

Next == /\ status = "search"
        /\ \/ \E n \in front : BadExpand(n) = {} /\ DoExpand(n)
           \/ \E o \in todo : DoGenerate(cur, o)
           \/ ~Unfinished /\ NextLayer /\ DoNextLayer
           \/ \E s \in front \cup {0} : BadStop(s) = {} /\ DoStop
-----------------------------------------------------------------------------
WidthOK == slots <= P.width
(* a beam as wide as the graph loses nothing *)
WideComplete == status = "done" /\ P.width >= Gr.n /\ ~P.drop /\ ~LimitReached /\ LayerOver /\ next = {}
                  => DistToGoal(Gr)[Gr.start] >= INF
BeamLimits == P.limE > 0 => cnt.expd <= P.limE
=============================================================================
