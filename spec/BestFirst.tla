----------------------------- MODULE BestFirst ------------------------------
(* Best-first graph search as the repository performs it: A* (and the A*     *)
(* that dumps its path), weighted A*, greedy search on h and speedy search   *)
(* on d.  One action per critical step of the code:                          *)
(*   Expand    remove a best node from the open list and ask the domain for  *)
(*             its operators                                                 *)
(*   Generate  apply one operator and merge the successor into the closed    *)
(*             and open lists (the code's considerkid)                       *)
(*   Stop      return a solution (a best open node is a goal), report        *)
(*             failure (nothing is open) or give up (a limit was reached)    *)
(*                                                                           *)
(* Each action is given by the set of reasons why it may not be taken in the *)
(* current state (Bad...) and by its effect (Do...).  The design is the      *)
(* system that only takes steps without such a reason; the trace             *)
(* specification replays the implementation's steps and collects the         *)
(* reasons.                                                                  *)
EXTENDS Graphs

CONSTANT Problem(_)   \* Problem(pid): [G, alg, w2, drop, limE, limG, limT]
VARIABLES pid, open, g, hv, par, cur, todo, cnt, sol, status
vars == <<pid, open, g, hv, par, cur, todo, cnt, sol, status>>

P == Problem(pid)
Gr == P.G

(* The evaluation function, doubled so that the weights n/2 are integers.    *)
(* Bugsy's utility is the f of a path-maxed h (hv) until its first estimate  *)
(* of the time per expansion; after that it is any order ("any").            *)
KeyOf(n) == CASE P.alg = "astar"  -> 2 * (g[n] + Gr.h[n])
              [] P.alg = "wastar" -> 2 * g[n] + P.w2 * Gr.h[n]
              [] P.alg = "greedy" -> Gr.h[n]
              [] P.alg = "speedy" -> Gr.d[n]
              [] P.alg = "bugsy"  -> P.w2 * (g[n] + hv[n])
              [] P.alg = "any"    -> 0
MinKey == LET m == CHOOSE x \in open : \A y \in open : KeyOf(x) <= KeyOf(y) IN KeyOf(m)
Best(n) == \A y \in open : KeyOf(n) <= KeyOf(y)

(* time is measured in calls of the domain: expansions and generations     *)
LimitReached == \/ P.limE > 0 /\ cnt.expd >= P.limE
                \/ P.limG > 0 /\ cnt.gend >= P.limG
                \/ P.limT > 0 /\ cnt.expd + cnt.gend >= P.limT

Zero == [expd |-> 0, gend |-> 0, dups |-> 0, reopn |-> 0]

InitProblem(p) ==
  /\ pid = p
  /\ open = {Problem(p).G.start}
  /\ g = [i \in Nodes(Problem(p).G) |-> IF i = Problem(p).G.start THEN 0 ELSE -1]
  /\ hv = Problem(p).G.h
  /\ par = [i \in Nodes(Problem(p).G) |-> 0]
  /\ cur = 0 /\ todo = {}
  /\ cnt = Zero /\ sol = 0 /\ status = "search"

(* Operators of the node under expansion that were not applied: only those   *)
(* leading straight back to its parent may be skipped.                       *)
Unfinished == cur # 0 /\ \E o \in todo : Dst(Gr, cur, o) # par[cur]

BadExpand(n) ==
  (IF Unfinished THEN {"gen-missing"} ELSE {}) \cup
  (IF n \notin open THEN {"expand-notopen"} ELSE
     (IF ~Best(n) THEN {"order"} ELSE {}) \cup
     (IF Goal(Gr, n) THEN {"expanded-goal"} ELSE {})) \cup
  (IF LimitReached THEN {"limit-overrun"} ELSE {})

DoExpand(n) ==
  /\ open' = open \ {n}
  /\ cur' = n
  /\ todo' = OpsOf(Gr, n)
  /\ cnt' = [cnt EXCEPT !.expd = @ + 1]
  /\ UNCHANGED <<pid, g, hv, par, sol, status>>

BadGenerate(n, o) ==
  (IF n # cur THEN {"gen-stray"} ELSE {}) \cup
  (IF o \notin todo THEN {"gen-dup"} ELSE {})

DoGenerate(n, o) ==
  LET k == Dst(Gr, n, o)
      c == g[n] + Cst(Gr, n, o)
      seen == g[k] # -1
      improves == ~seen \/ (~P.drop /\ c < g[k])
  IN /\ todo' = todo \ {o}
     /\ g' = IF improves THEN [g EXCEPT ![k] = c] ELSE g
     /\ hv' = IF ~seen /\ P.alg = "bugsy" THEN [hv EXCEPT ![k] = Max2(Gr.h[k], hv[n] - Cst(Gr, n, o))] ELSE hv
     /\ par' = IF improves THEN [par EXCEPT ![k] = n] ELSE par
     /\ open' = IF improves THEN open \cup {k} ELSE open
     /\ cnt' = [cnt EXCEPT !.gend = @ + 1,
                           !.dups = IF seen THEN @ + 1 ELSE @,
                           !.reopn = IF seen /\ improves /\ k \notin open THEN @ + 1 ELSE @]
     /\ UNCHANGED <<pid, cur, sol, status>>

(* s is the goal returned, 0 for none *)
BadStop(s) ==
  (IF Unfinished THEN {"gen-missing"} ELSE {}) \cup
  (IF s = 0
   THEN IF open # {} /\ ~LimitReached THEN {"gave-up"} ELSE {}
   ELSE (IF ~Goal(Gr, s) THEN {"sol-notgoal"} ELSE {}) \cup
        (IF s \notin open THEN {"sol-notopen"} ELSE
           IF ~Best(s) THEN {"sol-order"} ELSE {}))

DoStop(s) ==
  /\ sol' = s
  /\ status' = "done"
  /\ cur' = 0 /\ todo' = {}
  /\ UNCHANGED <<pid, open, g, hv, par, cnt>>

-----------------------------------------------------------------------------
(* The design: every schedule of tie-breaking, operator order and parent     *)
(* pruning.                                                                  *)
Expand   == \E n \in open : status = "search" /\ BadExpand(n) = {} /\ DoExpand(n)
Generate == \E o \in todo : status = "search" /\ DoGenerate(cur, o)
Stop     == \E s \in open \cup {0} : status = "search" /\ BadStop(s) = {} /\ DoStop(s)
Next == Expand \/ Generate \/ Stop

-----------------------------------------------------------------------------
(* Properties of the design.                                                 *)
RECURSIVE ChainOK(_, _)
ChainOK(n, k) == IF n = Gr.start THEN TRUE
                 ELSE k > 0 /\ par[n] # 0 /\
                      (\E o \in OpsOf(Gr, par[n]) : Dst(Gr, par[n], o) = n /\ g[par[n]] + Cst(Gr, par[n], o) <= g[n])
                      /\ ChainOK(par[n], k-1)

TypeOK == /\ open \subseteq Nodes(Gr)
          /\ \A n \in open : g[n] >= 0
          /\ cnt.dups <= cnt.gend /\ cnt.reopn <= cnt.dups

(* every generated node is reached by the chain of its parents at no more than its g *)
Chains == PositiveCosts(Gr) => \A n \in Nodes(Gr) : g[n] # -1 => ChainOK(n, Gr.n)

(* g is never below the true distance *)
GSound == \A n \in Nodes(Gr) : g[n] # -1 => g[n] >= DistFrom(Gr, Gr.start)[n]

Solved == status = "done" /\ sol # 0
OptimalA == Solved /\ (P.alg = "astar" \/ (P.alg = "bugsy" /\ P.w2 > 0 /\ ~P.drop)) /\ Admissible(Gr, DistToGoal(Gr))
              => g[sol] = DistToGoal(Gr)[Gr.start]
BoundW == Solved /\ P.alg = "wastar" /\ Admissible(Gr, DistToGoal(Gr)) /\ ~P.drop
              => 2 * g[sol] <= P.w2 * DistToGoal(Gr)[Gr.start]
Complete == status = "done" /\ sol = 0 /\ ~LimitReached => DistToGoal(Gr)[Gr.start] >= INF
Correct == Solved => DistToGoal(Gr)[Gr.start] < INF

(* every state expanded at most once under a consistent heuristic *)
NoReopen == P.alg = "astar" /\ Consistent(Gr) => cnt.reopn = 0
(* expansions stay below the limit *)
Limits == P.limE > 0 => cnt.expd <= P.limE
(* it always stops: a bound on the number of expansions, checked as the absence of cycles *)
Progress == []<>(status = "done")
=============================================================================
