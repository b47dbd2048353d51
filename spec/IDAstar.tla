------------------------------ MODULE IDAstar -------------------------------
(* Iterative-deepening A*: depth-first searches under a growing bound on f.  *)
(*   stack   the frames of the recursion, each [s, g, todo]; the operator    *)
(*           that would undo the last step is never applied                  *)
(*   pend    the successor just generated and not yet entered, or <<>>       *)
(*   bound   the bound of this iteration; oob the least f seen beyond it     *)
EXTENDS Graphs
CONSTANT Problem(_)   \* [G, limE, limG, limT]
VARIABLES pid, stack, pend, bound, oob, cnt, rows, status
vars == <<pid, stack, pend, bound, oob, cnt, rows, status>>

P == Problem(pid)
Gr == P.G
NONE == -1
Top == stack[Len(stack)]
LimitReached == \/ P.limE > 0 /\ cnt.expd >= P.limE
                \/ P.limG > 0 /\ cnt.gend >= P.limG
                \/ P.limT > 0 /\ cnt.expd + cnt.gend >= P.limT

InitProblem(p) ==
  LET G0 == Problem(p).G IN
  /\ pid = p /\ stack = <<>> /\ oob = NONE
  /\ pend = [s |-> G0.start, g |-> 0, pop |-> 0]
  /\ bound = G0.h[G0.start]
  /\ cnt = [expd |-> 0, gend |-> 0] /\ rows = <<>> /\ status = "search"

NoPend == [s |-> 0, g |-> 0, pop |-> 0]
HasPend == pend.s # 0
FPend == pend.g + Gr.h[pend.s]

(* operators of a frame that must still be applied before it may return      *)
Required(f) == f.todo
(* the frames left once every frame that may return has returned             *)
RECURSIVE Returned(_)
Returned(st) == IF st # <<>> /\ Required(st[Len(st)]) = {} THEN Returned(SubSeq(st, 1, Len(st)-1)) ELSE st
(* the frame that applies operator o at n *)
RECURSIVE FrameFor(_, _, _)
FrameFor(st, n, o) ==
  IF st = <<>> THEN st
  ELSE LET t == st[Len(st)] IN
       IF t.s = n /\ o \in t.todo THEN st
       ELSE IF Required(t) = {} THEN FrameFor(SubSeq(st, 1, Len(st)-1), n, o)
       ELSE <<>>

(* A pending successor beyond the bound is rejected and remembered.          *)
Reject == HasPend /\ FPend > bound
DoReject ==
  /\ oob' = IF oob = NONE THEN FPend ELSE Min2(oob, FPend)
  /\ pend' = NoPend
  /\ UNCHANGED <<pid, stack, bound, cnt, rows, status>>

(* An iteration ends when every frame has returned: the next one starts from *)
(* the initial state under the least f that exceeded the bound.              *)
IterationOver == ~HasPend /\ Returned(stack) = <<>>
NextIteration == IterationOver /\ oob # NONE /\ ~LimitReached
DoNextIteration ==
  /\ rows' = Append(rows, <<Len(rows), bound, cnt.expd, cnt.gend>>)
  /\ bound' = oob /\ oob' = NONE /\ stack' = <<>>
  /\ pend' = [s |-> Gr.start, g |-> 0, pop |-> 0]
  /\ UNCHANGED <<pid, cnt, status>>

BadExpand(n) ==
  IF pend.s # n THEN {"ida-expand"}
  ELSE (IF Goal(Gr, n) THEN {"expanded-goal"} ELSE {}) \cup
       (IF FPend > bound THEN {"ida-bound"} ELSE {}) \cup
       (IF P.limE > 0 /\ cnt.expd >= P.limE THEN {"limit-overrun"} ELSE {})
DoExpand(n) ==
  /\ stack' = Append(stack, [s |-> n, g |-> pend.g, todo |-> OpsOf(Gr, n) \ {pend.pop}])
  /\ pend' = NoPend
  /\ cnt' = [cnt EXCEPT !.expd = @ + 1]
  /\ UNCHANGED <<pid, bound, oob, rows, status>>

BadGenerate(n, o) ==
  (IF HasPend THEN {"ida-skipped"} ELSE {}) \cup
  (IF FrameFor(stack, n, o) = <<>> THEN {"ida-generate"} ELSE {}) \cup
  (IF LimitReached THEN {"limit-overrun"} ELSE {})
DoGenerate(n, o) ==
  LET st == FrameFor(stack, n, o) IN
  IF st = <<>> THEN UNCHANGED vars
  ELSE /\ stack' = [st EXCEPT ![Len(st)].todo = @ \ {o}]
       /\ pend' = [s |-> Dst(Gr, n, o), g |-> st[Len(st)].g + Cst(Gr, n, o), pop |-> Rev(Gr, n, o)]
       /\ cnt' = [cnt EXCEPT !.gend = @ + 1]
       /\ UNCHANGED <<pid, bound, oob, rows, status>>

(* The search returns when the pending state is a goal within the bound,     *)
(* when no f beyond the bound remains, or at a limit.                        *)
BadStop(solved) ==
  IF solved THEN (IF ~HasPend \/ ~Goal(Gr, pend.s) THEN {"ida-solution"} ELSE {})
  ELSE IF LimitReached THEN {}
  ELSE IF HasPend \/ Returned(stack) # <<>> \/ oob # NONE THEN {"gave-up"} ELSE {}
DoStop == status' = "done" /\ UNCHANGED <<pid, stack, pend, bound, oob, cnt, rows>>

-----------------------------------------------------------------------------
(* The design.  Every f between two bounds is tried, so the first solution   *)
(* is optimal for an admissible heuristic.                                   *)
Solved == status = "search" /\ HasPend /\ ~Reject /\ Goal(Gr, pend.s)
Next ==
  /\ status = "search"
  /\ \/ Reject /\ DoReject
     \/ NextIteration /\ DoNextIteration
     \/ ~Reject /\ HasPend /\ BadExpand(pend.s) = {} /\ DoExpand(pend.s)
     \/ \E st \in {Returned(stack)} : st # <<>> /\ ~HasPend /\
          \E o \in Required(st[Len(st)]) : BadGenerate(st[Len(st)].s, o) = {} /\ DoGenerate(st[Len(st)].s, o)
     \/ Solved /\ DoStop
     \/ IterationOver /\ oob = NONE /\ DoStop
     \/ ~HasPend /\ LimitReached /\ DoStop

Optimal == Solved /\ Admissible(Gr, DistToGoal(Gr)) => pend.g = DistToGoal(Gr)[Gr.start]
BoundSound == Admissible(Gr, DistToGoal(Gr)) => bound <= DistToGoal(Gr)[Gr.start]
FoundOrNone == status = "done" /\ ~LimitReached /\ ~HasPend => DistToGoal(Gr)[Gr.start] >= INF
Limits == /\ P.limE > 0 => cnt.expd <= P.limE
          /\ P.limG > 0 => cnt.gend <= P.limG
=============================================================================
