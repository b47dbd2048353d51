------------------------------ MODULE RTAstar -------------------------------
(* Real-time A*.  The agent values every state it could step to: by what it  *)
(* remembers of the state if it has left it before, and otherwise by a look  *)
(* ahead of fixed depth that does not turn straight back.  It steps to a     *)
(* state of least cost plus value, and remembers for the state it leaves     *)
(* what the best of the ways not taken would have cost: the value of coming  *)
(* back.  Ways that tie for the best are each other's second best.           *)
(*   agent  where the agent is                                               *)
(*   mem    the remembered values, UNSEEN where the agent has not been       *)
EXTENDS Graphs
CONSTANT Problem(_)   \* [G, look]
VARIABLES pid, agent, mem, status
vars == <<pid, agent, mem, status>>
P == Problem(pid)
Gr == P.G
UNSEEN == -1

InitProblem(p) ==
  LET G0 == Problem(p).G IN
  /\ pid = p /\ agent = G0.start /\ status = "search"
  /\ mem = [i \in Nodes(G0) |-> IF i = G0.start THEN G0.h[i] ELSE UNSEEN]

(* The look ahead: the least cost plus estimate on the frontier, which is    *)
(* made of goals and of states at the full depth.  Branches that cannot beat *)
(* the best seen may be cut off: with consistent estimates it is the same.   *)
RECURSIVE Look(_, _, _, _)
Look(G, n, back, left) ==
  IF left = 0 \/ Goal(G, n) THEN G.h[n]
  ELSE MinSet({INF} \cup {Plus(Cst(G, n, o), Look(G, Dst(G, n, o), Rev(G, n, o), left - 1)) : o \in OpsOf(G, n) \ {back}})

Value(G, m, n, back, look) == IF m[n] # UNSEEN THEN m[n] ELSE Look(G, n, back, look)
Kid(G, m, a, look) ==
  TLCEval([o \in OpsOf(G, a) |-> Plus(Cst(G, a, o), Value(G, m, Dst(G, a, o), Rev(G, a, o), look))])
Best(K) == {o \in DOMAIN K : \A q \in DOMAIN K : K[o] <= K[q]}
Second(K) == LET b == Best(K) IN
             IF Cardinality(b) > 1 THEN K[CHOOSE o \in b : TRUE]
             ELSE MinSet({INF} \cup {K[o] : o \in DOMAIN K \ b})

Arrived == Goal(Gr, agent)
CanMove(o) == status = "search" /\ ~Arrived /\ o \in Best(Kid(Gr, mem, agent, P.look))
DoMove(o) ==
  /\ mem' = [mem EXCEPT ![agent] = Second(Kid(Gr, mem, agent, P.look))]
  /\ agent' = Dst(Gr, agent, o)
  /\ UNCHANGED <<pid, status>>
DoStop(s) == status' = s /\ UNCHANGED <<pid, agent, mem>>

Next == \/ \E o \in OpsOf(Gr, agent) : CanMove(o) /\ DoMove(o)
        \/ status = "search" /\ (Arrived \/ OpsOf(Gr, agent) = {}) /\ DoStop("done")
Spec == (\E p \in {} : InitProblem(p)) /\ [][Next]_vars

-----------------------------------------------------------------------------
Finished == status = "done" => Arrived
Reaches == <>(status = "done")
=============================================================================
