---------------------------- MODULE PQueueTrace -----------------------------
(* Validates recorded histories of the binary heap, the integer priority     *)
(* queue and both open lists against PQueue.                                 *)
EXTENDS TraceIO, FiniteSets
VARIABLES r, l, viol, q, key, done
PQ == INSTANCE PQueue
R == Runs[r]
Ev == R.ev
Elems(x) == 1..Runs[x].n
Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ viol = {} /\ done = FALSE
        /\ q = {} /\ key = [e \in Elems(r) |-> <<0, 0>>]

(* what is visible after the operation, against the state the operation led to *)
BadObs(e, Q) ==
  When(e.em # (Q = {}), "pq-empty") \cup
  When(R.szs /\ e.sz # Cardinality(Q), "pq-size") \cup
  When(\E x \in Elems(r) : (e.mem[x] = 1) # (x \in Q), "pq-mem") \cup
  When(R.ixs /\ \E x \in Q : ~(e.ix[x] + 1 \in 1..Len(e.at) /\ e.at[e.ix[x] + 1] = x), "pq-index") \cup
  When(R.ixs /\ (\E x \in Elems(r) \ Q : e.ix[x] # -1), "pq-index") \cup
  When(R.ixs /\ Len(e.at) # Cardinality(Q), "pq-size")

Step ==
  /\ l <= Len(Ev) /\ l' = l + 1
  /\ LET e == Ev[l] IN
     /\ CASE e.o \in {1, 4, 5} -> PQ!DoPut(e.e, e.k)
          [] e.o = 2           -> PQ!DoDrop(e.r)
          [] e.o = 3           -> UNCHANGED <<q, key>>
          [] e.o = 6           -> PQ!DoClear
          [] e.o \in {7, 9}    -> PQ!DoPutAll(e.es, e.ks)
          [] e.o = 8           -> PQ!DoDrop(e.e)
          [] e.o = 10          -> UNCHANGED <<q, key>>
     /\ viol' = viol \cup (IF e.o \in {2, 3} THEN PQ!BadTake(e.r) ELSE {}) \cup
                When(e.o = 10 /\ q # {}, "pq-empty") \cup BadObs(e, q')
  /\ UNCHANGED <<r, done>>
Finish == /\ ~done /\ l > Len(Ev) /\ done' = TRUE
          /\ Verdict(R.id, viol)
          /\ UNCHANGED <<r, l, viol, q, key>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<r, l, viol, q, key, done>>
=============================================================================
