----------------------------- MODULE DjsetTrace -----------------------------
(* Disjoint sets: a partition, joined two classes at a time.                 *)
EXTENDS TraceIO, FiniteSets
VARIABLES r, l, viol, cls, done
R == Runs[r]
Ev == R.ev
El == 1..R.n
Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ viol = {} /\ done = FALSE
        /\ cls = [e \in 1..Runs[r].n |-> {e}]
BadAll(f) == IF Len(f) # R.n THEN {}
             ELSE When(\E e \in El : f[e] \notin cls'[e], "dj-canon") \cup
                  When(\E e, d \in El : (f[e] = f[d]) # (cls'[e] = cls'[d]), "dj-same")
Step ==
  /\ l <= Len(Ev) /\ l' = l + 1
  /\ LET e == Ev[l]
         U == cls[e.a] \cup cls[e.b]
     IN /\ cls' = CASE e.o = 1 -> [x \in El |-> IF x \in U THEN U ELSE cls[x]]
                    [] e.o = 3 -> [x \in El |-> {x}]
                    [] OTHER   -> cls
        /\ viol' = viol \cup BadAll(e.all) \cup When(~e.aux, "dj-aux") \cup
             When(e.o = 2 /\ (e.f[1] = e.f[2]) # (cls[e.a] = cls[e.b]), "dj-same") \cup
             When(e.o = 2 /\ (e.f[1] \notin cls[e.a] \/ e.f[2] \notin cls[e.b]), "dj-canon")
  /\ UNCHANGED <<r, done>>
Finish == /\ ~done /\ l > Len(Ev) /\ done' = TRUE
          /\ Verdict(R.id, viol)
          /\ UNCHANGED <<r, l, viol, cls>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<r, l, viol, cls, done>>
=============================================================================
