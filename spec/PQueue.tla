------------------------------- MODULE PQueue -------------------------------
(* A priority queue as its users see it: a set of queued elements with keys  *)
(* (pairs compared lexicographically).  Every priority queue of the          *)
(* repository is an implementation of it.                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES q, key     \* the queued elements; key[e] the last key given to e
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Minimal(e) == e \in q /\ \A x \in q : ~Less(key[x], key[e])

BadTake(e) ==    \* e is what pop or front returned, 0 for nothing
  IF e = 0 THEN (IF q = {} THEN {} ELSE {"pq-lost"})
  ELSE IF e \notin q THEN {"pq-ghost"}
  ELSE IF ~Minimal(e) THEN {"pq-notmin"} ELSE {}

DoPut(e, k) == q' = q \cup {e} /\ key' = [key EXCEPT ![e] = k]
DoDrop(e)   == q' = q \ {e} /\ UNCHANGED key
DoPutAll(es, ks) == /\ q' = q \cup {es[i] : i \in 1..Len(es)}
                    /\ key' = [e \in DOMAIN key |-> IF \E i \in 1..Len(es) : es[i] = e
                                                    THEN ks[CHOOSE i \in 1..Len(es) : es[i] = e] ELSE key[e]]
DoClear == q' = {} /\ UNCHANGED key
=============================================================================
