------------------------------- MODULE MCIntpq ------------------------------
(* The integer-keyed queue: bins of doubly linked elements and a hint of the *)
(* least used bin.  Zero is the null pointer.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Prios
VARIABLES bins, nxt, prev, prio, end, q
vars == <<bins, nxt, prev, prio, end, q>>
E == 1..N
PQ == INSTANCE PQueue WITH key <- [e \in E |-> <<prio[e], 0>>]
Init == /\ bins = [p \in Prios |-> 0] /\ nxt = [e \in E |-> 0] /\ prev = [e \in E |-> 0]
        /\ prio = [e \in E |-> 0] /\ end = 0 /\ q = {}
Mem(e) == prev[e] # 0
Push(e, p) ==
  /\ ~Mem(e)
  /\ prev' = [x \in E |-> IF x = e \/ x = bins[p] THEN e ELSE prev[x]]
  /\ nxt' = [nxt EXCEPT ![e] = bins[p]] /\ bins' = [bins EXCEPT ![p] = e]
  /\ prio' = [prio EXCEPT ![e] = p] /\ end' = (IF q = {} \/ p < end THEN p ELSE end) /\ q' = q \cup {e}
Hint == CHOOSE p \in Prios : p >= end /\ bins[p] # 0 /\ \A o \in Prios : o >= end /\ o < p => bins[o] = 0
Unhead(e, p) ==
  /\ prev' = [x \in E |-> IF x = e THEN 0 ELSE IF x = nxt[e] THEN x ELSE prev[x]]
  /\ bins' = [bins EXCEPT ![p] = nxt[e]] /\ UNCHANGED nxt
Pop == /\ q # {} /\ end' = Hint /\ Unhead(bins[Hint], Hint) /\ q' = q \ {bins[Hint]} /\ UNCHANGED prio
Rm(e) == /\ Mem(e)
         /\ IF prev[e] = e THEN Unhead(e, prio[e])
            ELSE /\ prev' = [x \in E |-> IF x = e THEN 0 ELSE IF x = nxt[e] THEN prev[e] ELSE prev[x]]
                 /\ nxt' = [nxt EXCEPT ![prev[e]] = nxt[e]] /\ UNCHANGED bins
         /\ q' = q \ {e} /\ UNCHANGED <<prio, end>>
Clear == /\ q # {} /\ bins' = [p \in Prios |-> 0] /\ prev' = [e \in E |-> 0] /\ end' = 0 /\ q' = {} /\ UNCHANGED <<nxt, prio>>
Next == Pop \/ Clear \/ \E e \in E : Rm(e) \/ \E p \in Prios : Push(e, p)
Spec == Init /\ [][Next]_vars
RECURSIVE Chain(_, _)
Chain(e, k) == IF e = 0 \/ k = 0 THEN <<>> ELSE <<e>> \o Chain(nxt[e], k-1)
Linked == \A p \in Prios :
            LET c == Chain(bins[p], N+1)
                B == {e \in q : prio[e] = p}
            IN /\ Len(c) = Cardinality(B) /\ {c[i] : i \in 1..Len(c)} = B
               /\ \A i \in 1..Len(c) : prev[c[i]] = (IF i = 1 THEN c[1] ELSE c[i-1])
Members == \A e \in E : Mem(e) = (e \in q)
Implements == q # {} => /\ \E p \in Prios : p >= end /\ bins[p] # 0
                        /\ PQ!BadTake(bins[Hint]) = {}
=============================================================================
