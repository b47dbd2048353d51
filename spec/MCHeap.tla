------------------------------- MODULE MCHeap -------------------------------
(* The array heap with element positions, every history of N elements with   *)
(* small keys: it implements PQueue.                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Keys
VARIABLES h, ix, key
vars == <<h, ix, key>>
E == 1..N
Q == {h[i] : i \in 1..Len(h)}
PQ == INSTANCE PQueue WITH q <- Q, key <- [e \in E |-> <<key[e], 0>>]
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RECURSIVE Up(_, _, _), Down(_, _, _)
Up(s, k, i) == IF i = 1 \/ ~(k[s[i]] < k[s[i \div 2]]) THEN <<s, i>> ELSE Up(Swap(s, i, i \div 2), k, i \div 2)
Down(s, k, i) == LET l == 2*i
                     r == 2*i + 1
                     a == IF l <= Len(s) /\ k[s[l]] < k[s[i]] THEN l ELSE i
                     m == IF r <= Len(s) /\ k[s[r]] < k[s[a]] THEN r ELSE a
                 IN IF m = i THEN s ELSE Down(Swap(s, i, m), k, m)
Fix(s, k, i) == LET u == Up(s, k, i) IN Down(u[1], k, u[2])
RECURSIVE Heapify(_, _, _)
Heapify(s, k, i) == IF i = 0 THEN s ELSE Heapify(Down(s, k, i), k, i-1)
Becomes(s) == h' = s /\ ix' = [e \in E |-> IF \E i \in 1..Len(s) : s[i] = e THEN CHOOSE i \in 1..Len(s) : s[i] = e ELSE 0]

Init == h = <<>> /\ ix = [e \in E |-> 0] /\ key \in [E -> Keys]
Push(e, k) == /\ ix[e] = 0 /\ key' = [key EXCEPT ![e] = k]
              /\ Becomes(Up(Append(h, e), key', Len(h)+1)[1])
Pop == /\ h # <<>> /\ UNCHANGED key
       /\ LET s == [i \in 1..Len(h)-1 |-> IF i = 1 THEN h[Len(h)] ELSE h[i]] IN Becomes(IF s = <<>> THEN s ELSE Down(s, key, 1))
Update(e, k) == /\ ix[e] # 0 /\ key' = [key EXCEPT ![e] = k] /\ Becomes(Fix(h, key', ix[e]))
Bulk == \E ks \in [E -> Keys] : /\ \E i \in 1..Len(h) : ks[h[i]] # key[h[i]]
                                /\ key' = ks /\ Becomes(Heapify(h, ks, Len(h)))
Clear == h # <<>> /\ Becomes(<<>>) /\ UNCHANGED key
Next == Pop \/ Clear \/ Bulk \/ \E e \in E, k \in Keys : Push(e, k) \/ Update(e, k)
Spec == Init /\ [][Next]_vars
Ordered == \A i \in 2..Len(h) : key[h[i \div 2]] <= key[h[i]]
Indexed == /\ Len(h) = Cardinality(Q)
           /\ \A e \in E : IF e \in Q THEN h[ix[e]] = e ELSE ix[e] = 0
FrontMinimal == h # <<>> => PQ!Minimal(h[1])
Implements == PQ!BadTake(IF h = <<>> THEN 0 ELSE h[1]) = {}
=============================================================================
