------------------------------- MODULE MCRdb -------------------------------
(* The database over every short history: a set of attributes keeps its path, *)
(* different sets never share one, and what was stored is found again.        *)
EXTENDS Rdb
CONSTANTS Keys, Values, MaxOps
VARIABLES fs, asked, put, n
Sets == UNION {[ks -> Values] : ks \in SUBSET Keys \ {{}}}
Orders(ks) == {q \in [1..Cardinality(ks) -> ks] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Lists(A) == {[i \in DOMAIN q |-> <<q[i], A[q[i]]>>] : q \in Orders(DOMAIN A)}
SetOf(A) == {<<k, A[k]>> : k \in DOMAIN A}
Init == fs = Empty(FALSE) /\ asked = {} /\ put = {} /\ n = 0
Ask == \E A \in Sets : \E as \in Lists(A) :
         LET w == PathFor(fs, as)
             now == DoPath(fs, as)
         IN  /\ fs' = now
             /\ asked' = IF w.ok THEN asked \cup {<<SetOf(A), w.path>>} ELSE asked
             /\ UNCHANGED put
Put == \E a \in asked : /\ a[2] \notin fs.dirs \cup fs.files
                        /\ fs' = DoPut(fs, a[2]) /\ put' = put \cup {a} /\ UNCHANGED asked
Next == n < MaxOps /\ n' = n + 1 /\ (Ask \/ Put)
Spec == Init /\ [][Next]_<<fs, asked, put, n>>
(* the path of a set never changes *)
Stable == \A a, b \in asked : (a[1] = b[1]) <=> (a[2] = b[2])
AnyOrder == n < 2 => \A A \in Sets : Cardinality({PathFor(DoPath(fs, CHOOSE q \in Lists(A) : TRUE), as).path : as \in Lists(A)}) = 1
(* a set of attributes can be asked for again, unless a file is in the way of a larger set *)
Again == \A a \in asked : LET A == CHOOSE A \in Sets : SetOf(A) = a[1]
                          IN \A as \in Lists(A) : LET w == PathFor(fs, as)
                             IN IF w.ok THEN w.path = a[2] ELSE \E b \in put : b[1] \subseteq a[1] /\ b[1] # a[1]
Spelt == \A a \in put : Given(fs, a[2]) = a[1]
Sound == fs.files \cap fs.dirs = {} /\ \A p \in fs.dirs \cup fs.files : \A i \in 0..(Len(p) - 1) : SubSeq(p, 1, i) \in fs.dirs /\ SubSeq(p, 1, i) \in DOMAIN fs.key
=============================================================================
