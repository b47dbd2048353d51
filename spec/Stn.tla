-------------------------------- MODULE Stn ---------------------------------
(* Simple temporal networks.  A constraint <<i, j, a, b>> says               *)
(* a <= t[j] - t[i] <= b.  Node 0 is time zero.  The network's meaning is    *)
(* its set of accepted constraints; the bounds of a node are its tightest    *)
(* implied distances from and to zero.                                       *)
EXTENDS Integers, Sequences, TLC
BIG == 1000000000
Cap(x) == IF x > BIG \div 2 THEN BIG ELSE IF x < -(BIG \div 2) THEN -BIG ELSE x
Add(a, b) == IF a = BIG \/ b = BIG THEN BIG ELSE a + b

(* arcs of the distance graph: <<u, v, c>> says t[v] - t[u] <= c *)
ArcsOf(c) == (IF c[4] < BIG THEN {<<c[1], c[2], c[4]>>} ELSE {}) \cup (IF c[3] > -BIG THEN {<<c[2], c[1], -c[3]>>} ELSE {})
Arcs(cs) == UNION {ArcsOf(cs[i]) : i \in 1..Len(cs)}

MinOver(S, d) == IF S = {} THEN d ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN IF m < d THEN m ELSE d
Relax(A, D) == TLCEval([v \in DOMAIN D |-> MinOver({Add(D[a[1]], a[3]) : a \in {x \in A : x[2] = v}}, D[v])])
RECURSIVE Iterate(_, _, _)
Iterate(A, D, k) == IF k = 0 THEN D ELSE LET E == Relax(A, D) IN IF E = D THEN D ELSE Iterate(A, E, k-1)

(* no negative cycle: relaxing potentials that are all 0 comes to rest *)
Consistent(n, cs) == LET A == Arcs(cs)
                         Z == Iterate(A, TLCEval([v \in 0..n-1 |-> 0]), n)
                     IN Relax(A, Z) = Z
From0(n) == TLCEval([v \in 0..n-1 |-> IF v = 0 THEN 0 ELSE BIG])
Upper(n, cs) == Iterate(Arcs(cs), From0(n), n)
Lower(n, cs) == LET U == Iterate({<<a[2], a[1], a[3]>> : a \in Arcs(cs)}, From0(n), n)
                IN [v \in 0..n-1 |-> IF U[v] = BIG THEN -BIG ELSE -U[v]]
=============================================================================
