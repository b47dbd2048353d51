-------------------------------- MODULE MCStn -------------------------------
(* The incremental network: bounds are propagated from a new constraint's    *)
(* arcs only, in any order, an addition being refused as soon as some node's *)
(* bounds cross; undoing restores the saved bounds.  "Unbounded" is a large  *)
(* number that may drift, as in the implementation.                          *)
EXTENDS Stn, FiniteSets
CONSTANTS N, As, Bs, Depth, Far
As2 == {-BIG, -1, 0, 1, 2}
Bs2 == {-1, 1, 2, BIG}
As3 == {-BIG, -1, 1}
Bs3 == {-1, 1, BIG}
VARIABLES cs, lo, up, saved, mode, rejected
vars == <<cs, lo, up, saved, mode, rejected>>
V == 0..N-1
Pairs == {c \in V \X V : c[1] # c[2]}
Init == /\ cs = <<>> /\ mode = "idle" /\ saved = <<>> /\ rejected = <<>>
        /\ lo = [v \in V |-> IF v = 0 THEN 0 ELSE -Far] /\ up = [v \in V |-> IF v = 0 THEN 0 ELSE Far]
Begin(i, j, a, b) ==
  /\ mode = "idle" /\ Len(cs) < Depth /\ a <= b
  /\ cs' = Append(cs, <<i, j, a, b>>) /\ saved' = Append(saved, <<lo, up>>) /\ mode' = "prop" /\ rejected' = <<>> /\ UNCHANGED <<lo, up>>
(* arcs <<u, v, c>>: up[v] <= up[u] + c,  lo[u] >= lo[v] - c *)
Relaxable == {a \in Arcs(cs) : up[a[1]] + a[3] < up[a[2]]} 
RelaxLo == {a \in Arcs(cs) : lo[a[2]] - a[3] > lo[a[1]]}
Crossed == \E v \in V : lo[v] > up[v]
Prop == /\ mode = "prop" /\ ~Crossed /\ UNCHANGED <<cs, saved, mode, rejected>>
        /\ \/ \E a \in Relaxable : up' = [up EXCEPT ![a[2]] = up[a[1]] + a[3]] /\ UNCHANGED lo
           \/ \E a \in RelaxLo : lo' = [lo EXCEPT ![a[1]] = lo[a[2]] - a[3]] /\ UNCHANGED up
Accept == /\ mode = "prop" /\ ~Crossed /\ Relaxable = {} /\ RelaxLo = {} /\ mode' = "idle" /\ UNCHANGED <<cs, lo, up, saved, rejected>>
Drop == /\ cs' = SubSeq(cs, 1, Len(cs)-1) /\ lo' = saved[Len(saved)][1] /\ up' = saved[Len(saved)][2] /\ saved' = SubSeq(saved, 1, Len(saved)-1)
Reject == mode = "prop" /\ Crossed /\ mode' = "idle" /\ rejected' = cs /\ Drop
Undo == mode = "idle" /\ cs # <<>> /\ rejected' = <<>> /\ UNCHANGED mode /\ Drop
Next == Prop \/ Accept \/ Reject \/ Undo \/ \E p \in Pairs, a \in As, b \in Bs : Begin(p[1], p[2], a, b)
Spec == Init /\ [][Next]_vars
Near(x) == IF x > Far \div 2 THEN BIG ELSE IF x < -(Far \div 2) THEN -BIG ELSE x
Exact == mode = "idle" => LET L == Lower(N, cs)
                              U == Upper(N, cs)
                          IN /\ \A v \in V : Near(lo[v]) = L[v] /\ Near(up[v]) = U[v]
                             /\ Consistent(N, cs)
RejectsRight == rejected # <<>> => ~Consistent(N, rejected)
=============================================================================
