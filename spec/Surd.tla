------------------------------- MODULE Surd --------------------------------
(* Numbers a + b*sqrt(2), written <<a, b>>, compared exactly.                *)
EXTENDS Integers, Sequences
Zero == <<0, 0>>
Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
(* x <= y*sqrt(2) *)
LeqRoot(x, y) == IF x <= 0 /\ y >= 0 THEN TRUE
                 ELSE IF x > 0 /\ y < 0 THEN FALSE
                 ELSE IF x > 0 THEN x * x <= 2 * y * y
                 ELSE x * x >= 2 * y * y
Leq(p, q) == IF p[2] = q[2] THEN p[1] <= q[1] ELSE LeqRoot(p[1] - q[1], q[2] - p[2])
Least(S) == CHOOSE x \in S : \A y \in S : Leq(x, y)
=============================================================================
