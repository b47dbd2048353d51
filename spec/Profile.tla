------------------------------ MODULE Profile -------------------------------
(* Anytime profiles: how often, from a solution in one cost bin, a search had *)
(* a solution in another some time bins later; the estimated probabilities;   *)
(* and the best stopping policy for a utility that falls with cost and time.  *)
(* A stream is a sequence of <<cost, time>>, times rising and costs falling.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Floor(a, b) == a \div b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Sols(ss) == UNION {{ss[i][j] : j \in 1..Len(ss[i])} : i \in 1..Len(ss)}
Extent(ss) == LET c == {s[1] : s \in Sols(ss)} t == {s[2] : s \in Sols(ss)}
              IN [lo |-> MinOf(c), hi |-> MaxOf(c), lt |-> MinOf(t), ht |-> MaxOf(t)]
(* bins of equal width; the last one is closed *)
Bin(x, lo, hi, n) == IF x = hi THEN n - 1 ELSE Floor((x - lo) * n, hi - lo)
CostBin(X, nc, c) == Bin(c, X.lo, X.hi, nc)
TimeBin(X, nt, d) == Bin(d, 0, X.ht - X.lt, nt)

(* the cost bin a stream is in dt bins after its ith solution: that of the last *)
(* solution whose delay falls in bin dt or before                              *)
Later(X, nc, nt, s, i, dt) ==
  LET seen == {j \in i..Len(s) : j = i \/ TimeBin(X, nt, s[j][2] - s[i][2]) <= dt}
  IN  CostBin(X, nc, s[MaxOf(seen)][1])
Starts(X, nc, ss) == {<<k, i>> \in UNION {{k} \X (1..Len(ss[k])) : k \in 1..Len(ss)} : TRUE}
Counts(X, nc, nt, ss) ==   \* [q, dt -> [q2 -> how often]]
  [q \in 0..(nc-1) |-> LET from == {a \in Starts(X, nc, ss) : CostBin(X, nc, ss[a[1]][a[2]][1]) = q}
                       IN [dt \in 0..(nt-1) |-> [k \in 0..(nc-1) |-> Cardinality({a \in from : Later(X, nc, nt, ss[a[1]], a[2], dt) = k})]]]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Total(C, q, dt) == Sum(C[q][dt], DOMAIN C[q][dt])
(* the smallest frequency that is not zero, as <<a, b>> *)
Least(C) == LET F == UNION {UNION {{<<C[q][dt][k], Total(C, q, dt)>> : k \in {k \in DOMAIN C[q][dt] : C[q][dt][k] > 0}} : dt \in DOMAIN C[q]} : q \in DOMAIN C}
            IN CHOOSE f \in F : \A g \in F : f[1] * g[2] <= g[1] * f[2]
(* smoothed by half of it, and made to sum to one: <<numerator, denominator>> *)
Prob(C, small, n, k, q, dt) ==
  IF k > q THEN <<0, 1>>
  ELSE IF n = 0 THEN <<1, q + 1>>
  ELSE <<2 * small[2] * C[q][dt][k] + small[1] * n, n * (2 * small[2] + (q + 1) * small[1])>>

(* the value of a state, within <<low, high>>: utilities are measured from the *)
(* cheapest and earliest, in units of 1/(2 nc nt)                              *)
Unit == 10000
Stop(X, nc, nt, wf, wt, q, t) == -(wf * (2 * q + 1) * (X.hi - X.lo) * nt + wt * (2 * t + 1) * (X.ht - X.lt) * nc)
Lower(p) == Floor(p[1] * Unit, p[2])
RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n < 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)
(* values[q] at time bin t + 1, to those at t *)
Back(X, nc, nt, wf, wt, P, next, t) ==
  [q \in 0..(nc-1) |->
     LET s == Stop(X, nc, nt, wf, wt, q, t)
         lo == Floor(SumOver([k \in 0..q |-> next[k].lo * (Lower(P[q][k]) + 1)], q), Unit)
         hi == Floor(SumOver([k \in 0..q |-> next[k].hi * Lower(P[q][k])], q), Unit) + 1
     IN  IF q = 0 THEN [lo |-> s, hi |-> s, stop |-> TRUE, go |-> FALSE]
         ELSE [lo |-> IF lo > s THEN lo ELSE s, hi |-> IF hi > s THEN hi ELSE s, stop |-> lo <= s, go |-> hi > s]]
Last(X, nc, nt, wf, wt) == [q \in 0..(nc-1) |-> LET s == Stop(X, nc, nt, wf, wt, q, nt - 1) IN [lo |-> s, hi |-> s, stop |-> TRUE, go |-> FALSE]]
RECURSIVE Values(_, _, _, _, _, _, _)
Values(X, nc, nt, wf, wt, P, t) ==   \* from t on: a sequence, t first
  IF t = nt - 1 THEN <<Last(X, nc, nt, wf, wt)>>
  ELSE LET rest == Values(X, nc, nt, wf, wt, P, t + 1) IN <<TLCEval(Back(X, nc, nt, wf, wt, P, rest[1], t))>> \o rest
=============================================================================
