---------------------------- MODULE ProfileTrace ----------------------------
(* Recorded profiles and stopping policies against Profile.                   *)
EXTENDS TraceIO, Profile
VARIABLES r, done
R == Runs[r]
Init == r \in 1..Len(Runs) /\ done = FALSE
Abs(x) == IF x < 0 THEN -x ELSE x
Bad ==
  LET nc == R.nc nt == R.nt
      X == Extent(R.streams)
      C == TLCEval(Counts(X, nc, nt, R.streams))
      T == TLCEval([q \in 0..(nc-1) |-> [dt \in 0..(nt-1) |-> Total(C, q, dt)]])
      small == Least(C)
      Pr(k, q, dt) == Prob(C, small, T[q][dt], k, q, dt)
      gotn(q, dt) == R.counts[q * nt + dt + 1]
      gotp(k, q, dt) == R.probs[(q * nt + dt) * nc + k + 1]
      near(x, p) == Abs(x * p[2] - p[1] * 100000) <= p[2]
      V == Values(X, nc, nt, R.wf, R.wt, TLCEval([q \in 0..(nc-1) |-> [k \in 0..q |-> IF nt > 1 THEN Pr(k, q, 1) ELSE <<0, 1>>]]), 0)
      ask(a) == LET c == a[1] t == a[2]
                IN IF c < X.lo \/ t < X.lt THEN a[3] # 0
                   ELSE IF c >= X.hi \/ t >= X.ht THEN a[3] # 1
                   ELSE LET v == V[Floor((t - X.lt) * nt, X.ht - X.lt) + 1][Floor((c - X.lo) * nc, X.hi - X.lo)]
                        IN (a[3] = 1 /\ ~v.stop) \/ (a[3] = 0 /\ ~v.go)
  IN When("ext" \in DOMAIN R /\ R.ext # <<X.lo, X.hi, X.lt, X.ht>>, "prof-extent") \cup
     When(\E q \in 0..(nc-1), dt \in 0..(nt-1) : gotn(q, dt) # T[q][dt], "prof-count") \cup
     When(\E q, k \in 0..(nc-1), dt \in 0..(nt-1) : ~near(gotp(k, q, dt), Pr(k, q, dt)), "prof-prob") \cup
     When(R.far, "prof-far") \cup
     When(\E i \in 1..Len(R.asks) : ask(R.asks[i]), "prof-stop") \cup
     When(R.out # R.in, "prof-bounds") \cup When(R.outp # R.inp, "prof-kept") \cup When(R.outs # R.ins, "prof-policy") \cup When(~R.past, "prof-file")
Finish == /\ ~done /\ done' = TRUE /\ Verdict(R.id, IF "broken" \in DOMAIN R /\ R.broken # "" THEN {"gen-broken"} ELSE Bad) /\ UNCHANGED r
Spec == Init /\ [][Finish]_<<r, done>>
=============================================================================
