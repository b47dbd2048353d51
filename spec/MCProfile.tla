----------------------------- MODULE MCProfile ------------------------------
(* Profiles over all small sets of streams: the counts account for every      *)
(* solution, the probabilities are probabilities, and the stopping policy     *)
(* responds to the weights.                                                   *)
EXTENDS Profile
CONSTANTS MaxCost, MaxTime, MaxLen, MaxStreams, NC, NT
VARIABLE ss
Ext(s) == {<<c, t>> \in (0..MaxCost) \X (1..MaxTime) : s = <<>> \/ (c <= s[Len(s)][1] /\ t > s[Len(s)][2])}
Init == ss = <<<<>>>>
Next == \/ Len(ss[Len(ss)]) < MaxLen /\ \E x \in Ext(ss[Len(ss)]) : ss' = [ss EXCEPT ![Len(ss)] = Append(@, x)]
        \/ Len(ss) < MaxStreams /\ ss[Len(ss)] # <<>> /\ ss' = Append(ss, <<>>)
Spec == Init /\ [][Next]_ss
Some == Sols(ss) # {}
Exact(X) == (X.hi - X.lo) % NC = 0 /\ (X.ht - X.lt) % NT = 0
Qs == 0..(NC-1)
Ts == 0..(NT-1)
Right ==
  Some =>
  LET X == Extent(ss)
      C == TLCEval(Counts(X, NC, NT, ss))
      T == TLCEval([q \in Qs |-> [dt \in Ts |-> Total(C, q, dt)]])
      small == Least(C)
      P(k, q, dt) == Prob(C, small, T[q][dt], k, q, dt)
      V(wf, wt) == Values(X, NC, NT, wf, wt, TLCEval([q \in Qs |-> [k \in 0..q |-> IF NT > 1 THEN P(k, q, 1) ELSE <<0, 1>>]]), 0)
      free == TLCEval(V(1, 0))
      only == TLCEval(V(0, 1))
      both == TLCEval(V(1, 1))
  IN  /\ \A q \in Qs, dt \in Ts : T[q][dt] = Cardinality({a \in Starts(X, NC, ss) : CostBin(X, NC, ss[a[1]][a[2]][1]) = q})   \* every start, at every delay
      /\ \A q, k \in Qs, dt \in Ts : k > q => C[q][dt][k] = 0                                                                \* solutions only improve
      /\ \A q \in Qs, dt \in Ts : dt + 1 \in Ts => \A m \in Qs : Sum(C[q][dt], 0..m) <= Sum(C[q][dt+1], 0..m)                     \* and more so later
      /\ \A q \in Qs, dt \in Ts : LET d == P(0, q, dt)[2] IN (\A k \in 0..q : P(k, q, dt)[2] = d /\ P(k, q, dt)[1] > 0) /\ SumOver([k \in 0..q |-> P(k, q, dt)[1]], q) = d
      /\ \A i \in 1..NT, q \in Qs : /\ free[i][q].lo <= free[i][q].hi /\ both[i][q].lo <= both[i][q].hi
                                    /\ only[i][q].stop                                     \* time alone: stop at once
                                    /\ (i = NT \/ q = 0) => ~both[i][q].go                 \* nothing to wait for
                                    /\ both[i][q].stop \/ both[i][q].go
                                    /\ (i < NT /\ q > 0 /\ X.hi > X.lo) => free[i][q].go   \* cost alone: go on while it may improve
                                    /\ both[i][q].lo >= Stop(X, NC, NT, 1, 1, q, i - 1)
=============================================================================
