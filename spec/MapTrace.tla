------------------------------ MODULE MapTrace ------------------------------
(* Hash tables as sets of elements with keys, and recorded histories of the  *)
(* hash table and the closed list against them.  Removing a key that several *)
(* elements share may remove any of them: a run is right if some choice      *)
(* explains it.                                                              *)
EXTENDS TraceIO, FiniteSets
VARIABLES r, l, viol, S, done
R == Runs[r]
Ev == R.ev
Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ viol = {} /\ S = {} /\ done = FALSE
With(k) == {e \in S : R.keys[e] = k}
(* the largest number of elements in one of b buckets *)
Fill(b) == LET n(i) == Cardinality({e \in S : R.hash[R.keys[e]] % b = i})
               I == {R.hash[R.keys[e]] % b : e \in S}
           IN IF I = {} THEN 0 ELSE n(CHOOSE i \in I : \A j \in I : n(i) >= n(j))

BadFind(k, got) == IF got = 0 THEN When(With(k) # {}, "map-miss") ELSE When(got \notin With(k), "map-ghost")
BadStat(x) == When(x[1] # Cardinality(S), "map-fill") \cup
              When(x[4] # -1 /\ x[4] # Cardinality(S), "map-fill") \cup
              When(x[5] # -1 /\ (x[5] = 1) # (S = {}), "map-empty") \cup
              When(x[2] # -1 /\ x[2] < 1, "map-bucket") \cup
              When(x[2] > 0 /\ (\A e \in S : R.hash[R.keys[e]] >= 0) /\ x[3] # Fill(x[2]), "map-bucketfill")
BadIter(es) == When({es[i] : i \in 1..Len(es)} # S \/ Len(es) # Cardinality(S), "map-iter")

Same == UNCHANGED S
Step ==
  /\ l <= Len(Ev) /\ l' = l + 1
  /\ LET e == Ev[l] IN
     CASE e.o = 1 -> S' = S \cup {e.e} /\ UNCHANGED viol
       [] e.o = 2 -> Same /\ viol' = viol \cup BadFind(e.e, e.r)
       [] e.o = 3 /\ R.closed -> S' = S \ {e.r} /\ viol' = viol \cup BadFind(e.e, e.r)
       [] e.o = 3 /\ ~R.closed ->
            IF With(e.e) = {} THEN Same /\ viol' = viol \cup When(e.r # 0, "map-ghost")
            ELSE /\ \E x \in With(e.e) : S' = S \ {x}
                 /\ viol' = viol \cup When(e.r = 0, "map-miss")
       [] e.o = 4 -> S' = {} /\ UNCHANGED viol
       [] e.o = 5 -> Same /\ viol' = viol \cup BadStat(e.es)
       [] e.o = 6 -> Same /\ viol' = viol \cup BadIter(e.es)
  /\ UNCHANGED <<r, done>>
Finish == /\ ~done /\ l > Len(Ev) /\ done' = TRUE
          /\ Verdict(R.id, viol)
          /\ UNCHANGED <<r, l, viol, S>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<r, l, viol, S, done>>
=============================================================================
