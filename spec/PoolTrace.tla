------------------------------ MODULE PoolTrace -----------------------------
(* A pool hands out blocks of memory for objects.  Live objects never        *)
(* overlap, their contents stay what their owner wrote, freed places are     *)
(* used before new ones, and every request constructs and every release      *)
(* destroys one object.                                                      *)
EXTENDS TraceIO, FiniteSets
VARIABLES r, l, viol, live, free, fresh, cnt, done
R == Runs[r]
Ev == R.ev
Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ viol = {} /\ done = FALSE
        /\ live = {}          \* <<address, tag>>
        /\ free = {}          \* addresses given back
        /\ fresh = 0          \* places ever used
        /\ cnt = <<0, 0>>     \* constructed, destroyed
Blocks(m) == IF m = 0 THEN 1 ELSE (m + R.n - 1) \div R.n
Step ==
  /\ l <= Len(Ev) /\ l' = l + 1
  /\ LET e == Ev[l] IN
     /\ IF e.o = 1
        THEN /\ live' = live \cup {<<e.a, e.t>>}
             /\ free' = free \ {e.a}
             /\ fresh' = IF e.a \in free THEN fresh ELSE fresh + 1
             /\ cnt' = <<cnt[1] + 1, cnt[2]>>
        ELSE /\ live' = {x \in live : x[2] # e.t}
             /\ free' = free \cup {e.a}
             /\ UNCHANGED fresh
             /\ cnt' = <<cnt[1], cnt[2] + 1>>
     /\ viol' = viol \cup
          When(e.o = 1 /\ e.a >= 0 /\ \E x \in live : x[1] < e.a + R.size /\ e.a < x[1] + R.size, "pool-overlap") \cup
          When(e.o = 1 /\ free # {} /\ e.a \notin free, "pool-noreuse") \cup
          When({e.seen[i] : i \in 1..Len(e.seen)} # {x[2] : x \in live'}, "pool-content") \cup
          When(e.bl # Blocks(fresh'), "pool-blocks") \cup
          When(e.o = 2 /\ e.last # e.t, "pool-content") \cup   \* as the destructor found it
          When(e.mk # cnt'[1] \/ e.go # cnt'[2], "pool-lifetime")
  /\ UNCHANGED <<r, done>>
Finish == /\ ~done /\ l > Len(Ev) /\ done' = TRUE
          /\ Verdict(R.id, viol)
          /\ UNCHANGED <<r, l, viol, live, free, fresh, cnt>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<r, l, viol, live, free, fresh, cnt, done>>
=============================================================================
