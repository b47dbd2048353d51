------------------------------ MODULE RdbTrace ------------------------------
(* Recorded histories of the results database against Rdb.                    *)
EXTENDS TraceIO, Rdb
VARIABLES r, l, viol, fs, done
R == Runs[r]
Ev == R.ev
Init == /\ r \in 1..Len(Runs) /\ l = 1 /\ viol = {} /\ fs = Empty(Runs[r].there) /\ done = FALSE
Found(e) == {e.files[i] : i \in 1..Len(e.files)}
BadTree(f, e) == When({<<e.tree[i].p, e.tree[i].k>> : i \in 1..Len(e.tree)} # Entries(f) \/ Len(e.tree) # Cardinality(Entries(f)), "rdb-tree")
BadPath(e) ==
  LET w == PathFor(fs, e.as)
  IN  IF ~w.ok THEN When(e.well = 1, "rdb-path") \cup When(e.died = 1, "rdb-died")
      ELSE IF e.well # 1 THEN {"rdb-died"} ELSE When(e.p # w.path, "rdb-path")
BadWith(e) ==
  LET must == {f \in fs.files : Has(fs, f, e.as)}
      mustnt == {f \in fs.files : Contradicts(fs, f, e.as)}
  IN  IF e.well # 1 THEN {"rdb-died"}
      ELSE When(~(must \subseteq Found(e)), "rdb-missed") \cup When(Found(e) \cap mustnt # {} \/ ~(Found(e) \subseteq fs.files), "rdb-wrong") \cup
           When(Len(e.files) # Cardinality(Found(e)), "rdb-twice")
BadAttrs(e) == IF e.well # 1 THEN {"rdb-died"} ELSE When(e.got # PathAttrs(fs, e.p), "rdb-attrs")
Step ==
  /\ l <= Len(Ev) /\ l' = l + 1
  /\ LET e == Ev[l]
         now == CASE e.o = "path" -> DoPath(fs, e.as) [] e.o = "put" -> DoPut(fs, e.p) [] OTHER -> fs
         bad == CASE e.o = "path" -> BadPath(e) [] e.o = "with" -> BadWith(e) [] e.o = "attrs" -> BadAttrs(e) [] OTHER -> {}
     IN  /\ fs' = now
         /\ viol' = viol \cup bad \cup BadTree(now, e)
  /\ UNCHANGED <<r, done>>
Finish == /\ ~done /\ (l > Len(Ev) \/ viol # {}) /\ done' = TRUE /\ Verdict(R.id, viol) /\ UNCHANGED <<r, l, viol, fs>>
Next == (viol = {} /\ Step) \/ Finish
Spec == Init /\ [][Next]_<<r, l, viol, fs, done>>
=============================================================================
