------------------------------- MODULE MCHash -------------------------------
(* The intrusive chained hash table, every history of N elements with every  *)
(* assignment of keys and hash values, growing from one bin.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Ks, Hashes, Fact, Maxbins
VARIABLES keyof, hash, bins, nbins, nxt, fill, S
vars == <<keyof, hash, bins, nbins, nxt, fill, S>>
E == 1..N
B(e, n) == hash[keyof[e]] % n
RECURSIVE Chain(_, _, _)
Chain(x, e, k) == IF e = 0 \/ k = 0 THEN <<>> ELSE <<e>> \o Chain(x, x[e], k-1)
Init == /\ keyof \in [E -> Ks] /\ hash \in [Ks -> Hashes] /\ nbins = 1 /\ bins = [i \in 0..Maxbins-1 |-> 0]
        /\ nxt = [e \in E |-> 0] /\ fill = 0 /\ S = {}
(* a table <<bins, nxt>> with e put at the head of its bin *)
Link(t, n, e) == <<[t[1] EXCEPT ![B(e, n)] = e], [t[2] EXCEPT ![e] = t[1][B(e, n)]]>>
RECURSIVE Relink(_, _, _)
Relink(t, n, es) == IF es = <<>> THEN t ELSE Relink(Link(t, n, Head(es)), n, Tail(es))
RECURSIVE All(_)
All(i) == IF i = nbins THEN <<>> ELSE Chain(nxt, bins[i], N+1) \o All(i+1)
Add(e) ==
  /\ e \notin S
  /\ LET n == IF fill * Fact >= nbins /\ 2 * nbins <= Maxbins THEN 2 * nbins ELSE nbins
         t == IF n = nbins THEN <<bins, nxt>> ELSE Relink(<<[i \in 0..Maxbins-1 |-> 0], nxt>>, n, All(0))
         u == Link(t, n, e)
     IN nbins' = n /\ bins' = u[1] /\ nxt' = u[2]
  /\ fill' = fill + 1 /\ S' = S \cup {e} /\ UNCHANGED <<keyof, hash>>
Find(k) == LET c == Chain(nxt, bins[hash[k] % nbins], N+1)
               I == {i \in 1..Len(c) : keyof[c[i]] = k}
           IN IF I = {} THEN 0 ELSE c[CHOOSE i \in I : \A j \in I : i <= j]
Rm(k) ==
  LET c == Chain(nxt, bins[hash[k] % nbins], N+1)
      e == Find(k)
  IN /\ e # 0
     /\ IF c[1] = e THEN bins' = [bins EXCEPT ![hash[k] % nbins] = nxt[e]] /\ UNCHANGED nxt
        ELSE LET i == CHOOSE i \in 1..Len(c) : c[i] = e IN nxt' = [nxt EXCEPT ![c[i-1]] = nxt[e]] /\ UNCHANGED bins
     /\ fill' = fill - 1 /\ S' = S \ {e} /\ UNCHANGED <<keyof, hash, nbins>>
Clear == /\ S # {} /\ bins' = [i \in 0..Maxbins-1 |-> 0] /\ fill' = 0 /\ S' = {} /\ UNCHANGED <<keyof, hash, nbins, nxt>>
Next == Clear \/ (\E e \in E : Add(e)) \/ \E k \in Ks : Rm(k)
Spec == Init /\ [][Next]_vars
Counted == fill = Cardinality(S)
Chained == LET c == All(0) IN Len(c) = Cardinality(S) /\ {c[i] : i \in 1..Len(c)} = S
FindsRight == \A k \in Ks : LET W == {e \in S : keyof[e] = k} IN IF W = {} THEN Find(k) = 0 ELSE Find(k) \in W
=============================================================================
