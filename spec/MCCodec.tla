------------------------------ MODULE MCCodec -------------------------------
(* The encodings lose nothing, over all short byte strings, and ranks number  *)
(* the arrangements.                                                          *)
EXTENDS Codec, FiniteSets
CONSTANTS Bytes, MaxLen, MaxN
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Bytes : s' = Append(s, b)
Spec == Init /\ [][Next]_s
Base64Back == B64Dec(B64Enc(s)) = s
Base64Text == Len(B64Enc(s)) = 4 * ((Len(s) + 2) \div 3)
(* a greedy run-length encoding *)
RECURSIVE RunAt(_, _)
RunAt(d, i) == IF i < Len(d) /\ d[i+1] = d[i] THEN 1 + RunAt(d, i + 1) ELSE 1
RECURSIVE RlEncAt(_, _, _, _)
RlEncAt(d, i, lit, acc) ==
  LET flush == IF lit = <<>> THEN <<>> ELSE <<Len(lit) - 1>> \o lit
  IN  IF i > Len(d) THEN acc \o flush
      ELSE LET n == RunAt(d, i) IN IF n < 3 THEN RlEncAt(d, i + 1, Append(lit, d[i]), acc) ELSE RlEncAt(d, i + n, <<>>, acc \o flush \o <<257 - n, d[i]>>)
RunsBack == LET e == RlEncAt(s, 1, <<>>, <<>>) IN RlWell(e) /\ RlDec(e) = s
(* different strings of one length have different texts: the next byte shows *)
Ascii85Apart == Len(s) < MaxLen => Cardinality({A85Enc(Append(s, b)) : b \in Bytes}) = Cardinality(Bytes)
Perms(n, k) == {p \in [1..k -> 0..(n-1)] : Cardinality({p[i] : i \in 1..k}) = k}
Ranks == s = <<>> => \A n \in 1..MaxN : \A k \in 1..n : LET A == Perms(n, k) IN {Rank(n, p) : p \in A} = 0..(Cardinality(A) - 1) /\ Cardinality(A) = Arrangements(n, k)
=============================================================================
