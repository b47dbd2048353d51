------------------------------- MODULE Codec -------------------------------
(* Text encodings of byte strings, and ranks of arrangements.  Bytes and      *)
(* characters are numbers.                                                    *)
EXTENDS Integers, Sequences, SequencesExt, TLC

(* ---- run lengths: n < 128: n+1 literal bytes; else 257-n times the next *)
RECURSIVE RlDecAt(_, _, _)
RlDecAt(e, i, acc) ==
  IF i > Len(e) THEN acc
  ELSE IF e[i] < 128 THEN RlDecAt(e, i + e[i] + 2, acc \o SubSeq(e, i + 1, i + e[i] + 1))
  ELSE RlDecAt(e, i + 2, acc \o [k \in 1..(257 - e[i]) |-> e[i+1]])
RlDec(e) == RlDecAt(e, 1, <<>>)
RECURSIVE RlWellAt(_, _)
RlWellAt(e, i) == IF i = Len(e) + 1 THEN TRUE
                  ELSE IF i > Len(e) THEN FALSE
                  ELSE IF e[i] < 128 THEN e[i] < 127 /\ RlWellAt(e, i + e[i] + 2)
                  ELSE e[i] > 129 /\ RlWellAt(e, i + 2)
RlWell(e) == RlWellAt(e, 1)

(* ---- base 64 *)
LOCAL Digit64(d) == CASE d < 26 -> 65 + d [] d < 52 -> 97 + d - 26 [] d < 62 -> 48 + d - 52 [] d = 62 -> 43 [] OTHER -> 47
LOCAL Value64(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 97 + 26 [] c \in 48..57 -> c - 48 + 52 [] c = 43 -> 62 [] OTHER -> 63
LOCAL At(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
B64Enc(d) == [k \in 1..(4 * ((Len(d) + 2) \div 3)) |->
  LET i == 3 * ((k - 1) \div 4)
      w == At(d, i+1) * 65536 + At(d, i+2) * 256 + At(d, i+3)
      p == (k - 1) % 4
  IN  IF i + p > Len(d) THEN 61 ELSE Digit64((w \div (CASE p = 0 -> 262144 [] p = 1 -> 4096 [] p = 2 -> 64 [] OTHER -> 1)) % 64)]
B64Dec(t) == LET pad == Len(SelectSeq(t, LAMBDA c : c = 61))
             IN  [k \in 1..(3 * (Len(t) \div 4) - pad) |->
                    LET i == 4 * ((k - 1) \div 3)
                        v(j) == IF t[i+j] = 61 THEN 0 ELSE Value64(t[i+j])
                        w == v(1) * 262144 + v(2) * 4096 + v(3) * 64 + v(4)
                    IN  (w \div (CASE (k - 1) % 3 = 0 -> 65536 [] (k - 1) % 3 = 1 -> 256 [] OTHER -> 1)) % 256]

(* ---- ASCII 85: the five digits of four bytes, by long division *)
LOCAL Div85(b) == LET q1 == b[1] \div 85
                      r1 == (b[1] % 85) * 256 + b[2]
                      r2 == (r1 % 85) * 256 + b[3]
                      r3 == (r2 % 85) * 256 + b[4]
                  IN  <<<<q1, r1 \div 85, r2 \div 85, r3 \div 85>>, r3 % 85>>
RECURSIVE Digits85(_, _)
Digits85(b, n) == IF n = 0 THEN <<>> ELSE LET d == Div85(b) IN Append(Digits85(d[1], n - 1), d[2] + 33)
RECURSIVE A85At(_, _, _)
A85At(d, i, acc) ==
  LET n == Len(d) - i + 1
      w == Digits85(<<At(d, i), At(d, i+1), At(d, i+2), At(d, i+3)>>, 5)
  IN  IF n <= 0 THEN acc
      ELSE IF n < 4 THEN acc \o SubSeq(w, 1, n + 1)
      ELSE A85At(d, i + 4, acc \o (IF SubSeq(d, i, i + 3) = <<0, 0, 0, 0>> THEN <<122>> ELSE w))
A85Enc(d) == A85At(d, 1, <<>>)

(* ---- the place of p, some of 0..n-1 in some order, among all such *)
Rank(n, p) == FoldLeft(LAMBDA acc, i : acc * (n + 1 - i) + p[i] - Len(SelectSeq(SubSeq(p, 1, i-1), LAMBDA x : x < p[i])), 0, [i \in 1..Len(p) |-> i])
RECURSIVE Arrangements(_, _)
Arrangements(n, k) == IF k = 0 THEN 1 ELSE n * Arrangements(n - 1, k - 1)
=============================================================================
