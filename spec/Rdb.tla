-------------------------------- MODULE Rdb --------------------------------
(* The results database: a directory tree, fs = [dirs, key, files], in which  *)
(* some directories carry a key, whose value names each entry below.  Paths   *)
(* are sequences of names from the root; attributes are sequences of          *)
(* key-value pairs with distinct keys.                                        *)
EXTENDS Naturals, Sequences, FiniteSets
Missing == "UNSPECIFIED"
KeysOf(as) == {as[i][1] : i \in 1..Len(as)}
ValueOf(as, k) == LET i == CHOOSE i \in 1..Len(as) : as[i][1] = k IN as[i][2]
Without(as, k) == SelectSeq(as, LAMBDA a : a[1] # k)
AsSet(as) == {as[i] : i \in 1..Len(as)}
Empty(there) == [dirs |-> IF there THEN {<<>>} ELSE {}, key |-> <<>>, files |-> {}]

(* where the given attributes live, and which directories must be made first *)
RECURSIVE Walk(_, _, _)
Walk(fs, p, as) ==
  IF as = <<>> THEN [ok |-> TRUE, path |-> p, rest |-> <<>>, at |-> p]
  ELSE IF p \in fs.files THEN [ok |-> FALSE, path |-> p, rest |-> as, at |-> p]
  ELSE IF p \in fs.dirs /\ p \in DOMAIN fs.key THEN
       LET k == fs.key[p]
       IN  IF k \in KeysOf(as) THEN Walk(fs, Append(p, ValueOf(as, k)), Without(as, k))
           ELSE Walk(fs, Append(p, Missing), as)
  ELSE [ok |-> TRUE, path |-> p \o [i \in 1..Len(as) |-> as[i][2]], rest |-> as, at |-> p]
PathFor(fs, as) == Walk(fs, <<>>, as)
DoPath(fs, as) ==
  LET w == PathFor(fs, as)
      Below(n) == w.at \o [i \in 1..n |-> w.rest[i][2]]
      new == IF w.ok THEN {Below(n) : n \in 0..(Len(w.rest) - 1)} ELSE {}
      depth(p) == Len(p) - Len(w.at)
  IN  [fs EXCEPT !.dirs = @ \cup new,
                 !.key = [p \in DOMAIN fs.key \cup new |-> IF p \in DOMAIN fs.key THEN fs.key[p] ELSE w.rest[depth(p) + 1][1]]]
DoPut(fs, p) == IF p \in fs.dirs THEN fs ELSE [fs EXCEPT !.files = @ \cup {p}]

Prefix(p, n) == SubSeq(p, 1, n)
(* the attributes a path spells out *)
PathAttrs(fs, p) == IF p \in fs.files \cup fs.dirs THEN [i \in 1..Len(p) |-> <<fs.key[Prefix(p, i - 1)], p[i]>>] ELSE <<>>
Given(fs, p) == {a \in AsSet(PathAttrs(fs, p)) : a[2] # Missing}
Has(fs, f, as) == \A a \in AsSet(as) : a \in AsSet(PathAttrs(fs, f))
Contradicts(fs, f, as) == \E a \in AsSet(as) : \E b \in AsSet(PathAttrs(fs, f)) : a[1] = b[1] /\ a[2] # b[2]
(* every entry of the tree, key files included *)
Entries(fs) == {<<p, "d">> : p \in fs.dirs \ {<<>>}} \cup {<<p, "f">> : p \in fs.files} \cup {<<Append(p, "KEY=" \o fs.key[p]), "f">> : p \in DOMAIN fs.key}
=============================================================================
