--------------------------- MODULE DatafileTrace ---------------------------
(* Data files: what was written, line by line, and what was read back.  Texts *)
(* are sequences of bytes.                                                    *)
EXTENDS TraceIO, FiniteSets, SequencesExt
VARIABLES r, done
R == Runs[r]
Init == r \in 1..Len(Runs) /\ done = FALSE
PAIR == <<35, 112, 97, 105, 114>>
COLS == <<35, 97, 108, 116, 99, 111, 108, 115>>
ROW == <<35, 97, 108, 116, 114, 111, 119>>
START == <<35, 115, 116, 97, 114, 116, 32, 100, 97, 116, 97, 32, 102, 105, 108, 101, 32, 102, 111, 114, 109, 97, 116, 32, 52>>
END == <<35, 101, 110, 100, 32, 100, 97, 116, 97, 32, 102, 105, 108, 101, 32, 102, 111, 114, 109, 97, 116, 32, 52>>
Quoted(s) == <<34>> \o s \o <<34>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* what reading a line should give *)
Tokens(e, is) == CASE is = "pair" -> <<PAIR, e.key, e.val>>
                   [] is = "cols" -> <<COLS, e.name>> \o [i \in 1..Len(e.cols) |-> e.name \o <<32>> \o e.cols[i]]
                   [] is = "row"  -> <<ROW, e.name>> \o e.vals
(* how a line is written *)
Line(e, is) == CASE is = "pair" -> PAIR \o <<32, 32>> \o Quoted(e.key) \o <<9>> \o Quoted(e.val) \o <<10>>
                 [] is = "cols" -> COLS \o <<32, 32>> \o Quoted(e.name) \o Flat([i \in 1..Len(e.cols) |-> <<9>> \o Quoted(e.name \o <<32>> \o e.cols[i])]) \o <<10>>
                 [] is = "row"  -> ROW \o <<32, 32>> \o Quoted(e.name) \o Flat([i \in 1..Len(e.vals) |-> <<9>> \o e.vals[i]]) \o <<10>>

HeadKeys == <<"wall start date", "wall start time", "machine id">>
(* match the read lines with what was written; header and footer are pairs *)
IsPair(t) == Len(t) = 3 /\ t[1] = PAIR
RECURSIVE Match(_, _)
Match(i, j) ==
  IF i > Len(R.ev) THEN When(j <= Len(R.saw), "df-stray")
  ELSE LET e == R.ev[i]
       IN CASE e.o \in {"text", "tried"} -> Match(i+1, j)
            [] e.o \in {"pair", "cols", "row"} -> IF j > Len(R.saw) THEN {"df-lost"}
                                                  ELSE When(R.saw[j] # Tokens(e, e.o), "df-changed") \cup Match(i+1, j+1)
            [] OTHER -> LET n == IF e.o = "head" THEN {3} ELSE {2, 3}     \* the footer's last pair depends on the system
                            after(k) == Match(i+1, j+k)
                        IN  IF \E k \in n : j + k - 1 <= Len(R.saw) /\ (\A m \in 0..(k-1) : IsPair(R.saw[j+m])) /\ after(k) = {}
                            THEN {}
                            ELSE IF j + 1 > Len(R.saw) THEN {"df-lost"} ELSE UNION {IF j + k - 1 <= Len(R.saw) THEN after(k) ELSE {"df-lost"} : k \in n}

Plain(l) == IF l # <<>> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l
BadEcho == When(R.echoing /\ [i \in 1..Len(R.echo) |-> Plain(R.echo[i])] # [i \in 1..Len(R.lines) |-> Plain(R.lines[i])], "df-echo") \cup
           When(~R.echoing /\ R.echo # <<>>, "df-echo")
Complete == Len(R.part) >= 2 /\ Plain(R.part[1]) = START /\ Plain(R.part[Len(R.part)]) = END
BadComplete == When((R.rc = 0) # Complete, "df-complete")
(* a line too long for its writer may be refused, but not spoilt *)
BadTried == UNION {LET e == R.ev[i] IN When(e.o = "tried" /\ (e.did.died = 1 \/ IF e.did.well = 1 THEN e.did.text # Line(e, e.is) ELSE e.did.text # <<>>), "df-spoilt")
                   : i \in 1..Len(R.ev)}
BadBad == UNION {When(R.bad[i].died = 1 \/ R.bad[i].well = 1, "df-malformed") : i \in 1..Len(R.bad)}
(* attributes join the data before its first pair, unless they are there *)
HasPair(l) == Len(l) >= 5 /\ SubSeq(l, 1, 5) = PAIR
There == {R.saw[i][2] : i \in {j \in 1..Len(R.saw) : R.saw[j][1] = PAIR /\ Len(R.saw[j]) > 1}}
New == SelectSeq(R.adds, LAMBDA a : a[1] \notin There)
Grown == LET at == {i \in 1..Len(R.lines) : HasPair(R.lines[i])}
             p == CHOOSE i \in at : \A j \in at : i <= j
             ls == [i \in 1..Len(R.lines) |-> Plain(R.lines[i])]
             pair(a) == PAIR \o <<32, 32>> \o Quoted(a[1]) \o <<9>> \o Quoted(a[2])
         IN  IF at = {} THEN ls ELSE SubSeq(ls, 1, p - 1) \o [i \in 1..Len(New) |-> pair(New[i])] \o SubSeq(ls, p, Len(ls))
BadGrown == When(R.added.well # 1 \/ R.grown # (IF R.adds = <<>> THEN R.lines ELSE Grown), "df-added")
(* every line ends where it should *)
Finish == /\ ~done /\ done' = TRUE /\ Verdict(R.id, Match(1, 1) \cup BadEcho \cup BadComplete \cup BadTried \cup BadBad \cup BadGrown) /\ UNCHANGED r
Spec == Init /\ [][Finish]_<<r, done>>
=============================================================================
