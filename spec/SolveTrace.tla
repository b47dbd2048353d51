----------------------------- MODULE SolveTrace ----------------------------
(* Recorded runs of the search algorithms on the bundled domains, against    *)
(* the rules of the domains: what is reported is a way from the start to a   *)
(* goal by legal moves, its cost is the sum of the costs of its moves, the   *)
(* report agrees with the run, and costs keep what the algorithm promises.   *)
(* R.sol holds the runs.  In one of them st are the states on the solution,  *)
(* steps its distinct steps <<from, to, result of the operator, cost>>, seq  *)
(* their order, and w the promised bound in halves (0: none).                *)
EXTENDS DomTrace

Found(S) == S.plen > 0
Limited(S) == S.expd >= S.lim
Twice(x, k) == <<k * x[1], k * x[2]>>
Near(S, x, y) == IF I.dom \in {"vis", "segs"} THEN Leq(x, Add(y, <<S.plen + 2, 0>>)) /\ Leq(y, Add(x, <<S.plen + 2, 0>>)) ELSE x = y
Total(S) == FoldLeft(LAMBDA acc, k : Add(acc, S.steps[k][4]), Zero, S.seq)

BadWay(S) ==
  IF ~Found(S) THEN When(S.nops # 0, "sol-ops") \cup When(~S.nocost, "sol-cost")
  ELSE IF \E j \in 1..Len(S.st) : ~ValidState(S.st[j]) THEN {"sol-state"}
  ELSE When(S.st[S.first] # R.proj[1], "sol-start") \cup
       When(~GoalAt(S.st[S.last]), "sol-goal") \cup
       When(S.nops # S.plen - 1 \/ ~S.offered \/ Len(S.seq) # S.plen - 1, "sol-ops") \cup
       When(\E j \in 1..Len(S.steps) : ~Back(S.st[S.steps[j][2]], S.st[S.steps[j][3]]), "sol-ops") \cup
       When(\E j \in 1..Len(S.steps) :
              LET s == S.st[S.steps[j][1]]  t == S.st[S.steps[j][2]]
              IN  ~\E w \in MayOf(s) \cup (IF Loose(s, t) THEN {<<Seen(t), <<1, 0>>>>} ELSE {}) :
                     w[1] = Seen(t) /\ SameCost(S.steps[j][4], w[2]), "sol-illegal") \cup
       When(S.offered /\ (S.nocost \/ ~Near(S, S.cost, Total(S))), "sol-cost")
(* estimates along the way, against what is left of it *)
BadAlong(S) ==
  LET go == FoldRight(LAMBDA k, acc : LET rest == Add(acc[1], S.steps[k][4])  h == S.hs[S.steps[k][1]]
                                      IN  <<rest, acc[2] /\ (Small(h) => Leq(h, Add(rest, Add(Slack, IF I.dom = "segs" THEN <<S.plen, 0>> ELSE Zero))))>>,
                      S.seq, <<Zero, TRUE>>)
  IN  When(Found(S) /\ ~go[2], "h-overestimates")
BadReport(S) ==
  When(S.len # S.plen \/ S.named # S.alg \/ S.rexpd # S.expd \/ S.rgend # S.gend \/ S.rdups # S.dups \/ S.rreopn # S.reopn
       \/ ~Near(S, S.h0, S.h) \/ ~Near(S, S.d0, S.d), "sol-report") \cup
  When(~S.replay, "sol-replay")

(* an upper bound of the least cost: the cheapest way seen *)
RECURSIVE Best(_, _)
Best(k, acc) == IF k = 0 THEN acc
                ELSE Best(k - 1, IF Found(R.sol[k]) THEN (IF acc = None THEN R.sol[k].cost ELSE LesserOf(acc, R.sol[k].cost)) ELSE acc)
Consistent == \/ I.dom \in {"tiles", "pancake"}
              \/ R.full /\ \A i \in Ids : \A t \in TS(i) : \A h \in HSet(i) : \A g \in HSet(t[1]) : Leq(h, Add(t[2], g))
BadCost(S, best) == When(Found(S) /\ S.w > 0 /\ ~Limited(S) /\ (S.cons => Consistent) /\ ~Leq(Twice(S.cost, 2), Add(Twice(best, S.w), Twice(Slack, 2))), "sol-dear")
BadNone(S, best, nodead) == When(~Found(S) /\ S.complete /\ ~Limited(S) /\ best # None /\ (S.rt => nodead), "sol-missed")

SolReasons ==
  LET GS == TLCEval({i \in Ids : ValidState(R.proj[i]) /\ GoalAt(R.proj[i])})
      D == Fix(TLCEval([i \in Ids |-> IF i \in GS THEN Zero ELSE None]))
      way == TLCEval(UNION {BadWay(R.sol[k]) \cup BadReport(R.sol[k]) : k \in 1..Len(R.sol)})
      best == TLCEval(Best(Len(R.sol), D[1]))
      nodead == R.full /\ \A i \in Ids : D[i] # None
  IN  IF ~Numbers THEN {"move-cost"} ELSE
      way \cup (IF way # {} THEN {} ELSE UNION {BadAlong(R.sol[k]) \cup BadCost(R.sol[k], best) \cup BadNone(R.sol[k], best, nodead) : k \in 1..Len(R.sol)})
SFinish == /\ ~done /\ done' = TRUE /\ Verdict(R.id, SolReasons) /\ UNCHANGED r
SSpec == Init /\ [][SFinish]_<<r, done>>
=============================================================================
