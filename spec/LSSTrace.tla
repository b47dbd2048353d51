------------------------------ MODULE LSSTrace ------------------------------
(* Validates recorded real-time searches against LSS.  Runs of algorithms    *)
(* that LSS does not describe step by step (R.exact = FALSE) and the part of *)
(* a run after the specification leaves a choice open that it cannot follow  *)
(* (learning with a reopened state) are checked loosely: every state is      *)
(* expanded once, after it was generated, with all of its operators.         *)
EXTENDS TraceIO, Graphs
VARIABLES l, viol, seen
VARIABLES pid, agent, h, expd, g, f, par, open, closed, pops, goal, now, todo, moves, lens, cnt, status
mvars == <<pid, agent, h, expd, g, f, par, open, closed, pops, goal, now, todo, moves, lens, cnt, status>>
NR == Len(Runs)
RG(r) == Graphs[Runs[r].gid]
TheProblem(r) == [G |-> RG(r), look |-> Runs[r].look, onestep |-> Runs[r].onestep, complete |-> Runs[r].complete,
                  w2 |-> Runs[r].w2, limE |-> Runs[r].limE, limG |-> Runs[r].limG, limT |-> Runs[r].limT]
L == INSTANCE LSS WITH Problem <- TheProblem
Facts == TLCEval([i \in {Runs[r].gid : r \in 1..NR} |->
            [toGoal |-> DistToGoal(Graphs[i]), dup |-> \E n \in Nodes(Graphs[i]) :
                \E a, b \in OpsOf(Graphs[i], n) : a # b /\ Dst(Graphs[i], n, a) = Dst(Graphs[i], n, b)]])
R == Runs[pid]
G == RG(pid)
F == Facts[R.gid]
Ev == R.ev
AllReach == \A i \in Nodes(G) : F.toGoal[i] < INF

Init == /\ l = 1 /\ viol = {}
        /\ \E r \in 1..NR : L!InitProblem(r)
        /\ seen = [known |-> {G.start}, expd |-> {}, cur |-> 0, todo |-> {}, exp |-> 0, gen |-> 0, lax |-> ~R.exact]
Stopped == l > Len(Ev)
Lax(why) == /\ viol' = viol \cup why /\ seen' = [seen EXCEPT !.lax = TRUE] /\ UNCHANGED <<l, mvars>>

(* loose reading of one event; the replay of the path at the end of a run    *)
(* applies operators again and is not part of the search                     *)
LooseBad(e) ==
  IF ~R.once THEN {}
  ELSE IF e[1] = 1 THEN When(seen.todo # {}, "gen-missing") \cup When(e[2] \notin seen.known, "expand-notopen")
                   \cup When(e[2] \in seen.expd, "lss-twice")
                   \cup When(R.limE > 0 /\ seen.exp >= R.limE, "limit-overrun")
                   \cup When(R.limT > 0 /\ seen.exp + seen.gen >= R.limT, "limit-overrun")
  ELSE When(seen.todo # {} /\ (e[2] # seen.cur \/ e[3] \notin seen.todo), "gen-stray")
LooseNext(e) ==
  seen' = IF e[1] = 1 THEN [seen EXCEPT !.expd = @ \cup {e[2]}, !.cur = e[2], !.todo = OpsOf(G, e[2]), !.exp = @ + 1]
          ELSE [seen EXCEPT !.known = @ \cup {e[4]}, !.todo = @ \ {e[3]},
                            !.gen = IF ~R.once \/ seen.todo # {} THEN @ + 1 ELSE @]

Follow == status = "search" /\ ~seen.lax
Consume == l' = l + 1 /\ viol' = viol \cup LooseBad(Ev[l]) /\ LooseNext(Ev[l])
Silent == UNCHANGED <<l, viol, seen>>
IsExpand(n) == ~Stopped /\ Ev[l][1] = 1 /\ Ev[l][2] = n

Exact ==
  IF now # 0
  THEN IF todo # {}
       THEN IF ~Stopped /\ Ev[l][1] = 2 /\ Ev[l][2] = now /\ Ev[l][3] \in todo
            THEN Consume /\ L!DoGenerate(Ev[l][3])
            ELSE Lax({"gen-missing"})
       ELSE \E gl \in L!GoalsAfter : Silent /\ L!DoRelax(gl)
  ELSE IF L!Over
  THEN Silent /\ L!DoStop("done")
  ELSE IF L!Searching
  THEN LET good == {n \in L!BestOf(open) : n \in expd \/ IsExpand(n)} IN
       IF good = {} THEN Lax({"lss-order"})
       ELSE \E n \in good : L!DoPop(n) /\ IF n \in expd THEN Silent ELSE Consume
  ELSE IF goal = 0 /\ L!Ambiguous
  THEN Lax({})
  ELSE IF Len(lens) > R.lens[1] + 1
  THEN Lax({"lss-lengths"})   \* far more steps than reported
  ELSE IF R.path = <<>> /\ Len(lens) > 25
  THEN Lax({})   \* no path to tell the choices between ties apart: too many to follow
  ELSE LET may == {n \in L!Dests : R.path = <<>> \/ IsPrefix(moves \o L!StepTo(n), R.path)} IN
       IF may = {} THEN Lax({"lss-moves"})
       ELSE \E n \in may : Silent /\ L!DoMove(n)

RCost == IF IsWalk(G, R.path, R.ops) THEN WalkCost(G, R.path, R.ops) ELSE -1
ExactDone == status = "done" /\ ~seen.lax
BadResult ==
  When(R.runaway, "runaway") \cup
  (IF R.runaway THEN {} ELSE
  (IF R.path = <<>>
   THEN When(R.ops # <<>>, "path-broken") \cup
        When(~(R.limE > 0 /\ R.expd >= R.limE) /\ ~(R.limG > 0 /\ R.gend >= R.limG)
             /\ ~(R.limT > 0 /\ R.expd + R.gend >= R.limT) /\ AllReach, "missed-solution") \cup
        When(ExactDone /\ L!Arrived, "missed-solution")
   ELSE IF ~IsWalk(G, R.path, R.ops) THEN {"path-broken"}
   ELSE When(R.path[1] # G.start, "path-start") \cup
        When(~Goal(G, R.path[Len(R.path)]), "path-goal") \cup
        When(ExactDone /\ R.path # moves, "lss-moves")) \cup
  When(~seen.lax /\ status # "done", "lss-order") \cup
  When(ExactDone /\ R.dups # cnt.dups /\ ~F.dup, "stat-dups") \cup
  When(ExactDone /\ R.lens # <<Len(lens), IF lens = <<>> THEN 0 ELSE Min(Range(lens)), IF lens = <<>> THEN 0 ELSE Max(Range(lens))>>, "lss-lengths") \cup
  When(R.alg # "rtastar" /\ R.path # <<>> /\ ~(R.lens[1] * R.lens[2] <= Len(R.ops) /\ Len(R.ops) <= R.lens[1] * R.lens[3]), "lss-lengths") \cup
  When(R.alg # "rtastar" /\ R.onestep /\ (R.lens[3] > 1 \/ (R.path # <<>> /\ R.lens[1] # Len(R.ops))), "lss-lengths") \cup
  When(R.alg # "rtastar" /\ R.look > 0 /\ R.expd > (R.lens[1] + 1) * R.look, "lss-lookahead") \cup
  When(R.once /\ R.expd # seen.exp, "stat-expd") \cup
  When(R.once /\ R.gend # seen.gen, "stat-gend") \cup
  When(~R.once /\ R.expd # seen.exp, "stat-expd") \cup
  When(~R.once /\ R.gend # seen.gen - Len(R.ops), "stat-gend") \cup
  When(R.rep # <<R.expd, R.gend, R.dups, R.reopn, Len(R.path)>>, "stat-report"))

Step == /\ status # "verdict"
        /\ \/ Follow /\ Exact
           \/ /\ ~Follow /\ ~Stopped
              /\ Consume /\ UNCHANGED mvars
Finish == /\ status # "verdict" /\ ~Follow /\ Stopped
          /\ LET v == viol \cup BadResult IN viol' = v /\ Verdict(R.id, v)
          /\ L!DoStop("verdict") /\ UNCHANGED <<l, seen>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<l, viol, seen, mvars>>
=============================================================================
