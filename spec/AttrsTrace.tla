----------------------------- MODULE AttrsTrace -----------------------------
(* Attribute lists: queues of key-value pairs with distinct keys, and their   *)
(* reading from arguments.                                                    *)
EXTENDS TraceIO, Rdb
VARIABLES r, l, viol, q, done
R == Runs[r]
Ev == R.ev
Init == r \in 1..Len(Runs) /\ l = 1 /\ viol = {} /\ q = <<>> /\ done = FALSE
Mem(k) == k \in KeysOf(q)
RECURSIVE Text(_)
Text(as) == IF as = <<>> THEN "" ELSE (as[1][1] \o "=" \o as[1][2]) \o (IF Len(as) > 1 THEN " " \o Text(Tail(as)) ELSE "")
(* each argument is <<has an equals sign, what is before it, what is after>> *)
RECURSIVE Words(_)
Words(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Words(Tail(ws))
RECURSIVE Parse(_, _, _)
Parse(args, words, as) ==
  IF args = <<>> THEN as
  ELSE LET a == Head(args)
       IN  IF a[1] = 0 THEN Parse(Tail(args), Append(words, a[2]), as)
           ELSE LET k == Words(IF a[2] = "" THEN words ELSE Append(words, a[2]))
                IN  Parse(Tail(args), <<>>, IF k \in KeysOf(as) THEN as ELSE Append(as, <<k, a[3]>>))
Step ==
  /\ l <= Len(Ev) /\ l' = l + 1
  /\ LET e == Ev[l]
         bad == CASE e.o \in {"back", "front"} -> When(e.got = Mem(e.k), "attrs-push")
                  [] e.o = "rm" -> When(e.got # Mem(e.k), "attrs-rm")
                  [] e.o = "pop" -> When(q = <<>> \/ e.got # q[1][1], "attrs-pop")
                  [] e.o = "mem" -> When(e.got # Mem(e.k), "attrs-mem")
                  [] e.o = "lookup" -> When(~Mem(e.k) \/ e.got # ValueOf(q, e.k), "attrs-lookup")
                  [] e.o = "string" -> When(e.got # Text(q), "attrs-string")
                  [] e.o = "keys" -> When(e.n # Len(q) \/ e.got # [i \in 1..Len(q) |-> q[i][1]], "attrs-keys")
                  [] e.o = "args" -> When(e.got # Parse(e.args, <<>>, <<>>), "attrs-args")
     IN  /\ viol' = viol \cup bad
         /\ q' = CASE e.o = "back" /\ ~Mem(e.k) -> Append(q, <<e.k, e.v>>)
                   [] e.o = "front" /\ ~Mem(e.k) -> <<<<e.k, e.v>>>> \o q
                   [] e.o = "rm" -> Without(q, e.k)
                   [] e.o = "pop" /\ q # <<>> -> Tail(q)
                   [] OTHER -> q
  /\ UNCHANGED <<r, done>>
Finish == /\ ~done /\ (l > Len(Ev) \/ viol # {}) /\ done' = TRUE /\ Verdict(R.id, viol) /\ UNCHANGED <<r, l, viol, q>>
Next == (viol = {} /\ Step) \/ Finish
Spec == Init /\ [][Next]_<<r, l, viol, q, done>>
=============================================================================
