---- MODULE Gen_Session ----
(* Random histories: calls of the requests 1 .. Pool (solve, reconstruct, invalid ones), seeding, changes of results and arguments
   in place (kin: a request related to the previous one: same data or times but for some detail), and concurrent calls with a schedule (which thread runs for how many
   lines), or calls interrupted once by another call, at the places drawn (preempt).                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Pool, Steps
VARIABLES ops, st
RE(S) == RandomElement(S)
Kinds == <<"call", "call", "call", "call", "call", "call", "again", "again", "result", "args", "args", "seed", "threads", "preempt">>
Draw(x) == LET k == Kinds[RE(DOMAIN Kinds)] IN
  [k |-> k, r |-> RE(1 .. Pool), seed |-> RE(1 .. 3), back |-> RE(0 .. 2), form |-> RE({"plain", "view", "readonly", "strided"}), reuse |-> RE({TRUE, FALSE}), kin |-> RE({TRUE, FALSE}),
   rs |-> [i \in 1 .. RE({2, 3}) |-> RE(1 .. Pool)], at |-> [i \in 1 .. 10 |-> RE(1 .. 100000)], slice |-> [i \in 1 .. 24 |-> RE({1, 2, 3, 5, 8, 13, 40, 150, 600})]]
Init == ops = <<>> /\ st = 0
Next == \/ st < Steps /\ st' = st + 1 /\ ops' = TLCEval(Append(ops, Draw(st)))
        \/ st = Steps /\ st' = st + 1 /\ ops' = <<>> /\ PrintT("CASE " \o ToJson(ops))
Spec == Init /\ [][Next]_<<ops, st>>
====
