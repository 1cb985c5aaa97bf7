---- MODULE MC_Session ----
(* A session of calls as a machine over shared objects: the library's tables and default options, numpy's random state, the caller's
   arguments, and the results it holds.  A call reads its arguments, the tables, the defaults (and, for Monte Carlo, the random state)
   and makes a result of its own objects.  The caller may change arguments and results in place between calls.
   Fault: a defect (mutants):  sharesTable, sharesDefault, sharesArg: a result refers to that object instead of a copy;
   writesTable, writesArg: a call changes it in place; draws: an ordinary call draws random numbers; caches: a call keeps the outcome
   for a latitude and reuses it for other arguments; half: a failing call leaves its temporary change of the defaults behind.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Fault, MaxCalls
Args == {1, 2}
VARIABLES tab, dflt, rng, arg, res, cache, last, n
vars == <<tab, dflt, rng, arg, res, cache, last, n>>
Init == /\ tab = 0 /\ dflt = 0 /\ rng = 0 /\ arg = [a \in Args |-> 0] /\ res = <<>> /\ cache = 0 /\ n = 0
        /\ last = [k |-> "none"]
(* what the call would give alone in a fresh process *)
Alone(kind, a, v, s) == <<kind, a, v, 0, 0, IF kind = "mc" THEN s ELSE 0>>
Outcome(kind, a) == IF Fault = "caches" /\ cache # 0 THEN <<kind, cache, arg[a], tab, dflt, IF kind = "mc" THEN rng ELSE 0>>
                    ELSE <<kind, a, arg[a], tab, dflt, IF kind = "mc" THEN rng ELSE 0>>
Refers(a) == IF Fault = "sharesTable" THEN {"tab"} ELSE IF Fault = "sharesDefault" THEN {"dflt"} ELSE IF Fault = "sharesArg" THEN {"arg"} ELSE {}
Call(kind, a) ==
  /\ n < MaxCalls /\ n' = n + 1
  /\ last' = [k |-> "call", kind |-> kind, out |-> Outcome(kind, a), alone |-> Alone(kind, a, arg[a], rng), rng0 |-> rng, arg0 |-> arg, res0 |-> res]
  /\ res' = Append(res, [val |-> Outcome(kind, a), refs |-> Refers(a), a |-> a, mine |-> 0])
  /\ rng' = IF kind = "mc" \/ Fault = "draws" THEN rng + 1 ELSE rng
  /\ tab' = IF Fault = "writesTable" THEN tab + 1 ELSE tab
  /\ arg' = IF Fault = "writesArg" THEN [arg EXCEPT ![a] = @ + 1] ELSE arg
  /\ cache' = IF Fault = "caches" /\ cache = 0 THEN a ELSE cache
  /\ UNCHANGED dflt
Fail(a) ==
  /\ n < MaxCalls /\ n' = n + 1
  /\ last' = [k |-> "fail", rng0 |-> rng, arg0 |-> arg, res0 |-> res]
  /\ dflt' = IF Fault = "half" THEN 1 ELSE dflt
  /\ UNCHANGED <<tab, rng, arg, res, cache>>
(* the value of a held result, as seen now *)
Now(r) == IF "arg" \in r.refs THEN <<r.val, arg[r.a]>> ELSE <<r.val, r.val[3]>>
ChangeArg(a) ==
  /\ n < MaxCalls /\ n' = n + 1 /\ arg' = [arg EXCEPT ![a] = @ + 1]
  /\ last' = [k |-> "changeArg", rng0 |-> rng, before |-> [i \in DOMAIN res |-> Now(res[i])]]
  /\ UNCHANGED <<tab, dflt, rng, res, cache>>
ChangeResult(i) ==
  /\ n < MaxCalls /\ n' = n + 1
  /\ res' = [res EXCEPT ![i].mine = 1]
  /\ tab' = IF "tab" \in res[i].refs THEN tab + 1 ELSE tab
  /\ dflt' = IF "dflt" \in res[i].refs THEN 1 ELSE dflt
  /\ last' = [k |-> "changeResult", rng0 |-> rng]
  /\ UNCHANGED <<rng, arg, cache>>
Seed == rng' \in {0, 7} /\ last' = [k |-> "seed"] /\ n < MaxCalls /\ n' = n + 1 /\ UNCHANGED <<tab, dflt, arg, res, cache>>
Next == (\E a \in Args : Call("ols", a) \/ Call("mc", a) \/ Fail(a) \/ ChangeArg(a)) \/ (\E i \in DOMAIN res : ChangeResult(i)) \/ Seed
Spec == Init /\ [][Next]_vars
CallsIndependent == last.k = "call" => last.out = last.alone
ArgsKept == last.k \in {"call", "fail"} => arg = last.arg0
ResultsKept == last.k = "changeArg" => \A i \in DOMAIN res : Now(res[i]) = last.before[i]
RandomKept == (last.k = "fail" \/ last.k = "changeResult" \/ (last.k = "call" /\ last.kind = "ols")) => rng = last.rng0
TablesKept == tab = 0 /\ dflt = 0
====
