---- MODULE SJudge ----
(* Steps through recorded sessions: a stateful monitor.  Step(st, e) gives the monitor's next state and the clauses the event
   violates, [st |-> ..., why |-> <<...>>]; an event with first = TRUE starts a session from Start(e).                        *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS Start(_), Step(_, _)
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES pos, bad, mon
vars == <<pos, bad, mon>>
Init == pos = 1 /\ bad = <<>> /\ mon = <<>>
Next == \/ /\ pos <= Len(Trace)
           /\ LET e == Trace[pos]
                  r == TLCEval(Step(IF e.first THEN Start(e) ELSE mon, e))
              IN  /\ mon' = r.st
                  /\ bad' = IF r.why = <<>> THEN bad ELSE Append(bad, [i |-> pos, why |-> r.why])
           /\ pos' = pos + 1
        \/ /\ pos = Len(Trace) + 1
           /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
           /\ pos' = pos + 1 /\ UNCHANGED <<bad, mon>>
Spec == Init /\ [][Next]_vars
If(c, s) == IF c THEN <<s>> ELSE <<>>
====
