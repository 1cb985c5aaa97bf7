---- MODULE Judge ----
(* Steps through a recorded trace of independent events; Bad(e) is the sequence of clauses the event e violates. *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANT Bad(_)
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES pos, bad
vars == <<pos, bad>>
Init == pos = 1 /\ bad = <<>>
Next == \/ /\ pos <= Len(Trace)
           /\ LET w == TLCEval(Bad(Trace[pos])) IN bad' = IF w = <<>> THEN bad ELSE Append(bad, [i |-> pos, why |-> w])
           /\ pos' = pos + 1
        \/ /\ pos = Len(Trace) + 1
           /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
           /\ pos' = pos + 1 /\ UNCHANGED bad
Spec == Init /\ [][Next]_vars
If(c, s) == IF c THEN <<s>> ELSE <<>>
====
