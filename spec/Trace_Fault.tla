---- MODULE Trace_Fault ----
(* C06: a recorded request, the faults it has, and its outcome ("result" or an exception class, with its base classes). *)
EXTENDS Request, Judge
Set(s) == {s[i] : i \in 1 .. Len(s)}
Allowed(e) == IF e.call = "solve" THEN Refusal(Set(e.faults)) ELSE UNION {ReconFaultOutcome[f] : f \in Set(e.faults)}
FaultBad(e) == IF Set(e.faults) = {} THEN If(e.outcome # <<"result">>, e.call \o ": a valid request was refused: " \o e.err)
               ELSE If(e.outcome = <<"result">>, e.call \o ": a result for an invalid request " \o ToString(Set(e.faults)))
                    \o If(e.outcome # <<"result">> /\ Set(e.outcome) \cap Allowed(e) = {}, e.call \o ": " \o ToString(Set(e.faults)) \o " raised " \o e.err)
====
