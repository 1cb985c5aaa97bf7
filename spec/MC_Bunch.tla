---- MODULE MC_Bunch ----
(* All histories of a small bunch: what the operations guarantee, as action properties; Mut: mutants of the update operations. *)
EXTENDS BunchSpec
CONSTANTS MaxOps, Mut
VARIABLES b, last, n
KS == {"kA", "kB"}
VS == {None, "v1"}
Pairs == {<<>>} \cup {<< <<k, v>> >> : k \in KS, v \in VS} \cup {<< <<"kB", v>>, <<"kC", w>> >> : v, w \in VS}
Ops == {[op |-> x, key |-> k, val |-> v, ps |-> <<>>, strict |-> FALSE] : x \in {"setitem", "getitem", "getattr", "delitem", "pop", "setdefault"}, k \in KS, v \in VS}
       \cup {[op |-> x, key |-> "kA", val |-> None, ps |-> p, strict |-> s] : x \in {"update", "values", "nones", "new", "pyfile"}, p \in Pairs, s \in {TRUE, FALSE}}
Eff(x, o) == LET r == Effect(x, o) IN
  IF Mut = "adds" /\ o.op = "values" /\ r.c = "ok" THEN Ok("", PutAll(x, o.ps))
  ELSE IF Mut = "partial" /\ o.op \in {"values", "nones"} /\ r.c = "KeyError" THEN Out("KeyError", "", PutAll(x, SelectSeq(o.ps, LAMBDA p : Has(x, p[1]))))
  ELSE IF Mut = "overwrites" /\ o.op = "nones" /\ r.c = "ok" THEN Ok("", PutAll(x, SelectSeq(o.ps, LAMBDA p : Has(x, p[1]))))
  ELSE r
Init == b = <<>> /\ n = 0 /\ last = [o |-> [op |-> "clear"], pre |-> <<>>, c |-> "ok"]
Next == /\ n < MaxOps
        /\ \E o \in Ops : LET r == Eff(b, o) IN b' = r.b /\ last' = [o |-> o, pre |-> b, c |-> r.c]
        /\ n' = n + 1
Spec == Init /\ [][Next]_<<b, last, n>>
Dictionary == \A i, j \in DOMAIN b : i # j => b[i][1] # b[j][1]
FailuresChangeNothing == last.c # "ok" => b = last.pre
NoNewKeys == last.o.op \in {"values", "nones"} => KeysOf(b) = KeysOf(last.pre)
OnlyNone == last.o.op = "nones" => \A k \in KeysOf(last.pre) : At(last.pre, k) # None => At(b, k) = At(last.pre, k)
StrictRefuses == (last.o.op \in {"values", "nones"} /\ last.o.strict /\ ~(KeysOf(last.o.ps) \subseteq KeysOf(last.pre))) => last.c = "KeyError"
Takes == (last.o.op \in {"update", "values", "pyfile"} /\ last.c = "ok") => \A i \in DOMAIN last.o.ps : Has(b, last.o.ps[i][1]) => At(b, last.o.ps[i][1]) = last.o.ps[i][2]
ShowsAll == KeysOf(Shown(b)) = KeysOf(b) /\ Len(Shown(b)) = Len(b)
====
