---- MODULE MC_Recon ----
(* Laws of the inclusion rule over all small solutions and requests. *)
EXTENDS Recon
Names == <<"M2", "S2", "K1">>
V == {FlZero, FlOf(1), FlOf(2), FlOf(30)}
VARIABLES rows, req, st
vars == <<rows, req, st>>
Init == st = 0 /\ req = <<>> /\ rows \in {<<>>}
Next == \/ st = 0 /\ st' = 1 /\ UNCHANGED req
           /\ \E pe \in [1 .. 3 -> V], snr \in [1 .. 3 -> V] : rows' = [i \in 1 .. 3 |-> [n |-> Names[i], pe |-> pe[i], snr |-> snr[i]]]
        \/ st = 1 /\ st' = 2 /\ UNCHANGED rows
           /\ \E ci \in BOOLEAN, g \in BOOLEAN, w \in {{}, {"M2"}, {"K1", "Q1"}, {"M2", "S2", "K1"}}, a \in V, b \in V :
                req' = [ci |-> ci, g |-> g, w |-> w, snr |-> a, pe |-> b]
Spec == Init /\ [][Next]_vars
Inc(r) == Included(rows, r.g, r.w, r.snr, r.pe, r.ci)
AtRequest == st = 2
NamedExactly == (AtRequest /\ req.g) => {rows[i].n : i \in Inc(req)} = req.w \cap {Names[i] : i \in 1 .. 3}
ThresholdsIrrelevantWhenNamed == (AtRequest /\ req.g) => \A a \in V : Inc([req EXCEPT !.snr = a, !.pe = a]) = Inc(req)
Monotone == (AtRequest /\ ~req.g) => \A a \in V : (FlLeq(req.snr, a) => Inc([req EXCEPT !.snr = a]) \subseteq Inc(req))
                                                 /\ (FlLeq(req.pe, a) => Inc([req EXCEPT !.pe = a]) \subseteq Inc(req))
ZeroIsAll == (AtRequest /\ ~req.g) => Inc([req EXCEPT !.snr = FlZero, !.pe = FlZero]) = 1 .. 3
NoCINoSNR == (AtRequest /\ ~req.g /\ ~req.ci) => \A a \in V : Inc([req EXCEPT !.snr = a]) = Inc(req)
Boundary == (AtRequest /\ ~req.g) => \A i \in 1 .. 3 : (rows[i].pe = req.pe /\ rows[i].snr = req.snr) => i \in Inc(req)
====
