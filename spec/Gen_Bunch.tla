---- MODULE Gen_Bunch ----
(* Random histories of two bunches.  CONSTANT Len1: operations per history. *)
EXTENDS BunchSpec, Json
CONSTANT Len1
VARIABLES ops, st
RE(S) == RandomElement(S)
OpNames == {"setitem", "setitem", "setattr", "getitem", "getattr", "hasattr", "contains", "get", "getattrdef", "delitem", "pop", "setdefault", "update", "clear",
            "values", "nones", "print", "new", "dup"}
Weighted == <<"setitem", "setattr", "setattr", "getitem", "getattr", "getattr", "hasattr", "contains", "get", "getattrdef", "delitem", "pop", "setdefault",
              "update", "update", "values", "values", "values", "nones", "nones", "nones", "print", "print", "new", "dup", "dup", "clear", "pyfile", "pyfile">>
IdentOnly == {"setattr", "getattr", "hasattr", "getattrdef"}
PairsOf(n, names) == [i \in 1 .. n |-> <<RE(IF names THEN Names ELSE Keys), RE(Values)>>]
(* often a key twice, with other values: the later one counts *)
Again(p, b) == IF b /\ Len(p) > 1 THEN [p EXCEPT ![Len(p)] = <<p[1][1], @[2]>>] ELSE p
Draw(x) == LET op == Weighted[RE(DOMAIN Weighted)]
               form == RE({"dict", "bunch", "pairs", "kw", "two", "mixed"})
           IN  [op |-> op, i |-> RE({1, 1, 2}), j |-> RE({1, 2}), key |-> RE(IF op \in IdentOnly THEN Names ELSE Keys), val |-> RE(Values),
                ps |-> Again(PairsOf(RE(0 .. 3), form \in {"kw", "mixed"} \/ op = "pyfile"), RE(BOOLEAN)), strict |-> RE({TRUE, FALSE}), form |-> form,
                how |-> RE({"copy", "deepcopy", "pickle", "Bunch", "dictcopy", "kwargs", "update"})]
Init == ops = <<>> /\ st = 0
Next == \/ st < Len1 /\ st' = st + 1 /\ ops' = TLCEval(Append(ops, Draw(st)))
        \/ st = Len1 /\ st' = st + 1 /\ ops' = <<>> /\ PrintT("CASE " \o ToJson(ops))
Spec == Init /\ [][Next]_<<ops, st>>
====
