---- MODULE MC_Load ----
(* Loading as a traversal: a stack of paths still to load, a store of what has been loaded.  Every small tree is explored; the store ends
   as the leaves of Loaded(tree).  Fault: a defect (mutants).                                                                         *)
EXTENDS Load
CONSTANT Fault
Names == <<"a", "b">>
LeafSet == {[t |-> "num", k |-> "f", s |-> <<2, 1>>, x |-> <<1, 9001>>], [t |-> "num", k |-> "i", s |-> <<1, 1>>, x |-> <<5>>], [t |-> "num", k |-> "f", s |-> <<1>>, x |-> <<9002>>],
            [t |-> "num", k |-> "c", s |-> <<2>>, x |-> <<3, 9001>>], [t |-> "str", x |-> "s"], [t |-> "strs", x |-> <<"q">>], [t |-> "cell", x |-> <<"q", "r">>]}
St(S) == {[t |-> "st", f |-> [i \in 1 .. n |-> [n |-> Names[i], v |-> g[i]]]] : n \in {1, 2}, g \in [1 .. 2 -> S]}
Trees == LET l == LeafSet \cup St(LeafSet) IN {[t |-> "st", f |-> <<[n |-> "a", v |-> x], [n |-> "b", v |-> y]>>] : x \in l, y \in l}
VARIABLES tree, masked, stack, store, shown
vars == <<tree, masked, stack, store, shown>>
Init == tree = [t |-> "none"] /\ masked = FALSE /\ stack = <<>> /\ store = {} /\ shown = <<>>
Pick == /\ tree.t = "none" /\ tree' \in Trees /\ masked' \in BOOLEAN /\ stack' = <<[p |-> "", v |-> tree']>> /\ UNCHANGED <<store, shown>>
Crunch(v) == IF Fault = "maskall" /\ v.t = "num" THEN Loaded(v, TRUE)
             ELSE IF Fault = "keepdims" /\ v.t = "num" /\ Size(v.s) # 1 THEN [Loaded(v, masked) EXCEPT !.s = v.s]
             ELSE Loaded(v, masked)
Step == /\ stack # <<>> /\ tree.t # "none"
        /\ LET h == stack[Len(stack)]  rest == SubSeq(stack, 1, Len(stack) - 1) IN
           IF h.v.t = "st"
           THEN /\ stack' = rest \o [i \in 1 .. Len(h.v.f) |-> [p |-> IF h.p = "" \/ Fault = "shortnames" THEN h.v.f[i].n ELSE h.p \o "." \o h.v.f[i].n, v |-> h.v.f[i].v]]
                /\ UNCHANGED <<store, shown>>
           ELSE /\ stack' = rest /\ store' = store \cup {<<h.p, Crunch(h.v)>>} /\ shown' = Append(shown, h.p)
        /\ UNCHANGED <<tree, masked>>
Next == Pick \/ Step
Spec == Init /\ [][Next]_vars
Done == stack = <<>> /\ tree.t # "none"
RECURSIVE At(_, _)
At(v, path) == IF path = <<>> THEN v ELSE At(v.f[CHOOSE i \in 1 .. Len(v.f) : v.f[i].n = path[1]].v, Tail(path))
PathOf(p) == CASE p = "a" -> <<"a">> [] p = "b" -> <<"b">> [] p = "a.a" -> <<"a", "a">> [] p = "a.b" -> <<"a", "b">> [] p = "b.a" -> <<"b", "a">> [] p = "b.b" -> <<"b", "b">>
SameLeaves == Done => {shown[i] : i \in 1 .. Len(shown)} = {Leaves(tree, "")[i] : i \in 1 .. Len(Leaves(tree, ""))} /\ Len(shown) = Len(Leaves(tree, ""))
Mirrors == Done /\ {x[1] : x \in store} \subseteq {"a", "b", "a.a", "a.b", "b.a", "b.b"} =>
             \A x \in store : \A i \in 1 .. Len(Leaves(tree, "")) : Leaves(tree, "")[i] = x[1] => x[2] = At(Loaded(tree, masked), PathOf(x[1]))
NoMask == Done /\ ~masked => \A x \in store : x[2].t = "arr" => x[2].m = {}
Idempotent == Done => Converted(Converted(Loaded(tree, masked))) = Converted(Loaded(tree, masked))
====
