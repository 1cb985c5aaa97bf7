---- MODULE Gen_Load ----
(* random trees of values to save *)
EXTENDS Load, Json
VARIABLES st
RE(S) == RandomElement(S)
Words == {"M2", "K1 ", "S2", "a b", "theta", "x  ", "long name of a thing that goes on and on and on beyond fifty"}
LeafNames == <<"A", "g", "name", "aux", "t", "mean", "opt", "z9", "B_ci", "u">>
Shapes == {<<1>>, <<3>>, <<5>>, <<1, 1>>, <<1, 4>>, <<4, 1>>, <<2, 3>>, <<2, 1, 3>>, <<1, 1, 2>>, <<3, 2, 2>>, <<0, 0>>, <<0, 3>>, <<3, 0>>, <<2, 0, 3>>}
Num(x) == LET s == RE(Shapes)  k == RE({"f", "i", "c", "b"})  dirty == RE({TRUE, FALSE})
          IN  [t |-> "num", k |-> k, s |-> s, w |-> RE({0, 0, 1}), x |-> TLCEval([i \in 1 .. Size(s) |-> IF k = "f" /\ dirty /\ RE(1 .. 3) = 1 THEN RE(NonFinite) ELSE IF k = "b" THEN RE(0 .. 1) ELSE RE(-999 .. 999)])]
Leaf(x) == LET t == RE({"num", "num2", "num3", "str", "strs", "cell"}) IN
           CASE t = "str" -> [t |-> "str", x |-> RE(Words)]
             [] t \in {"strs", "cell"} -> [t |-> t, x |-> TLCEval([i \in 1 .. RE(1 .. 4) |-> RE(Words)])]
             [] OTHER -> Num(0)
RECURSIVE Tree(_)
Tree(d) == LET n == RE(1 .. 5) o == RE(0 .. 9) IN
           [t |-> "st", f |-> TLCEval([i \in 1 .. n |-> [n |-> LeafNames[((o + i) % 10) + 1], v |-> IF d > 0 /\ RE(1 .. 3) = 1 THEN Tree(d - 1) ELSE Leaf(0)]])]
Init == st = 0
Next == \/ st = 0 /\ st' = 1 /\ PrintT("CASE " \o ToJson([tree |-> Tree(3), masked |-> RE({TRUE, FALSE}), form |-> RE({"mat", "mat", "npz"}), how |-> RE({"flat", "nested"})]))
Spec == Init /\ [][Next]_st
====
