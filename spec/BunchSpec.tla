---- MODULE BunchSpec ----
(* The Bunch as an abstract data type.  A bunch is a sequence of <<key, value>> pairs with distinct keys in insertion order (a
   dictionary); an operation has an outcome class, a value, and a next state.  Keys and values are tokens; Names are the keys that
   are Python identifiers, readable and writable as attributes.  KeyOrder lists the keys in the order of their printed forms.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
KeyOrder == <<"kTuple", "k7", "kSpace", "kA", "kB", "kC", "kT">>
Keys == ToSet(KeyOrder)
Names == {"kA", "kB", "kC", "kT"}
None == "none"
Values == {None, "v0", "vEmpty", "vFalse", "vList", "v1", "v2", "vLong", "vLines", "vArr", "vBunch"}
Has(b, k) == \E i \in DOMAIN b : b[i][1] = k
At(b, k) == b[CHOOSE i \in DOMAIN b : b[i][1] = k][2]
Put(b, k, v) == IF Has(b, k) THEN [i \in DOMAIN b |-> IF b[i][1] = k THEN <<k, v>> ELSE b[i]] ELSE Append(b, <<k, v>>)
Del(b, k) == SelectSeq(b, LAMBDA p : p[1] # k)
PutAll(b, ps) == FoldLeft(LAMBDA x, p : Put(x, p[1], p[2]), b, ps)
KeysOf(ps) == {ps[i][1] : i \in DOMAIN ps}
Same(a, b) == KeysOf(a) = KeysOf(b) /\ \A k \in KeysOf(a) : At(a, k) = At(b, k)      \* equality ignores order
Sorted(b) == LET ks == SelectSeq(KeyOrder, LAMBDA k : Has(b, k)) IN [i \in DOMAIN ks |-> <<ks[i], At(b, ks[i])>>]
Out(c, v, b) == [c |-> c, v |-> v, b |-> b]
Ok(v, b) == Out("ok", v, b)
(* o: operation [op, key, val, ps (pairs), strict] on bunch b *)
Effect(b, o) ==
  CASE o.op \in {"setitem", "setattr"} -> Ok("", Put(b, o.key, o.val))
    [] o.op = "getitem" -> IF Has(b, o.key) THEN Ok(At(b, o.key), b) ELSE Out("KeyError", "", b)
    [] o.op = "getattr" -> IF Has(b, o.key) THEN Ok(At(b, o.key), b) ELSE Out("AttributeError", "", b)
    [] o.op \in {"hasattr", "contains"} -> Ok(IF Has(b, o.key) THEN "true" ELSE "false", b)
    [] o.op = "get" -> Ok(IF Has(b, o.key) THEN At(b, o.key) ELSE None, b)
    [] o.op = "getattrdef" -> Ok(IF Has(b, o.key) THEN At(b, o.key) ELSE o.val, b)
    [] o.op = "delitem" -> IF Has(b, o.key) THEN Ok("", Del(b, o.key)) ELSE Out("KeyError", "", b)
    [] o.op = "pop" -> IF Has(b, o.key) THEN Ok(At(b, o.key), Del(b, o.key)) ELSE Out("KeyError", "", b)
    [] o.op = "setdefault" -> IF Has(b, o.key) THEN Ok(At(b, o.key), b) ELSE Ok(o.val, Put(b, o.key, o.val))
    [] o.op = "update" -> Ok("", PutAll(b, o.ps))
    [] o.op = "clear" -> Ok("", <<>>)
    [] o.op = "values" -> IF o.strict /\ ~(KeysOf(o.ps) \subseteq KeysOf(b)) THEN Out("KeyError", "", b)
                          ELSE Ok("", PutAll(b, SelectSeq(o.ps, LAMBDA p : Has(b, p[1]))))
    [] o.op = "nones" -> IF o.strict /\ ~(KeysOf(o.ps) \subseteq KeysOf(b)) THEN Out("KeyError", "", b)
                         ELSE Ok("", PutAll(b, SelectSeq(o.ps, LAMBDA p : Has(b, p[1]) /\ At(b, p[1]) = None)))
    \* the variables of a Python file, in the order of their first assignment; a file that fails changes nothing
    [] o.op = "pyfile" -> IF o.strict THEN Out("NameError", "", b) ELSE Ok("", PutAll(b, PutAll(<<>>, o.ps)))
    [] o.op = "print" -> Ok("", b)
    [] o.op = "new" -> Ok("", PutAll(<<>>, o.ps))
Shown(b) == Sorted(b)                       \* printing shows every item, in key order
====
