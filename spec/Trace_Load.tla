---- MODULE Trace_Load ----
(* C28.  e.tree: what was saved (words of string arrays without trailing blanks); e.got: what loadbunch gave; e.conv: after
   convert_unicode_arrays, e.kept: whether its argument is as it was; e.shown: names listed by showmatbunch, e.sorted: whether in order. *)
EXTENDS Load, Judge
RECURSIVE SameVal(_, _)
SameVal(a, b) ==                                            \* b: observed; m as a sequence
  /\ a.t = b.t
  /\ CASE a.t = "st" -> Len(a.f) = Len(b.f) /\ \A i \in 1 .. Len(a.f) : \E j \in 1 .. Len(b.f) : b.f[j].n = a.f[i].n /\ SameVal(a.f[i].v, b.f[j].v)
       [] a.t = "arr" -> a.k = b.k /\ a.s = b.s /\ a.x = b.x /\ a.m = {b.m[i] : i \in 1 .. Len(b.m)} /\ a.isma = b.isma
       [] a.t = "one" -> a.k = b.k /\ a.x = b.x
       [] OTHER -> a.x = b.x
Seen(s) == {s[i] : i \in 1 .. Len(s)}
LoadBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE
  LET l == TLCEval(Loaded(e.tree, e.masked))  lv == TLCEval(Leaves(e.tree, "")) IN
     If(~SameVal(l, e.got), "loaded structure")
  \o If(~SameVal(Converted(l), e.conv), "converted structure")
  \o If(~e.kept, "convert_unicode_arrays changed its argument")
  \o If(Seen(e.shown) # Seen(lv) \/ Len(e.shown) # Len(lv) \/ ~e.sorted, "names shown")
  \o If(~e.again, "showmatbunch of the file and of its contents differ")
  \o If(e.other # "ValueError", "other file names: " \o e.other)
====
