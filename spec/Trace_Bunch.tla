---- MODULE Trace_Bunch ----
(* C20.  A session replays a history of operations on two bunches; each event has the operation, its observed outcome (class c,
   value token v) and everything observed of both bunches afterwards.                                                        *)
EXTENDS SJudge, BunchSpec
BunchStart(e) == [s |-> << <<>>, <<>> >>, order |-> TRUE]
(* duplicates keep all items; kwargs only take identifiers *)
Source(m, o) == IF o.how = "kwargs" THEN SelectSeq(m.s[o.i], LAMBDA p : p[1] \in Names) ELSE m.s[o.i]
Seen(e, i, b) ==
  LET x == e.b[i] IN
     If(x.items # b, "contents of bunch " \o ToString(i))
  \o If(x.attrs # SelectSeq(b, LAMBDA p : p[1] \in Names), "attributes of bunch " \o ToString(i))
  \o If(~(x.len = Len(b) /\ x.eqdict /\ x.isbunch), "bunch " \o ToString(i) \o " is not the dictionary of its items")
BunchStep(m, e) ==
  LET o == e.o
      r == IF o.op = "dup" THEN Ok("", m.s[o.i]) ELSE Effect(m.s[o.i], o)
      s2 == IF o.op = "dup" THEN [m.s EXCEPT ![o.j] = Source(m, o)] ELSE [m.s EXCEPT ![o.i] = r.b]
      why == If(e.c # r.c, o.op \o ": outcome " \o e.c \o " instead of " \o r.c)
          \o If(e.c = r.c /\ e.v # r.v, o.op \o ": value " \o e.v \o " instead of " \o r.v)
          \o If(o.op = "print" /\ e.c = "ok" /\ (e.shown # Shown(m.s[o.i]) \/ e.shown2 # Shown(m.s[o.i])), "printing doesn't show the contents")
          \o (IF e.c = r.c THEN Seen(e, 1, s2[1]) \o Seen(e, 2, s2[2]) ELSE <<>>)
  IN  [st |-> [m EXCEPT !.s = s2], why |-> why]
====
