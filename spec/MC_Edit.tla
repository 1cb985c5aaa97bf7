---- MODULE MC_Edit ----
(* The editing pipeline step by step on two inputs that differ only in how missing values are marked and in what lies under
   the marks.  All inputs of N samples are explored.  Bug selects a faulty pipeline (mutant configurations).               *)
EXTENDS Edit, FiniteSets, TLC
CONSTANTS N, Bug
Marks == {"ok", "nan", "masked"}
Grids == {<<0, 1, 2, 3, 4>>, <<0, 1, 3, 4, 6>>, <<0, 2, 3, 5, 9>>}
VARIABLES inp, twin, w, stage
vars == <<inp, twin, w, stage>>
\* values: the true value of sample i is 10*i (u) and 10*i+1 (v); under a mark there is junk
Junk(m, j) == IF m = "ok" THEN 0 ELSE j
Smp(i, g, tm, um, vm, j) == [t |-> g[i] + Junk(tm, j), u |-> 10 * i + Junk(um, j), v |-> 10 * i + 1 + Junk(vm, j), tm |-> tm, um |-> um, vm |-> vm]
Remark(m) == CASE m = "ok" -> "ok" [] m = "nan" -> "masked" [] m = "masked" -> "nan"
Init == stage = "pick" /\ inp = <<>> /\ twin = <<>> /\ w = <<>>
Add == /\ stage = "pick" /\ Len(inp) < N
       /\ \E g \in (IF inp = <<>> THEN Grids ELSE {w}), tm \in Marks, um \in Marks, vm \in Marks :
            LET i == Len(inp) + 1 IN
            /\ w' = g
            /\ inp' = Append(inp, Smp(i, g, tm, um, vm, 0))
            /\ twin' = Append(twin, Smp(i, g, Remark(tm), Remark(um), Remark(vm), 100))
       /\ UNCHANGED stage
\* the steps of the pipeline on one input: a work record [tt: times kept, rows, even, ref2, span, n]
Drop1(ss) == IF Bug = "masktime" THEN SelectSeq(ss, LAMBDA s : s.tm # "nan") ELSE Timed(ss)
Drop2(ss) == SelectSeq(ss, LAMBDA s : s.um = "ok" /\ (Bug = "vonly" \/ s.vm = "ok"))
Edited(ss) == LET td == Drop1(ss)  kp == Drop2(td)
                  base == IF Bug # "span" /\ Even(td) THEN td ELSE IF Bug = "span" THEN td ELSE kp
              IN  [rows |-> [i \in 1 .. Len(kp) |-> <<kp[i].t, kp[i].u, kp[i].v>>],
                   ref2 |-> IF base = <<>> THEN 0 ELSE base[1].t + base[Len(base)].t,
                   span |-> IF base = <<>> THEN 0 ELSE base[Len(base)].t - base[1].t]
Run == /\ stage = "pick" /\ Len(inp) = N /\ stage' = "done"
       /\ w' = <<Edited(inp), Edited(twin)>> /\ UNCHANGED <<inp, twin>>
Next == Add \/ Run
Spec == Init /\ [][Next]_vars
Done == stage = "done"
MarkBlind == Done => w[1] = w[2]
OnlyTrueValues == Done => \A k \in 1 .. 2 : \A r \in {w[k].rows[i] : i \in 1 .. Len(w[k].rows)} : \E i \in 1 .. N :
                     r[2] = 10 * i /\ r[3] = 10 * i + 1 /\ inp[i].tm = "ok" /\ inp[i].um = "ok" /\ inp[i].vm = "ok"
AsSpecified == Done => LET k == Kept(inp, TRUE) r == Record(inp, TRUE) IN
                 /\ Len(w[1].rows) = Len(k)
                 /\ r # <<>> => w[1].ref2 = TwiceRef(inp, TRUE) /\ w[1].span = Span(inp, TRUE)
\* supplying the retained samples only changes nothing unless the full times were evenly spaced
Removable == (Done /\ ~Even(Timed(inp))) => LET k == Kept(inp, TRUE) IN k = <<>> \/ Edited(k) = w[1]
====
