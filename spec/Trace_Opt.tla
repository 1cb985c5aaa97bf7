---- MODULE Trace_Opt ----
(* C03: the reported solution minimises the misfit of the full reconstruction.  The misfit is a convex quadratic of the
   complex amplitudes, mean and slope; an event holds its value s0 at the reported solution and, for every coordinate
   direction, its values sp and sm a step away on both sides (in units of s0/10^6).  The quadratic along the direction
   has its minimum at  step * (sm - sp) / (2 (sp + sm - 2 s0)).                                                          *)
EXTENDS Num, FiniteSets, Judge
U == 1000000
Offset(d) == LET curv == d.sp + d.sm - 2 * U IN <<d.sm - d.sp, curv>>
\* the minimum lies within 10^-4 steps of the reported value
AtMin(d) == LET o == Offset(d) IN o[2] > 0 /\ Abs(o[1]) <= 20 + (2 * o[2]) \div 10000
Not(d) == ~(d.sp >= U - 20 /\ d.sm >= U - 20 /\ AtMin(d))
OptBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>>
             ELSE LET b == {i \in 1 .. Len(e.dirs) : Not(e.dirs[i])}
                  IN  If(b # {}, "misfit not minimal along " \o ToString({e.dirs[i].n : i \in b}))
====
