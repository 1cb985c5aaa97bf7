---- MODULE Trace_Tables ----
(* C26: the published constituent tables, as read from the package, and the frequencies solutions report.
   all: names and the keys of the published maps          one: everything published about one constituent
   sol: names and frequencies of a solution with its reference time                                       *)
EXTENDS Tide, Flt, Judge, FiniteSets
FrBn(v) == BnTrim(v)
FrDiff(a, b) == LET x == FrBn(a)  y == FrBn(b) IN IF BnLt(x, y) THEN BnSub(y, x) ELSE BnSub(x, y)
Within(a, b, bn) == ~BnLt(bn, FrDiff(a, b))            \* |a - b| <= bn, in 10^-16 cycles per hour
Tabulated == <<0, 1000>>                               \* 1e-9 cph: the tables are given to ten decimals, the rates drift with time
TenDigits == <<2000, 300>>                             \* 3.2e-10
Exact == <<0, 10>>                                     \* 1e-11
BnPad(b) == <<Limb(b, 1), Limb(b, 2), Limb(b, 3), Limb(b, 4)>>
AllBad(e) ==
  If(Len(e.names) # NConst \/ Len(e.names) # 146, "number of constituents") \o If(Cardinality(Range(e.names)) # Len(e.names), "names are not distinct")
  \o If(Range(e.names) # {Tab[c].name : c \in 1 .. NConst}, "set of names")
  \o If(Range(e.index) # Range(e.names) \/ Len(e.index) # Len(e.names), "index map covers other names")
  \o If(Range(e.cph) # Range(e.names) \/ Len(e.cph) # Len(e.names), "cycles_per_hour covers other names")
  \o If(Range(e.hpc) # Range(e.names) \/ Len(e.hpc) # Len(e.names), "hours_per_cycle covers other names")
RefRates == Rates(<<36524, 512>>)                      \* 1 January 2000
DoodFr(d, r) == FrCarry(TLCEval([i \in 1 .. 4 |-> d[1]*r[1][i] + d[2]*r[2][i] + d[3]*r[3][i] + d[4]*r[4][i] + d[5]*r[5][i] + d[6]*r[6][i]]))
Combined(ps) == FrHalve(FrCarry(FoldLeft(LAMBDA acc, p : [i \in 1 .. 4 |-> acc[i] + p.c2 * p.f[i]], <<0, 0, 0, 0>>, ps)))
FlOfFr(v) == FlAdd(FlAdd(FlNorm(v[4], 4), FlNorm(v[3], 0)), FlAdd(FlNorm(v[2], -4), FlNorm(v[1], -8)))
OneBad(e) ==
  LET c == e.i  zero == \A k \in 1 .. 4 : e.f[k] = 0 IN
  If(e.at # c, "index map disagrees with the table") \o If(e.attr # e.f, "item and attribute of cycles_per_hour differ")
  \o If(e.cph # e.f, "cycles_per_hour disagrees with the table")
  \o If(IF zero THEN e.hpc # FlInf ELSE ~FlNear(FlMul(e.hpc, FlOfFr(e.f)), FlPow10(0), -6), "hours_per_cycle is not the reciprocal")
  \o If(e.compound = (e.dood # <<>>), "neither Doodson numbers nor parents (or both)")
  \o If(~e.compound /\ e.dood # <<>> /\ ~Within(DoodFr(e.dood, RefRates), e.f, Tabulated), "frequency does not match the Doodson numbers")
  \o If(e.compound /\ e.parents # <<>> /\ ~Within(Combined(e.parents), e.f, TenDigits), "frequency is not the combination of the parents'")
  \o If(e.compound /\ (e.parents = <<>> \/ \E p \in Range(e.parents) : p.compound), "parents of a compound constituent")
  \o If(e.satsOk # TRUE, "satellites of another constituent") \o If(e.name # Tab[c].name, "order of the tables")
  \o If(~zero /\ e.df # <<0, 0, 0, 0>> /\ ~Within(e.df, FrCarry(BnPad(FrDiff(e.f, e.fk))), TenDigits), "decision-tree separation is not the distance to the comparison constituent")
SolBad(e) == LET r == TLCEval(Rates(e.t0))
                 c(n) == CHOOSE k \in 1 .. NConst : Tab[k].name = n
                 off == {i \in 1 .. Len(e.names) : ~Within(Freq(c(e.names[i]), r), e.frq[i], Exact)} IN
  If(Len(e.names) # Len(e.frq), "number of frequencies") \o If(off # {}, "frequency at the reference time: " \o ToString({e.names[i] : i \in off}))
TablesBad(e) == IF ~e.ok THEN <<"no result: " \o e.err>> ELSE CASE e.k = "all" -> AllBad(e) [] e.k = "one" -> OneBad(e) [] e.k = "sol" -> SolBad(e)
====
