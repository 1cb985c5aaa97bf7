---- MODULE Trace_Tide ----
(* Judge of predictions recorded from the real code.  Events:
   one: a single constituent of unit amplitude; re, im = prediction with phase lag 0 and 90 degrees, per instant
   sum: a scalar coefficient set;   ell: a vector coefficient set                                              *)
EXTENDS Tide, IOUtils
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES pos, bad
vars == <<pos, bad>>

Deg3(g) == (g * 2500) \div 9           \* millidegrees to cycles
Tol(m) == 600 + (m \div 100000)         \* absolute 6e-6 plus 1e-5 of the size
HalfDefined(e) == Half(e.c) /\ \A k \in 1 .. Len(e.t) : Abs(e.t[k][1]) > 300 /\ Abs(e.t0[1]) > 300

OneVal(e, k, asis) == Basis(e.c, Ctx(e.t[k], e.t0, e.lat), e.ph, e.nod, asis)
OneOk(e, asis) == \A k \in 1 .. Len(e.t) : LET z == OneVal(e, k, asis) tol == Tol(Abs(z[1]) + Abs(z[2]))
                                          IN Near(z[1], e.re[k], tol) /\ Near(z[2], e.im[k], tol)
OneBad(e) == IF OneOk(e, FALSE) THEN <<>>
             ELSE IF HalfDefined(e) /\ OneOk(e, TRUE) THEN <<"half-as-is">>
             ELSE <<"value of the constituent">>

\* slope in 1e-8 per day; whole days and ticks separately
Trend(s, t, t0) == s * (t[1] - t0[1]) + QuoT(s * (t[2] - t0[2]), Ticks)
SumVal(e, k) ==
  LET x == Ctx(e.t[k], e.t0, e.lat)
      term(p) == LET z == CMul(Basis(p.c, x, e.ph, e.nod, FALSE), Cis(-Deg3(p.g))) IN FxMul(p.A, z[1])
  IN  FoldLeft(LAMBDA acc, p : acc + term(p), e.mean + Trend(e.slope, e.t[k], e.t0), e.cs)
EllVal(e, k) ==
  LET x == Ctx(e.t[k], e.t0, e.lat)
      term(p) == LET z == CMul(Basis(p.c, x, e.ph, e.nod, FALSE), Cis(-Deg3(p.g)))
                 IN  CMul(Cis(Deg3(p.th)), <<FxMul(p.L, z[1]), FxMul(p.l, z[2])>>)
  IN  FoldLeft(LAMBDA acc, p : CAdd(acc, term(p)),
               <<e.um + Trend(e.us, e.t[k], e.t0), e.vm + Trend(e.vs, e.t[k], e.t0)>>, e.cs)
SumTol == 4000
SumBad(e) == IF \A k \in 1 .. Len(e.t) : Near(SumVal(e, k), e.h[k], SumTol) THEN <<>> ELSE <<"scalar prediction">>
EllBad(e) == IF \A k \in 1 .. Len(e.t) : LET z == EllVal(e, k) IN Near(z[1], e.u[k], SumTol) /\ Near(z[2], e.v[k], SumTol)
             THEN <<>> ELSE <<"vector prediction">>
Bad(e) == IF ~e.ok THEN <<"no result">>
          ELSE CASE e.k = "one" -> OneBad(e) [] e.k = "sum" -> SumBad(e) [] e.k = "ell" -> EllBad(e)

Init == pos = 1 /\ bad = <<>>
Next == \/ /\ pos <= Len(Trace)
           /\ LET w == Bad(Trace[pos]) IN bad' = IF w = <<>> THEN bad ELSE Append(bad, [i |-> pos, why |-> w])
           /\ pos' = pos + 1
        \/ /\ pos = Len(Trace) + 1
           /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
           /\ pos' = pos + 1 /\ UNCHANGED bad
Spec == Init /\ [][Next]_vars
====
