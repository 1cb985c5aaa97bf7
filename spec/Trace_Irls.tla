---- MODULE Trace_Irls ----
(* C32. An event is a small regression problem (x, y: complex numbers as pairs), the successive states the machine of Irls.tla goes
   through if nothing stops it (att: weights w, coefficients b, residuals r; an oracle whose every step is verified here), and the
   results of the code with different iteration limits m (runs: w, b, iterations it, rms; olsb, olsrms, lev).                        *)
EXTENDS Irls, Judge
CNear(a, b, s, k) == FlNearTo(a[1], b[1], s, k) /\ FlNearTo(a[2], b[2], s, k)
CMulF(a, b) == <<FlSub(FlMul(a[1], b[1]), FlMul(a[2], b[2])), FlAdd(FlMul(a[1], b[2]), FlMul(a[2], b[1]))>>
CConjF(a) == <<a[1], FlNeg(a[2])>>
CAddF(a, b) == <<FlAdd(a[1], b[1]), FlAdd(a[2], b[2])>>
CSumF(s) == FoldLeft(LAMBDA a, b : CAddF(a, b), <<FlZero, FlZero>>, s)
CScaleF(k, a) == <<FlMul(k, a[1]), FlMul(k, a[2])>>
Sq2(a) == FlAdd(FlSq(a[1]), FlSq(a[2]))
L1(a) == FlAdd(FlAbs(a[1]), FlAbs(a[2]))
MaxOf(s) == FoldLeft(LAMBDA a, b : FlMax(a, b), FlZero, s)
N(e) == Len(e.y)
AbsR(st) == TLCEval([i \in 1 .. Len(st.r) |-> FlSqrt(Sq2(st.r[i]))])
SizeAt(st) == SizeOf(AbsR(st))
MeanSq(st) == FlDiv(FlSum([i \in 1 .. Len(st.r) |-> FlMul(FlSq(st.w[i]), Sq2(st.r[i]))]), FlSum(st.w))
Rms(st) == FlSqrt(FlDiv(FlSum([i \in 1 .. Len(st.r) |-> Sq2(st.r[i])]), FlOf(Len(st.r))))
\* ---- the oracle is what it should be ----
BigY(e) == MaxOf([i \in 1 .. N(e) |-> L1(e.y[i])])
ResidualsOk(e, st) == \A i \in 1 .. N(e) :
   CNear(st.r[i], CAddF(e.y[i], CScaleF(FlOf(0 - 1), CSumF([j \in 1 .. Len(st.b) |-> CMulF(e.x[i][j], st.b[j])]))), FlMax(BigY(e), MaxOf([j \in 1 .. Len(st.b) |-> L1(st.b[j])])), 0 - 5)
NormalOk(e, st) == \A j \in 1 .. Len(st.b) :
   LET term == TLCEval([i \in 1 .. N(e) |-> CScaleF(FlSq(st.w[i]), CMulF(CConjF(e.x[i][j]), st.r[i]))])
       s == FlSum([i \in 1 .. N(e) |-> L1(term[i])])
   IN  s[1] = 0 \/ CNear(CSumF(term), <<FlZero, FlZero>>, FlMax(s, FlMul(FlPow10(0 - 6), FlMul(BigY(e), F1))), 0 - 4)
Tune(e) == IF e.given THEN e.tune ELSE Tuning[e.wf]
WeightsOk(e, st, before) == LET size == SizeAt(before)  a == AbsR(before) IN
   \A i \in 1 .. N(e) : LET r == Scaled(a[i], e.h[i], Tune(e), size) IN Jump(e.wf, r) \/ FlNearTo(st.w[i], Weight(e.wf, r), F1, 0 - 4)
OracleOk(e) == /\ \A i \in 1 .. N(e) : e.att[1].w[i] = F1
               /\ \A k \in 1 .. Len(e.att) : ResidualsOk(e, e.att[k]) /\ NormalOk(e, e.att[k])
               /\ \A k \in 2 .. Len(e.att) : WeightsOk(e, e.att[k], e.att[k - 1])
               /\ FlNearTo(FlSum(e.h), FlOf(Len(e.x[1])), F1, 0 - 4)
\* ---- where the iteration ends ----
Improvement(e, k) == FlDiv(FlSub(MeanSq(e.att[k - 1]), MeanSq(e.att[k])), MeanSq(e.att[k - 1]))
Unclear(x, y) == FlLt(FlAbs(FlSub(x, y)), Fl(10000000, 0 - 3))
End(at, it) == [at |-> at, it |-> it]
Unknown == End(0, 0)
RECURSIVE Walk(_, _, _)
Walk(e, k, m) ==
  IF k > Len(e.att) THEN Unknown ELSE
  LET imp == TLCEval(IF k = 1 THEN FlZero ELSE Improvement(e, k))
      go == IF k = m THEN End(k, m) ELSE IF SizeAt(e.att[k])[1] = 0 THEN End(k, k) ELSE Walk(e, k + 1, m)
  IN  IF k = 1 THEN go
      ELSE IF ~FlFinite(imp) \/ Unclear(imp, FlZero) \/ Unclear(imp, e.tol) THEN Unknown
      ELSE IF FlLt(imp, FlZero) THEN End(k - 1, k - 1)            \* worse: back to the state before
      ELSE IF FlLt(imp, e.tol) THEN End(k, k)
      ELSE go
SameW(w, st) == Len(w) = Len(st.w) /\ \A i \in 1 .. Len(w) : FlNearTo(w[i], st.w[i], F1, 0 - 5)
SameB(b, st) == LET s == MaxOf([j \in 1 .. Len(st.b) |-> L1(st.b[j])]) IN Len(b) = Len(st.b) /\ \A j \in 1 .. Len(b) : CNear(b[j], st.b[j], s, 0 - 5)
RunBad(e, r) ==
  IF r.err # "" THEN <<"maxit " \o ToString(r.m) \o ": " \o r.err>> ELSE
  LET z == Walk(e, 1, r.m)  st == e.att[z.at]  tag(s) == "maxit " \o ToString(r.m) \o ": " \o s IN
     If(~SameB(r.olsb, e.att[1]), tag("ols_b"))
  \o If(~FlNear(r.olsrms, Rms(e.att[1]), 0 - 4), tag("ols_rms_resid"))
  \o If(\E i \in 1 .. N(e) : ~FlNearTo(r.lev[i], e.h[i], F1, 0 - 5), tag("leverage"))
  \o (IF e.wf = "ols" THEN If(~SameW(r.w, e.att[1]) \/ ~SameB(r.b, e.att[1]), tag("uniform weights are not the ordinary fit"))
      ELSE IF z.at = 0 THEN <<>>
      ELSE If(~SameW(r.w, st), tag("weights are not " \o e.wf \o " of the fit before"))
           \o If(~SameB(r.b, st), tag("coefficients"))
           \o If(~FlNear(r.rms, Rms(st), 0 - 4), tag("rms_resid"))
           \o If(r.it # z.it, tag("iterations " \o ToString(r.it) \o ", not " \o ToString(z.it))))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
IrlsBad(e) == IF e.err # "" THEN <<e.err>>
              ELSE IF ~OracleOk(e) THEN <<"oracle">>
              ELSE Cat([i \in 1 .. Len(e.runs) |-> RunBad(e, e.runs[i])])
====
