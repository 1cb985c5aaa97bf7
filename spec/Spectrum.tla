---- MODULE Spectrum ----
(* The noise spectrum of an evenly sampled series. The series is given by its Fourier coefficients c[1..n/2+1] (of frequencies
   0 .. n/2, in cycles per record): x_j = c_0 + 2 Re Sum c_k exp(2 pi i j k / n) + c_(n/2) (-1)^j. A Hann window turns c_k into
   c_k/2 - (c_(k-1) + c_(k+1))/4; the mean is removed before.  Densities are one-sided.                                            *)
EXTENDS Flt, FiniteSets, FiniteSetsExt, SequencesExt
Bands == << <<10, 417>>, <<3192, 4859>>, <<7218, 8884>>, <<11243, 12910>>, <<15269, 16936>>, <<19295, 20961>>, <<23320, 25100>>, <<26000, 29000>>, <<30000, 50000>> >>
Conj(a) == <<a[1], FlNeg(a[2])>>
Z == <<FlZero, FlZero>>
\* coefficient of any frequency -1 .. n/2 + 1
Coef(c, n, k) == LET h == n \div 2 IN IF k = 0 THEN Z ELSE IF k < 0 THEN Conj(c[1 - k]) ELSE IF k > h THEN Conj(c[n - k + 1]) ELSE c[k + 1]
Half(x) == FlDiv(x, FlOf(2))
Part(c, n, k, i) == FlSub(Half(Coef(c, n, k)[i]), FlDiv(FlAdd(Coef(c, n, k - 1)[i], Coef(c, n, k + 1)[i]), FlOf(4)))
Windowed(c, n, k) == <<Part(c, n, k, 1), Part(c, n, k, 2)>>
\* density at frequency k of two series (of one: Density(c, c, ...)): the co-spectrum; dt in hours
DensityBy(win(_, _, _), sides, c, d, n, dt, k) ==
  LET w == TLCEval(win(c, n, k))  v == TLCEval(win(d, n, k))  p == FlAdd(FlMul(w[1], v[1]), FlMul(w[2], v[2]))
      f == IF k = 0 \/ k = n \div 2 THEN 8 ELSE 8 * sides
  IN  FlDiv(FlMul(FlMul(FlOf(f * n), dt), p), FlOf(3))
Density(c, d, n, dt, k) == DensityBy(Windowed, 2, c, d, n, dt, k)
\* the largest it could be
Ceiling(c, d, n, dt, k) ==
  LET m(x) == FoldLeft(LAMBDA a, j : FlAdd(a, FlAdd(FlAbs(Coef(x, n, j)[1]), FlAbs(Coef(x, n, j)[2]))), FlZero, <<k - 1, k, k + 1>>)
  IN  FlMul(FlMul(FlOf(n), dt), FlMul(m(c), m(d)))
\* frequencies of a band; q: sampling interval in quarters of an hour
InBand(b, n, q, k) == Bands[b][1] * n * q <= k * 400000 /\ k * 400000 <= Bands[b][2] * n * q
BandBins(b, n, q, kmax) == {k \in 1 .. kmax : InBand(b, n, q, k)}
\* the next frequency above the band may count or not
Next1(b, n, q, kmax) == LET s == {k \in 0 .. kmax : Bands[b][2] * n * q < k * 400000} IN IF s = {} THEN {} ELSE {CHOOSE k \in s : \A j \in s : k <= j}
Seq1(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
MeanOver(f(_), s) == LET o == Seq1(s) IN FlDiv(FlSum([i \in 1 .. Len(o) |-> f(o[i])]), FlOf(Len(o)))
====
