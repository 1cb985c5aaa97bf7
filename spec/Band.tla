---- MODULE Band ----
(* Noise by frequency band: the spectrum of the residual is averaged over each band, leaving out the frequencies nearest to the
   analysed constituents, and a constituent takes the average of its own band.                                                *)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt, TLC
(* the bands, in 1e-5 cycles per hour *)
Bands == << <<10, 417>>, <<3192, 4859>>, <<7218, 8884>>, <<11243, 12910>>, <<15269, 16936>>, <<19295, 20961>>, <<23320, 25100>>, <<26000, 29000>>, <<30000, 50000>> >>
InBand(f8, b) == Bands[b][1] * 1000 <= f8 /\ f8 <= Bands[b][2] * 1000        \* f8: 1e-8 cycles per hour
BandOf(f8) == LET s == {b \in DOMAIN Bands : InBand(f8, b)} IN IF s = {} THEN 0 ELSE CHOOSE b \in s : TRUE
Width8(b) == (Bands[b][2] - Bands[b][1]) * 1000
(* band mean over bins, as <<sum, count>>; P: power by bin, excl: bins left out *)
BandMean(P, bins, excl) == LET s == bins \ excl IN <<MapThenSumSet(LAMBDA k : P[k], s), Cardinality(s)>>
====
