---- MODULE Trace_Energy ----
(* C10: PE, SNR and the diagnostic table, recomputed from the reported parameters and intervals. *)
EXTENDS Order, Judge
H == FlOf(100)
PEBad(e) == {r \in 1 .. Len(e.rows) : ~(FlSgn(e.rows[r].pe) >= 0 /\ FlNearTo(e.rows[r].pe, PEOf(e.rows[r], e.rows), FlMax(e.rows[r].pe, FlPow10(-9)), -5))}
SNRBad(e) == {r \in 1 .. Len(e.rows) : ~FlNear(e.rows[r].snr, SNROf(e.rows[r]), -5)}
TableBad(e) == ~( /\ Len(e.diag) = Len(e.rows)
                  /\ Distinct([i \in 1 .. Len(e.diag) |-> e.diag[i].n])
                  /\ SameSet([i \in 1 .. Len(e.diag) |-> e.diag[i].n], [i \in 1 .. Len(e.rows) |-> e.rows[i].n])
                  /\ NonIncreasing([i \in 1 .. Len(e.diag) |-> e.diag[i].pe])
                  /\ \A i \in 1 .. Len(e.diag) : LET r == RowOf(e.rows, e.diag[i].n) IN
                       FlNear(e.diag[i].pe, r.pe, -5) /\ FlNear(e.diag[i].snr, r.snr, -5) )
EnBad(e) ==
  IF ~e.ok THEN <<"no result: " \o e.err>>
  ELSE LET hasci == e.conf # "none" IN
       If(e.hasSNR # hasci, "presence of SNR") \o If(e.hasDiag # hasci, "presence of the diagnostic table")
       \o (IF ~e.hasPE THEN <<>>
           ELSE If(PEBad(e) # {}, "PE is not the share of energy") \o
                If(~FlNear(FlSum([i \in 1 .. Len(e.rows) |-> e.rows[i].pe]), H, -5), "PE does not sum to 100"))
       \o (IF ~(hasci /\ e.hasSNR) THEN <<>> ELSE If(SNRBad(e) # {}, "SNR is not energy over squared standard errors"))
       \o (IF ~(hasci /\ e.hasDiag /\ e.hasSNR /\ e.hasPE) THEN <<>> ELSE If(TableBad(e), "diagnostic table"))
====
